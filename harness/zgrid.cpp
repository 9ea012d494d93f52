// C04: redshift grids, sub-grid insertion, stored grid descriptions and regularisation.
#include "gen.h"
#include "RedshiftLibrary/common/range.h"
#include "RedshiftLibrary/common/vectorOperations.h"
#include "RedshiftLibrary/common/zgridparam.h"
#include "RedshiftLibrary/operator/linemodelresult.h"
#include "RedshiftLibrary/operator/logZPdfResult.h"
using namespace NSEpic;
using gen::V;
typedef long double LD;

static bool nearly(LD a, LD b, LD tol) { return fabsl(a - b) <= tol; }

// expected grid from lo upward (or from hi downward), eps = slack of the range end
struct Exp {
  V v;
  bool marginal = false;
};
static Exp spread(double lo, double hi, double step, bool log, double off, bool back, double eps) {
  Exp e;
  LD tol = 2e-11L;
  LD a = back ? (LD)hi : (LD)lo;
  for (long k = 0;; ++k) {
    LD x = log ? (a + off) * expl((back ? -1 : 1) * k * (LD)step) - off : a + (back ? -1 : 1) * k * (LD)step;
    LD lim = back ? lo - (LD)eps : hi + (LD)eps;
    LD d = back ? x - lim : lim - x;
    if (k && fabsl(d) < tol)
      e.marginal = true;
    if (k && d < 0)
      break;
    if (x > hi)
      x = hi;
    if (x < lo)
      x = lo;
    e.v.push_back(x);
    if (e.v.size() > 3000000)
      break;
  }
  if (back)
    std::reverse(e.v.begin(), e.v.end());
  return e;
}
static void cmp(vh::Case &c, const V &got, const Exp &w, const char *key) {
  if (w.marginal) {
    c.check(std::abs(int(got.size()) - int(w.v.size())) <= 1, key, "length");
    return;
  }
  if (!c.check(got.size() == w.v.size(), key, vh::fmt("length got=%zu want=%zu", got.size(), w.v.size())))
    return;
  for (size_t i = 0; i < got.size(); ++i)
    if (!nearly(got[i], w.v[i], 1e-11L * (1 + std::fabs(got[i]))))
      c.fail(key, vh::fmt("sample %zu got=%.17g want=%.17g", i, got[i], w.v[i]));
  c.count(std::string("monitor/") + key);
}

struct P {
  double a, b, st;
  bool log;
};
static P randomRange(vh::Rng &r) {
  P p;
  p.log = r.b();
  p.a = r.b(0.3) ? 0 : r.b(0.15) ? -0.01 * r.d() : r.d(0, 6);
  p.st = r.b(0.3) ? std::pow(10., -r.i(2, 4)) : r.logd(5e-5, 0.05);
  int n = r.b(0.15) ? r.i(1, 3) : r.i(2, 400);
  switch (r.i(0, 3)) {
  case 0: // exact multiple of the step
    p.b = p.log ? (1 + p.a) * std::exp(p.st * (n - 1)) - 1 : p.a + p.st * (n - 1);
    break;
  case 1: // decimal end
    p.b = std::round((p.a + p.st * n) * 1e4) / 1e4;
    break;
  default:
    p.b = p.log ? (1 + p.a) * std::exp(p.st * (n - 1 + r.d())) - 1 : p.a + p.st * (n - 1 + r.d());
  }
  if (p.b > 20)
    p.b = p.a + r.d(0.1, 10);
  if (p.b <= p.a)
    p.b = p.a + p.st * 0.5;
  return p;
}

VH_CASE(spread_range, 3000, 60000) {
  P p = randomRange(c.r);
  TFloat64Range rg(p.a, p.b);
  c.sig(p.a);
  c.sig(p.b);
  c.sig(p.st);
  c.note(vh::fmt("range [%.17g,%.17g] step %.17g log=%d", p.a, p.b, p.st, p.log));
  c.nontrivial = (p.b - p.a) > p.st;
  auto both = [&](const V &got, bool log, double off, bool back, double eps, const char *key) { cmp(c, got, spread(p.a, p.b, p.st, log, off, back, eps), key); };
  both(rg.SpreadOver(p.st), false, 0, false, 0, "spread-linear");
  both(rg.SpreadOver(p.st, true), false, 0, true, 0, "spread-linear-backward");
  both(rg.SpreadOverEpsilon(p.st), false, 0, false, 1e-8, "spread-linear-epsilon");
  both(rg.SpreadOverEpsilon(p.st, true), false, 0, true, 1e-8, "spread-linear-epsilon-backward");
  both(rg.SpreadOverLogZplusOne(p.st), true, 1, false, 0, "spread-log1z");
  both(rg.SpreadOverLogZplusOne(p.st, true), true, 1, true, 0, "spread-log1z-backward");
  both(rg.SpreadOverLogZplusOneEpsilon(p.st), true, 1, false, 1e-8, "spread-log1z-epsilon");
  both(rg.SpreadOverLogZplusOneEpsilon(p.st, true), true, 1, true, 1e-8, "spread-log1z-epsilon-backward");
  // wavelength-like ranges
  double la = c.r.d(100, 9000), lb = la * std::exp(p.st * c.r.d(0.5, 300)), ls = p.st;
  TFloat64Range lr(la, lb);
  p.a = la;
  p.b = lb;
  auto rel = [&](const V &got, bool back, double eps, const char *key) {
    Exp w = spread(la, lb, ls, true, 0, back, eps);
    if (w.marginal || false) {
      c.check(std::abs(int(got.size()) - int(w.v.size())) <= 1, key, "length");
      return;
    }
    if (!c.check(got.size() == w.v.size(), key, vh::fmt("length got=%zu want=%zu for [%.17g,%.17g] step %g", got.size(), w.v.size(), la, lb, ls)))
      return;
    for (size_t i = 0; i < got.size(); ++i)
      if (!nearly(got[i], w.v[i], 1e-11L * got[i]))
        c.fail(key, vh::fmt("sample %zu got=%.17g want=%.17g", i, got[i], w.v[i]));
  };
  rel(lr.SpreadOverLog(ls), false, 0, "spread-log");
  rel(lr.SpreadOverLog(ls, 0., true), true, 0, "spread-log-backward");
  rel(lr.SpreadOverLogEpsilon(ls), false, 1e-8, "spread-log-epsilon");
  // a sign change under the offset has no logarithm
  TFloat64Range bad(-2 - c.r.d(), 1 + c.r.d());
  c.check(vh::throwsAmz([&] { bad.SpreadOverLogZplusOne(p.st); }), "log-range-refused", "log range across -1 accepted");
}

VH_CASE(grid_param, 3000, 60000) {
  P p = randomRange(c.r);
  c.sig(p.a);
  c.sig(p.b);
  c.sig(p.st);
  bool centred = c.r.b(0.5);
  double zc = NAN;
  if (centred)
    zc = c.r.b(0.1) ? (c.r.b() ? p.a : p.b) : c.r.d(p.a, p.b);
  c.note(vh::fmt("range [%.17g,%.17g] step %.17g log=%d center %.17g", p.a, p.b, p.st, p.log, zc));
  CZGridParam gp(TFloat64Range(p.a, p.b), p.st, zc);
  V g = gp.getZGrid(p.log);
  c.nontrivial = g.size() > 3;
  bool inc = true;
  for (size_t i = 1; i < g.size(); ++i)
    inc &= g[i] > g[i - 1];
  c.check(inc, "strictly-increasing", "grid is not strictly increasing");
  c.check(!g.empty() && g.front() >= p.a && g.back() <= p.b, "inside-range", vh::fmt("grid [%.17g,%.17g] leaves the range", g.front(), g.back()));
  auto lg = [&](double z) { return p.log ? logl(1 + (LD)z) : (LD)z; };
  if (!centred) {
    c.check(std::fabs(g.front() - p.a) < 1e-14 * (1 + std::fabs(p.a)), "starts-at-lower-bound", vh::fmt("first sample %.17g", g.front()));
    c.check(lg(p.b) - lg(g.back()) < p.st * (1 + 1e-9) + 1e-9, "uncovered-top", vh::fmt("last sample %.17g leaves more than one step", g.back()));
    for (size_t i = 1; i < g.size(); ++i)
      if (fabsl(lg(g[i]) - lg(g[i - 1]) - p.st) > 1.1e-8) {
        c.fail("constant-step", vh::fmt("step %zu is %.17Lg", i, lg(g[i]) - lg(g[i - 1])));
        break;
      }
    c.count("monitor/constant-step");
    cmp(c, g, spread(p.a, p.b, p.st, p.log, 1, false, 1e-8), "grid-samples");
  } else {
    c.check(std::any_of(g.begin(), g.end(), [zc](double v) { return std::fabs(v - zc) < 1e-14 * (1 + zc); }), "center-on-grid", "centre is not a sample");
    c.check(lg(p.b) - lg(g.back()) < p.st * (1 + 1e-9) + 1e-9 && lg(g.front()) - lg(p.a) < p.st * (1 + 1e-9) + 1e-9, "uncovered-top", "more than one step uncovered");
    Exp l = spread(p.a, zc, p.st, p.log, 1, true, 1e-8), r = spread(zc, p.b, p.st, p.log, 1, false, 1e-8);
    Exp w;
    w.v = l.v;
    w.v.insert(w.v.end(), r.v.begin() + 1, r.v.end());
    w.marginal = l.marginal || r.marginal;
    if (w.marginal)
      c.check(std::abs(int(g.size()) - int(w.v.size())) <= 2, "centred-samples", "length");
    else
      cmp(c, g, w, "centred-samples");
  }
}

// second-pass windows as the line-model operator builds them
static V window(const V &grid, double z, double half, double fine, bool log, CZGridParam *par) {
  double hr = half, hl = half;
  if (log) {
    hr = (std::exp(half) - 1) * (1 + z);
    hl = (1 - std::exp(-half)) * (1 + z);
  }
  TFloat64Range w(z - hl, z + hr);
  w.IntersectWith(TFloat64Range(grid));
  CZGridParam p(w, fine, z);
  if (par)
    *par = p;
  return p.getZGrid(log);
}
static V refInsert(const V &grid, V sub) {
  double lo = sub.front() - 1e-8, hi = sub.back() + 1e-8;
  if (lo <= grid.front())
    sub.front() = grid.front();
  if (hi >= grid.back())
    sub.back() = grid.back();
  V out;
  for (double z : grid)
    if (z < lo)
      out.push_back(z);
  out.insert(out.end(), sub.begin(), sub.end());
  for (double z : grid)
    if (z > hi)
      out.push_back(z);
  return out;
}

VH_CASE(insertion, 2500, 50000) {
  P p = randomRange(c.r);
  V coarse = CZGridParam(TFloat64Range(p.a, p.b), p.st).getZGrid(p.log);
  if (coarse.size() < 3)
    c.skip();
  double fine = c.r.b(0.7) ? p.st / c.r.i(1, 10) : p.st * c.r.d(0.05, 1), half = p.st * c.r.d(0.3, 15);
  int nw = c.r.i(1, 6);
  V grid = coarse, ref = coarse;
  TZGridListParams params{CZGridParam(TFloat64Range(coarse), p.st)};
  bool equalFine = c.r.b(0.8);
  V cs;
  c.nontrivial = true;
  c.sigv(coarse);
  c.sig(fine);
  c.sig(half);
  std::string d;
  std::shared_ptr<CLineModelResult> lm;
  V tag;
  for (int k = 0; k < nw; ++k) {
    double f = equalFine ? fine : p.st / c.r.i(1, 10), h = equalFine ? half : p.st * c.r.d(0.3, 15);
    double z = c.r.b(0.15) ? (c.r.b() ? coarse.front() : coarse.back()) : c.r.b(0.8) ? coarse[c.r.i(0, coarse.size() - 1)] : c.r.d(coarse.front(), coarse.back());
    // windows are centred on a coarse sample, or at least as wide as the coarse step
    if (std::find(coarse.begin(), coarse.end(), z) == coarse.end())
      h = std::max(h, 1.1 * p.st);
    V sub = window(coarse, z, h, f, p.log, nullptr);
    d += vh::fmt(" (z=%.17g half=%g fine=%g n=%zu)", z, h, f, sub.size());
    c.note(vh::fmt("coarse [%.17g,%.17g] step %.17g log=%d windows", p.a, p.b, p.st, p.log) + d);
    {
      auto it = std::lower_bound(ref.begin(), ref.end(), sub.front() - 1e-8);
      if (it == ref.end() || *it > sub.back() + 1e-8)
        continue; // nothing to refine: a window always holds at least one sample of the grid
    }
    V before = ref;
    ref = refInsert(ref, sub);
    V sub2 = sub;
    // values attached to the samples follow the same insertion
    V tags(grid.size());
    for (size_t i = 0; i < tags.size(); ++i)
      tags[i] = i + 1;
    auto [imin, ndup] = CZGridListParams::insertSubgrid(sub2, grid);
    insertWithDuplicates<Float64>(tags, imin, sub2.size(), -1., ndup);
    if (!c.check(grid == ref, "insertion", vh::fmt("grid of %zu samples after inserting %zu into %zu, want %zu", grid.size(), sub.size(), before.size(), ref.size())))
      return;
    bool inc = true;
    for (size_t i = 1; i < grid.size(); ++i)
      inc &= grid[i] > grid[i - 1];
    c.check(inc, "sorted-without-duplicates", "merged grid is not strictly increasing");
    c.check(grid.front() == coarse.front() && grid.back() == coarse.back(), "range-kept", "borders of the grid changed");
    if (c.check(tags.size() == grid.size(), "values-follow", vh::fmt("attached values: %zu for %zu samples", tags.size(), grid.size()))) {
      bool ok = true;
      for (size_t i = 0; i < grid.size(); ++i)
        if (tags[i] > 0)
          ok &= before[size_t(tags[i]) - 1] == grid[i];
        else
          ok &= std::find(sub2.begin(), sub2.end(), grid[i]) != sub2.end();
      c.check(ok, "values-follow", "attached values moved to another redshift");
    }
    // description used for storage: borders of the window as sampled
    params.emplace_back(TFloat64Range(sub2), f, z);
  }
  if (params.size() < 2)
    c.skip();
  V restored = CZGridListParams(params).getZGrid(p.log);
  c.check(restored == grid, "restored-exactly", vh::fmt("restored grid has %zu samples, want %zu; first difference at %zd", restored.size(), grid.size(),
                                                         std::mismatch(restored.begin(), restored.begin() + std::min(restored.size(), grid.size()), grid.begin()).first - restored.begin()));
  V val(grid.size());
  for (auto &v : val)
    v = c.r.d(-100, 10);
  CLogZPdfResult res{CZGridListParams(params), p.log, val};
  c.check(res.redshifts == grid && res.valProbaLog == val, "pdf-restored", "posterior restored on other redshifts");
  c.check(!res.isRegular(), "regular-flag", "several grids reported as regular");
  auto back = res.getZGridParams();
  bool same = back.size() == int(params.size());
  for (int i = 0; same && i < back.size(); ++i)
    same = back[i].zmin == params[i].zmin && back[i].zmax == params[i].zmax && back[i].zstep == params[i].zstep &&
           (back[i].zcenter == params[i].zcenter || (std::isnan(back[i].zcenter) && std::isnan(params[i].zcenter)));
  c.check(same, "params-roundtrip", "grid descriptions changed");
  // wrong number of values
  V bad = val;
  bad.pop_back();
  c.check(vh::throwsAmz([&] { CLogZPdfResult x(CZGridListParams(params), p.log, bad); }), "size-refused", "posterior of another size accepted");
  // regularisation
  for (int f = 0; f < 2; ++f) {
    CLogZPdfResult q{CZGridListParams(params), p.log, val};
    bool stepsDiffer = false;
    for (size_t k = 2; k < params.size(); ++k)
      stepsDiffer |= params[k].zstep != params[1].zstep;
    if (f && stepsDiffer) {
      c.check(vh::throwsAmz([&] { q.convertToRegular(true); }), "fine-refused", "regular conversion with several fine steps accepted");
      continue;
    }
    q.convertToRegular(f);
    V tgt = CZGridParam(TFloat64Range(coarse), f ? params[1].zstep : p.st).getZGrid(p.log);
    if (!c.check(q.redshifts == tgt && q.valProbaLog.size() == tgt.size() && q.isRegular() && q.zstep[0] == (f ? params[1].zstep : p.st), "regular-grid",
                 vh::fmt("fine=%d: %zu samples want %zu", f, q.redshifts.size(), tgt.size())))
      continue;
    bool ok = true;
    size_t bi = 0;
    double bw = 0, bg = 0;
    for (size_t i = 0; i < tgt.size(); ++i) {
      size_t j = std::upper_bound(grid.begin(), grid.end(), tgt[i]) - grid.begin();
      j = std::min(std::max<size_t>(j, 1), grid.size() - 1);
      LD t = ((LD)tgt[i] - grid[j - 1]) / ((LD)grid[j] - grid[j - 1]);
      double w = val[j - 1] + t * ((LD)val[j] - val[j - 1]);
      // very short steps next to an inserted border amplify rounding
      double tol = 1e-9 + 1e-15 / (grid[j] - grid[j - 1]) * 200;
      if (!(std::fabs(w - q.valProbaLog[i]) <= tol) && ok) {
        ok = false;
        bi = i;
        bw = w;
        bg = q.valProbaLog[i];
      }
    }
    c.check(ok, "regular-values", vh::fmt("fine=%d sample %zu (z=%.17g) got=%.17g want=%.17g", f, bi, tgt[bi], bg, bw));
    // extension to the right keeps everything that was there
    V z0 = q.redshifts, v0 = q.valProbaLog;
    double zend = z0.back() + p.st * c.r.d(-3, 40);
    q.extrapolate_on_right_border(zend);
    bool pre = q.redshifts.size() >= z0.size() && q.valProbaLog.size() == q.redshifts.size() && std::equal(z0.begin(), z0.end() - 1, q.redshifts.begin()) &&
               std::fabs(z0.back() - q.redshifts[z0.size() - 1]) < 1.1e-8 && std::equal(v0.begin(), v0.end(), q.valProbaLog.begin());
    for (size_t i = v0.size(); pre && i < q.valProbaLog.size(); ++i)
      pre = q.valProbaLog[i] == v0.back() && q.redshifts[i] <= zend;
    double stp = f ? params[1].zstep : p.st;
    LD left = p.log ? logl((1 + (LD)zend) / (1 + (LD)q.redshifts.back())) : (LD)zend - q.redshifts.back();
    c.check(pre, "extrapolation", vh::fmt("extension to %.17g changed the stored part", zend));
    c.check(left < stp * (1 + 1e-9) + 1e-9, "extrapolation-reach", "extension stops more than one step before the end");
  }
}

// growing the result vectors of a second pass keeps old values at their redshift
VH_CASE(insert_duplicates, 1500, 20000) {
  int n = c.r.i(1, 40), pos = c.r.i(0, n), ndup = c.r.i(0, n - pos), cnt = c.r.i(0, 30);
  V d(n), s(cnt);
  for (int i = 0; i < n; ++i)
    d[i] = i;
  for (int i = 0; i < cnt; ++i)
    s[i] = 1000 + i;
  c.nontrivial = true;
  c.sig(n);
  c.sig(pos);
  c.sig(ndup);
  c.sig(cnt);
  c.note(vh::fmt("n=%d pos=%d ndup=%d count=%d", n, pos, ndup, cnt));
  V w(d.begin(), d.begin() + pos);
  w.insert(w.end(), s.begin(), s.end());
  w.insert(w.end(), d.begin() + pos + ndup, d.end());
  V a = d;
  insertWithDuplicates(a, pos, s, ndup);
  c.check(a == w, "replace-values", "got " + vh::vec(a, 60) + " want " + vh::vec(w, 60));
  V b = d;
  insertWithDuplicates<Float64>(b, pos, cnt, -7., ndup);
  for (int i = 0; i < cnt; ++i)
    w[pos + i] = -7;
  c.check(b == w, "replace-constant", "got " + vh::vec(b, 60) + " want " + vh::vec(w, 60));
  TBoolList e(n, true);
  insertWithDuplicates<bool>(e, pos, cnt, false, ndup);
  bool ok = e.size() == w.size();
  for (size_t i = 0; ok && i < e.size(); ++i)
    ok = bool(e[i]) == bool(w[i] != -7);
  c.check(ok, "replace-bool", "boolean list");
}
VH_MAIN
