// C03: redshift candidates against an independent reading of the posterior they come from.
#include "gen.h"
#include "RedshiftLibrary/operator/logZPdfResult.h"
#include "RedshiftLibrary/operator/pdfz.h"
#include "RedshiftLibrary/statistics/deltaz.h"
#include "RedshiftLibrary/statistics/pdfcandidatesz.h"
#include "RedshiftLibrary/statistics/pdfcandidateszresult.h"
#include "RedshiftLibrary/common/zgridparam.h"
using namespace NSEpic;
using gen::V;
typedef long double LD;

struct G2 {
  bool log;
  double step;
  TZGridListParams sub;
  V z, coarse;
};
static V mkGrid(const G2 &g, const V &first) {
  TZGridListParams q{CZGridParam(TFloat64Range(first), g.step)};
  q.insert(q.end(), g.sub.begin(), g.sub.end());
  return CZGridListParams(q).getZGrid(g.log);
}
// sum of gaussian peaks (relative heights), optional noise and plateaus; returns chi2 = -2 log p
static V peaksChi2(vh::Rng &r, const V &z, double step, V *centers = nullptr, V *sig = nullptr, V *wts = nullptr) {
  int np = r.b(0.2) ? 1 : r.i(1, 14);
  bool close = r.b(0.35);
  V c(np), s(np), w(np);
  double span = z.back() - z.front(), c0 = r.d(z.front(), z.back());
  for (int k = 0; k < np; ++k) {
    c[k] = r.b(0.1) ? (r.b() ? z.front() : z.back()) : close ? c0 + r.d(-1, 1) * step * 25 : r.d(z.front(), z.back());
    s[k] = step * r.logd(0.4, 12);
    w[k] = r.b(0.1) ? 1 : r.logd(1e-6, 1);
  }
  int kind = r.i(0, 3);
  double scale = kind == 1 ? r.logd(1, 1e4) : 1, floor = r.logd(1e-300, 1e-3);
  V out(z.size());
  double rough = r.b(0.3) ? r.logd(1e-3, 3) : 0;
  for (size_t i = 0; i < z.size(); ++i) {
    if (kind == 1) { // chi2-like valleys with heights in log
      double b = 0;
      for (int k = 0; k < np; ++k)
        b = std::max(b, w[k] * std::exp(-0.5 * std::pow((z[i] - c[k]) / (8 * s[k]), 2)));
      out[i] = -scale * b;
    } else {
      double p = floor;
      for (int k = 0; k < np; ++k)
        p += w[k] / s[k] * std::exp(-0.5 * std::pow((z[i] - c[k]) / s[k], 2));
      out[i] = -2 * std::log(p);
    }
    out[i] += rough * r.d();
    if (kind == 3)
      out[i] = std::round(out[i] * 2) / 2; // plateaus
  }
  (void)span;
  if (centers)
    *centers = c, *sig = s, *wts = w;
  return out;
}
// peak width: least-squares parabola through the peak over 5 then 2 samples on each side
static double refDeltaz(const V &z, const V &p, int iz, double &err) {
  err = 0;
  for (int h : {5, 2}) {
    int a = std::max(iz - h, 0), b = std::min(iz + h, int(z.size()) - 1);
    LD s = 0, s2 = 0, sa = 0;
    for (int i = a; i <= b; ++i) {
      LD x2 = ((LD)z[i] - z[iz]) * ((LD)z[i] - z[iz]);
      s += x2 * ((LD)p[iz] - p[i]);
      sa += x2 * fabsl((LD)p[iz] - p[i]);
      s2 += x2 * x2;
    }
    if (fabsl(s) < 1e-12 * sa) {
      err = INFINITY; // sign undecidable in double precision
      return NAN;
    }
    err = 1e-14 * sa / fabsl(s) + 1e-9;
    if (s / s2 > 0)
      return sqrtl(s2 / s);
  }
  return 1e-3;
}
static double refSum(const V &z, const V &p, int a, int b) {
  LD m = -INFINITY, s = 0;
  for (int i = a; i <= b; ++i)
    m = std::max<LD>(m, p[i]);
  for (int i = a + 1; i <= b; ++i)
    s += (expl(p[i] - m) + expl(p[i - 1] - m)) / 2 * ((LD)z[i] - z[i - 1]);
  return expl(m) * s;
}
static int idx(const V &z, double v) {
  auto it = std::lower_bound(z.begin(), z.end(), v);
  return it != z.end() && *it == v ? int(it - z.begin()) : -1;
}
struct Win {
  double a, b, z, val, dz;
  bool dup = false;
};
// windows: z +- 3 deltaz clipped to the grid; overlaps of neighbours below 30% are split at their middle, above the lower peak is a duplicate,
// and its neighbours are compared with each other
static void refWindows(std::vector<Win *> w) {
  std::sort(w.begin(), w.end(), [](Win *p, Win *q) { return p->z > q->z; });
  for (size_t k = 0; k + 1 < w.size();) {
    Win &h = *w[k], &l = *w[k + 1];
    double o = l.b - h.a;
    if (o <= 0) {
      ++k;
    } else if (o / (h.b - h.a) < 0.3 && o / (l.b - l.a) < 0.3) {
      double m = l.b - 0.5 * o;
      l.b = m;
      h.a = m;
      ++k;
    } else if (l.val > h.val) {
      h.dup = true;
      w.erase(w.begin() + k);
      if (k)
        --k;
    } else {
      l.dup = true;
      w.erase(w.begin() + k + 1);
    }
  }
}

template <class R> static void judge(vh::Case &c, const V &z, const V &pdf, const R &ranked, bool full, bool gauss) {
  // ranked: vector of (id, candidate)
  std::set<std::string> ids;
  double prev = INFINITY;
  std::vector<Win> win(ranked.size());
  bool distinctZ = true, marginal = false;
  std::set<double> zs;
  double tot = 0;
  for (size_t k = 0; k < ranked.size(); ++k) {
    auto const &cd = *ranked[k].second;
    c.check(ids.insert(ranked[k].first).second, "unique-id", "identifier " + ranked[k].first + " repeated");
    distinctZ &= zs.insert(cd.Redshift).second;
    int i = idx(z, cd.Redshift);
    if (!c.check(i >= 0, "on-grid", vh::fmt("candidate z=%.17g is not on the grid", cd.Redshift)))
      return;
    if (!gauss || std::isfinite(cd.ValSumProba)) {
      c.check(cd.ValSumProba <= prev, "ranking", vh::fmt("rank %zu: %g after %g", k, cd.ValSumProba, prev));
      prev = cd.ValSumProba;
    }
    double derr, dz = refDeltaz(z, pdf, i, derr);
    if (std::isfinite(derr))
      c.close(cd.Deltaz, dz, derr, 0, "deltaz", vh::fmt("width of the peak at z=%.12g", cd.Redshift));
    dz = cd.Deltaz;
    win[k] = {std::max(z.front(), cd.Redshift - 3 * dz), std::min(z.back(), cd.Redshift + 3 * dz), cd.Redshift, pdf[i], dz};
  }
  if (full && distinctZ) {
    std::vector<Win *> w;
    for (auto &x : win)
      w.push_back(&x);
    // decisions within rounding of a threshold are not judged
    refWindows(w);
    auto edge = [&](double v) { // close to a grid sample: enclosing sample may differ
      auto it = std::lower_bound(z.begin(), z.end(), v - 1e-12);
      return it != z.end() && *it <= v + 1e-12 && *it != v;
    };
    for (size_t k = 0; k < ranked.size(); ++k) {
      auto const &cd = *ranked[k].second;
      if (win[k].dup) {
        c.check(cd.ValSumProba == 0, "duplicate-zero", vh::fmt("z=%g duplicates a neighbour but keeps probability %g", cd.Redshift, cd.ValSumProba));
        continue;
      }
      if (gauss)
        continue;
      int a = int(std::upper_bound(z.begin(), z.end(), win[k].a) - z.begin()) - 1;
      int b = std::lower_bound(z.begin(), z.end(), win[k].b) - z.begin();
      if (edge(win[k].a) || edge(win[k].b)) {
        marginal = true;
        continue;
      }
      c.check(cd.ValSumProbaZmin == z[a] && cd.ValSumProbaZmax == z[b], "integration-window",
              vh::fmt("z=%.12g window [%.12g,%.12g] want [%.12g,%.12g]", cd.Redshift, cd.ValSumProbaZmin, cd.ValSumProbaZmax, z[a], z[b]));
    }
  }
  if (gauss)
    return;
  std::vector<size_t> order(ranked.size());
  std::iota(order.begin(), order.end(), 0);
  std::sort(order.begin(), order.end(), [&](size_t p, size_t q) { return ranked[p].second->Redshift < ranked[q].second->Redshift; });
  for (size_t k = 0; k < ranked.size(); ++k) {
    auto const &cd = *ranked[k].second;
    if (cd.ValSumProba == 0 && std::isnan(cd.ValSumProbaZmin))
      continue;
    int a = idx(z, cd.ValSumProbaZmin), b = idx(z, cd.ValSumProbaZmax);
    if (!c.check(a >= 0 && b >= 0 && a < b, "window-on-grid", "window borders are not grid samples"))
      continue;
    c.check(cd.ValSumProbaZmin <= cd.Redshift && cd.Redshift <= cd.ValSumProbaZmax, "window-contains", "candidate outside its own window");
    c.close(cd.ValSumProba, refSum(z, pdf, a, b), 1e-9, 1e-300, "integrated-probability", vh::fmt("probability of z=%.12g", cd.Redshift));
    tot += cd.ValSumProba;
  }
  if (full && distinctZ) {
    order.erase(std::remove_if(order.begin(), order.end(), [&](size_t k) { return std::isnan(ranked[k].second->ValSumProbaZmin) || ranked[k].second->ValSumProba == 0; }), order.end());
    for (size_t k = 0; k + 1 < order.size(); ++k) {
      auto const &l = *ranked[order[k]].second, &h = *ranked[order[k + 1]].second;
      int a = idx(z, h.ValSumProbaZmin), b = idx(z, l.ValSumProbaZmax);
      c.check(b - a <= 1, "neighbour-windows-disjoint", vh::fmt("windows of z=%g and z=%g overlap by %d samples", l.Redshift, h.Redshift, b - a));
    }
  }
}

VH_CASE(first_pass, 2500, 60000) {
  G2 g;
  g.log = c.r.b();
  g.step = c.r.logd(1e-4, 5e-3);
  int n = c.r.b(0.1) ? c.r.i(3, 12) : c.r.i(12, 300);
  double a = c.r.b(0.3) ? 0 : c.r.d(0, 3);
  double b = g.log ? (1 + a) * std::exp(g.step * (n - 0.5)) - 1 : a + g.step * (n - 0.5);
  g.z = CZGridListParams(TZGridListParams{CZGridParam(TFloat64Range(a, b), g.step)}).getZGrid(g.log);
  ChisquareArray arr;
  arr.redshifts = g.z;
  arr.zstep = g.step;
  arr.chisquares = {peaksChi2(c.r, g.z, g.step)};
  arr.zpriors = {V(g.z.size(), 0.)};
  int maxc = c.r.i(1, 12), perWin = c.r.b(0.6) ? 0 : c.r.i(1, 15);
  double sep = c.r.b(0.5) ? 0 : c.r.logd(g.step, g.step * 50), cut = c.r.b(0.7) ? 0 : c.r.logd(0.1, 100);
  bool border = c.r.b(0.7);
  c.sigv(arr.chisquares[0]);
  c.note(vh::fmt("log=%d step=%g n=%d maxc=%d perwin=%d sep=%g cut=%g border=%d ", g.log, g.step, n, maxc, perWin, sep, cut, border) + "z0=" +
         vh::fmt("%.17g", g.z[0]) + " chi2=" + vh::vec(arr.chisquares[0], 30));
  COperatorPdfz op("marg", sep, cut, maxc, g.log, "EXT", border, perWin);
  std::shared_ptr<PdfCandidatesZResult> res;
  try {
    res = op.Compute(arr);
  } catch (const AmzException &e) {
    auto k = e.getErrorCode();
    c.check(k == ErrorCode::PDF_PEAK_NOT_FOUND || k == ErrorCode::FLAT_ZPDF, "candidate-error", std::string("candidate search failed: ") + e.what());
    c.count("first_pass/refused");
    return;
  }
  auto const &pdf = op.m_postmargZResult->valProbaLog;
  auto const &rk = res->m_ranked_candidates;
  int N = g.z.size();
  c.nontrivial = rk.size() > 1;
  c.check(int(rk.size()) <= maxc && rk.size() > 0, "requested-count", vh::fmt("%zu candidates for %d", rk.size(), maxc));
  int per = perWin <= 0 ? maxc : perWin;
  for (size_t k = 0; k < rk.size(); ++k) {
    auto const &cd = *rk[k].second;
    int i = idx(g.z, cd.Redshift);
    if (i < 0)
      continue;
    c.check(cd.ValProba == pdf[i], "peak-value", "ValProba is not the posterior at the candidate");
    int l = i, r = i;
    while (l > 0 && pdf[l - 1] == pdf[i])
      --l;
    while (r < N - 1 && pdf[r + 1] == pdf[i])
      ++r;
    bool pk = (l == 0 ? border : pdf[l - 1] < pdf[i]) && (r == N - 1 ? border : pdf[r + 1] < pdf[i]);
    c.check(pk, "local-maximum", vh::fmt("candidate z=%.12g is not a local maximum", cd.Redshift));
    c.check(cd.Rank == int(k), "rank", "rank attribute");
    c.check(rk[k].first.rfind("EXT", 0) == 0 && cd.ParentId == "", "id-format", "identifier " + rk[k].first);
  }
  bool truncated = per > maxc;
  if (!truncated) {
    double best = -INFINITY;
    for (int i = 0; i < N; ++i) {
      int l = i, r = i;
      while (l > 0 && pdf[l - 1] == pdf[i])
        --l;
      while (r < N - 1 && pdf[r + 1] == pdf[i])
        ++r;
      if ((l == 0 ? border : pdf[l - 1] < pdf[i]) && (r == N - 1 ? border : pdf[r + 1] < pdf[i]))
        best = std::max(best, pdf[i]);
      i = r;
    }
    bool has = false;
    for (auto &p : rk)
      has |= p.second->ValProba == best;
    c.check(has, "highest-peak-included", "the highest posterior peak is not a candidate");
  }
  judge(c, g.z, pdf, rk, !truncated, false);
  if (truncated) {
    // the truncated list is the head of the complete ranking
    COperatorPdfz op2("marg", sep, cut, 1000, g.log, "EXT", border, per);
    auto all = op2.Compute(arr);
    judge(c, g.z, pdf, all->m_ranked_candidates, true, false);
    for (size_t k = 0; k < rk.size(); ++k)
      c.check(all->m_ranked_candidates[k].second->ValSumProba == rk[k].second->ValSumProba, "truncation-keeps-best", vh::fmt("rank %zu", k));
    c.check(int(rk.size()) == std::min<int>(maxc, all->m_ranked_candidates.size()), "truncation-count", "number of kept candidates");
  }
}

VH_CASE(second_pass, 1500, 40000) {
  G2 g;
  g.log = c.r.b();
  g.step = c.r.logd(3e-4, 5e-3);
  int n = c.r.i(40, 200);
  double a = c.r.b(0.3) ? 0 : c.r.d(0, 3);
  double b = g.log ? (1 + a) * std::exp(g.step * (n - 0.5)) - 1 : a + g.step * (n - 0.5);
  g.coarse = CZGridListParams(TZGridListParams{CZGridParam(TFloat64Range(a, b), g.step)}).getZGrid(g.log);
  int nw = c.r.i(1, 6);
  double fine = g.step / c.r.i(2, 9), half = g.step * c.r.d(1.5, 8);
  std::vector<double> cs;
  for (int k = 0; k < nw; ++k) {
    double zc = g.coarse[c.r.i(1, n - 2)];
    if (std::find(cs.begin(), cs.end(), zc) != cs.end())
      continue;
    cs.push_back(zc);
  }
  // second-pass windows are centred on the first-pass candidates and restricted to the grid
  ChisquareArray arr;
  for (double zc : cs) {
    TFloat64Range w(zc - half * (1 + zc), zc + half * (1 + zc));
    w.IntersectWith(TFloat64Range(g.coarse));
    if (zc - w.GetBegin() < 2 * fine || w.GetEnd() - zc < 2 * fine)
      continue;
    g.sub.emplace_back(w, fine, zc);
  }
  if (g.sub.empty())
    c.skip();
  g.z = mkGrid(g, g.coarse);
  arr.redshifts = g.z;
  arr.zstep = g.step;
  arr.chisquares = {peaksChi2(c.r, g.z, g.step)};
  arr.zpriors = {V(g.z.size(), 0.)};
  for (size_t k = 0; k < g.sub.size(); ++k) {
    auto p = std::make_shared<TCandidateZ>();
    p->Redshift = g.sub[k].zcenter;
    arr.parentCandidates.emplace_back("FPE" + std::to_string(k), p);
    arr.zgridParams.push_back(g.sub[k]);
  }
  int per = c.r.i(1, 5), maxc = c.r.b() ? 1000 : c.r.i(1, 6);
  bool border = c.r.b(0.7);
  c.sigv(arr.chisquares[0]);
  c.note(vh::fmt("log=%d step=%g fine=%g half=%g n=%zu nwin=%zu per=%d maxc=%d border=%d", g.log, g.step, fine, half, g.z.size(), g.sub.size(), per, maxc, border) + " centers=" +
         vh::vec(cs) + " chi2=" + vh::vec(arr.chisquares[0], 12));
  COperatorPdfz op("marg", 0, 0, maxc, g.log, "SPE", border, per);
  std::shared_ptr<PdfCandidatesZResult> res;
  try {
    res = op.Compute(arr);
  } catch (const AmzException &e) {
    auto k = e.getErrorCode();
    c.check(k == ErrorCode::PDF_PEAK_NOT_FOUND || k == ErrorCode::FLAT_ZPDF, "candidate-error", std::string("candidate search failed: ") + e.what());
    return;
  }
  auto const &pdf = op.m_postmargZResult->valProbaLog;
  auto const &rk = res->m_ranked_candidates;
  int N = g.z.size();
  c.nontrivial = rk.size() > 1;
  c.check(int(rk.size()) <= maxc && rk.size() > 0, "requested-count", vh::fmt("%zu candidates for %d", rk.size(), maxc));
  std::map<std::string, int> perParent;
  std::map<std::string, double> bestOf;
  for (size_t k = 0; k < rk.size(); ++k) {
    auto const &cd = *rk[k].second;
    int i = idx(g.z, cd.Redshift);
    if (i < 0)
      continue;
    perParent[cd.ParentId]++;
    auto itb = bestOf.emplace(cd.ParentId, -INFINITY).first;
    itb->second = std::max(itb->second, cd.ValProba);
    c.check(cd.ValProba == pdf[i], "peak-value", "ValProba is not the posterior at the candidate");
    c.check(cd.Rank == int(k), "rank", "rank attribute");
    int w = -1;
    for (size_t q = 0; q < arr.parentCandidates.size(); ++q)
      if (arr.parentCandidates[q].first == cd.ParentId)
        w = q;
    if (!c.check(w >= 0 && cd.ParentObject == arr.parentCandidates[w].second, "parent", "parent of " + rk[k].first))
      continue;
    c.check(rk[k].first.rfind(cd.ParentId + "_SPE", 0) == 0, "id-format", "identifier " + rk[k].first);
    auto const &p = arr.zgridParams[w];
    c.check(cd.Redshift >= p.zmin && cd.Redshift <= p.zmax, "inside-parent-window", "candidate outside its second-pass window");
    int lo = std::lower_bound(g.z.begin(), g.z.end(), p.zmin) - g.z.begin(), hi = int(std::upper_bound(g.z.begin(), g.z.end(), p.zmax) - g.z.begin()) - 1;
    int l = i, r = i;
    while (l > lo && pdf[l - 1] == pdf[i])
      --l;
    while (r < hi && pdf[r + 1] == pdf[i])
      ++r;
    bool pk = (l == lo ? border : pdf[l - 1] < pdf[i]) && (r == hi ? border : pdf[r + 1] < pdf[i]);
    c.check(pk, "local-maximum", vh::fmt("candidate z=%.12g is not a local maximum of its window", cd.Redshift));
  }
  for (auto &kv : perParent)
    c.check(kv.second <= per, "per-window-count", "too many candidates for " + kv.first);
  if (maxc >= 1000)
    for (size_t q = 0; q < arr.parentCandidates.size(); ++q) {
      auto const &p = arr.zgridParams[q];
      int lo = std::lower_bound(g.z.begin(), g.z.end(), p.zmin) - g.z.begin(), hi = int(std::upper_bound(g.z.begin(), g.z.end(), p.zmax) - g.z.begin()) - 1;
      double best = -INFINITY;
      for (int i = lo; i <= hi; ++i) {
        int r = i;
        while (r < hi && pdf[r + 1] == pdf[i])
          ++r;
        if ((i == lo ? border : pdf[i - 1] < pdf[i]) && (r == hi ? border : pdf[r + 1] < pdf[i]))
          best = std::max(best, pdf[i]);
        i = r;
      }
      auto const &id = arr.parentCandidates[q].first;
      c.check(std::isinf(best) ? !perParent.count(id) : perParent.count(id) && bestOf[id] == best, "highest-peak-of-window", "best peak of window " + id + vh::fmt(" best=%.17g got=%.17g idx %d-%d", best, perParent.count(id) ? bestOf[id] : NAN, lo, hi) + vh::vec(V(pdf.begin() + lo, pdf.begin() + hi + 1), 100));
    }
  judge(c, g.z, pdf, rk, maxc >= 1000, false);
  if (maxc < 1000) {
    COperatorPdfz op2("marg", 0, 0, 1000, g.log, "SPE", border, per);
    auto all = op2.Compute(arr);
    for (size_t k = 0; k < rk.size(); ++k)
      c.check(all->m_ranked_candidates[k].second->ValSumProba == rk[k].second->ValSumProba, "truncation-keeps-best", vh::fmt("rank %zu", k));
    c.check(int(rk.size()) == std::min<int>(maxc, all->m_ranked_candidates.size()), "truncation-count", "number of kept candidates");
  }
}

// isolated gaussian peaks: known integrals and widths, both integration methods
VH_CASE(gaussian_truth, 800, 20000) {
  int np = c.r.i(1, 5);
  double step = c.r.logd(1e-4, 2e-3), z0 = c.r.d(0, 3);
  V cen, sg, w;
  double zc = z0, sw = 0;
  bool sampled = c.r.b(0.7);
  for (int k = 0; k < np; ++k) {
    double s = step * c.r.d(4, 20);
    zc += 14 * s + (k ? 14 * sg.back() : 0);
    zc = z0 + std::round((zc - z0) / step) * step;
    cen.push_back(zc);
    sg.push_back(s);
    w.push_back(c.r.logd(0.01, 1));
    sw += w.back();
  }
  int n = std::lround((zc + 14 * sg.back() - z0) / step) + 1;
  V z(n), lp(n);
  for (int i = 0; i < n; ++i) {
    z[i] = z0 + i * step;
    double p = 0;
    for (int k = 0; k < np; ++k)
      p += w[k] / sw / (sg[k] * std::sqrt(2 * M_PI)) * std::exp(-0.5 * std::pow((z[i] - cen[k]) / sg[k], 2));
    lp[i] = std::log(std::max(p, 1e-300));
  }
  (void)sampled;
  c.sigv(cen);
  c.sigv(sg);
  c.nontrivial = np > 1;
  c.note(vh::fmt("step=%g z0=%g ", step, z0) + "centers=" + vh::vec(cen) + " sigmas=" + vh::vec(sg) + " weights=" + vh::vec(w));
  V at;
  for (double x : cen)
    at.push_back(*std::min_element(z.begin(), z.end(), [x](double p, double q) { return std::fabs(p - x) < std::fabs(q - x); }));
  for (int m = 0; m < 2; ++m) {
    CPdfCandidatesZ op(at);
    op.m_optMethod = m;
    auto res = op.Compute(z, lp);
    if (!c.check(int(res->m_ranked_candidates.size()) == np, "all-candidates", "number of candidates"))
      return;
    for (auto &p : op.m_candidates)
      p.second->ValProba = lp[idx(z, p.second->Redshift)];
    judge(c, z, lp, res->m_ranked_candidates, true, m == 1);
    for (auto &p : res->m_ranked_candidates) {
      auto &cd = *p.second;
      int k = std::min_element(cen.begin(), cen.end(), [&](double x, double y) { return std::fabs(x - cd.Redshift) < std::fabs(y - cd.Redshift); }) - cen.begin();
      // the peak curvature of the log-posterior: one unit of decrease at sqrt(2) sigma
      c.close(cd.Deltaz, std::sqrt(2.) * sg[k], 1e-3, 0, "gaussian-width", "peak width");
      if (m == 0)
        c.close(cd.ValSumProba, w[k] / sw, 3e-4, 0, "gaussian-integral", vh::fmt("probability of the peak %d", k));
      else {
        c.close(cd.ValSumProba, cd.GaussAmp * cd.GaussSigma * std::sqrt(2 * M_PI), 1e-12, 0, "gaussian-area", "probability is not the area of the fitted gaussian");
        c.close(cd.GaussSigma, sg[k], 1e-4, 0, "gaussian-fit-sigma", "fitted sigma");
        c.close(cd.GaussAmp, w[k] / sw / (sg[k] * std::sqrt(2 * M_PI)), 1e-4, 0, "gaussian-fit-amplitude", "fitted amplitude");
        c.close(cd.ValSumProba, w[k] / sw, 2e-4, 0, "gaussian-fit-probability", "fitted probability");
      }
    }
  }
}
VH_MAIN
