// C24: extremum search against the definition of local maxima.
#include "gen.h"
#include "RedshiftLibrary/extremum/extremum.h"
using namespace NSEpic;
using gen::V;

struct Peak {
  int a, b; // run of equal values
  double y;
};

static V makeCurve(vh::Rng &r, int n, int &kind) {
  V y(n);
  kind = r.i(0, 8);
  double x = 0;
  for (int i = 0; i < n; ++i)
    switch (kind) {
    case 0: // few levels: many plateaus
      y[i] = r.i(0, 2);
      break;
    case 1:
      y[i] = r.i(0, 5);
      break;
    case 2: // random walk with flat steps
      x += r.i(-1, 1);
      y[i] = x;
      break;
    case 3:
      y[i] = r.d(-1, 1);
      break;
    case 4: // long plateaus
      if (i == 0 || r.b(0.25))
        x = r.i(-3, 3);
      y[i] = x;
      break;
    case 5: // monotonic with flats
      x += r.i(0, 1);
      y[i] = x;
      break;
    case 6:
      x -= r.i(0, 1);
      y[i] = x;
      break;
    case 7:
      y[i] = std::sin(i * 0.7) * r.logd(0.5, 2);
      break;
    default:
      y[i] = 1e5 * std::exp(-0.5 * std::pow((i - n / 3.) / (1 + n / 12.), 2)) + 100 * std::sin(i * 1.3);
    }
  return y;
}
static void posterity(vh::Case &c, const V &x, const V &y, bool useRange);

static void one(vh::Case &c, int n) {
  int kind;
  V y = makeCurve(c.r, n, kind);
  V x(n);
  double z = c.r.b() ? 0 : c.r.d(0, 4), st = c.r.logd(1e-4, 0.1);
  bool irregular = c.r.b(0.3);
  for (int i = 0; i < n; ++i) {
    x[i] = z;
    z += irregular ? st * c.r.logd(0.05, 4) : st;
  }
  // leading / trailing undefined samples
  if (c.r.b(0.15))
    for (int k = c.r.i(0, 2), i = 0; i < k && i < n; ++i)
      y[i] = NAN;
  if (c.r.b(0.15))
    for (int k = c.r.i(0, 2), i = 0; i < k && i < n; ++i)
      y[n - 1 - i] = NAN;
  int maxCount = c.r.b(0.3) ? c.r.i(1, 2) : c.r.i(1, 12);
  double sep = c.r.b(0.45) ? 0 : c.r.logd(1e-4, 0.3);
  double lo = INFINITY, hi = -INFINITY;
  for (double v : y)
    if (!std::isnan(v))
      lo = std::min(lo, v), hi = std::max(hi, v);
  double cut = c.r.b(0.5) ? (c.r.b() ? 0 : -1) : std::max(1e-9, (hi - lo) * c.r.d(0, 1.1));
  if (cut > 0 && c.r.b(0.3))
    cut = std::max(1., std::floor(cut));
  bool inv = c.r.b(0.25), border = c.r.b(0.65), first = c.r.b();
  TFloat64Range range;
  int ib = 0, ie = n - 1;
  if (n > 2 && c.r.b(0.35)) {
    double a = gen::query(c.r, x), b = gen::query(c.r, x);
    if (a > b)
      std::swap(a, b);
    if (a == b)
      b = a + st;
    range.Set(a, b);
    ib = std::lower_bound(x.begin(), x.end(), a) - x.begin();
    ie = int(std::upper_bound(x.begin(), x.end(), b) - x.begin()) - 1;
    if (range.GetIsEmpty())
      ib = 0, ie = n - 1;
  }
  c.sigv(x);
  c.sigv(y);
  c.sig(maxCount);
  c.note(vh::fmt("kind=%d n=%d max=%d sep=%g cut=%g inv=%d border=%d first=%d idx=[%d,%d] ", kind, n, maxCount, sep, cut, inv, border, first, ib, ie) +
         "x=" + vh::vec(x, 40) + " y=" + vh::vec(y, 40));
  CExtremum op(maxCount, sep, cut, inv, border, range);
  TPointList got;
  std::string err;
  ErrorCode code = ErrorCode::INTERNAL_ERROR;
  try {
    got = op.Find(x, y, first);
  } catch (const AmzException &e) {
    err = e.what();
    code = e.getErrorCode();
    if (err.empty())
      err = "?";
  }
  // ---- reference
  double s = inv ? -1 : 1;
  while (ib < ie && std::isnan(y[ib]))
    ++ib;
  while (ie > ib && std::isnan(y[ie]))
    --ie;
  if (ie - ib < 2) {
    c.check(!err.empty(), "too-short-refused", "a search over less than three samples gave a result");
    return;
  }
  std::vector<Peak> all;
  for (int i = ib; i <= ie;) {
    int j = i;
    while (j < ie && y[j + 1] == y[i])
      ++j;
    bool left = i == ib ? border : s * y[i - 1] < s * y[i];
    bool right = j == ie ? border : s * y[j + 1] < s * y[j];
    if (left && right)
      all.push_back({i, j, s * y[i]});
    i = j + 1;
  }
  c.nontrivial = all.size() > 1;
  if (all.empty()) {
    if (first)
      c.check(!err.empty() && code == ErrorCode::PDF_PEAK_NOT_FOUND, "no-peak-error", "no peak: expected the peak-not-found error, got " + (err.empty() ? vh::fmt("%zu points", got.size()) : err));
    else
      c.check(err.empty() && got.empty(), "no-peak-empty", "no peak in a second-pass window: expected an empty list " + err);
    return;
  }
  if (!c.check(err.empty(), "search-error", "search failed: " + err))
    return;
  double best = -INFINITY;
  for (auto &p : all)
    best = std::max(best, p.y);
  std::vector<Peak> elig;
  for (auto &p : all)
    if (cut <= 0 || best - p.y <= cut)
      elig.push_back(p);
  // 1 every result is a distinct true peak with its own value
  std::vector<int> hit(all.size(), 0);
  std::vector<double> gx;
  for (auto &g : got) {
    bool ok = false;
    for (size_t k = 0; k < all.size(); ++k)
      for (int i = all[k].a; i <= all[k].b; ++i)
        if (g.X == x[i]) {
          ok = s * g.Y == all[k].y;
          hit[k]++;
        }
    c.check(ok, "true-local-maximum", vh::fmt("reported (%.17g, %.17g) is not a local extremum of the curve", g.X, g.Y));
    gx.push_back(g.X);
  }
  for (size_t k = 0; k < all.size(); ++k)
    c.check(hit[k] <= 1, "plateau-once", vh::fmt("extremum at index %d reported %d times", all[k].a, hit[k]));
  // 2 order, count, best
  bool sorted = true;
  for (size_t k = 1; k < got.size(); ++k)
    sorted &= s * got[k - 1].Y >= s * got[k].Y;
  c.check(sorted, "ranked", "extrema not ranked");
  c.check(int(got.size()) <= maxCount, "max-count", vh::fmt("%zu extrema for at most %d", got.size(), maxCount));
  c.check(!got.empty() && s * got[0].Y == best, "highest-first", "the highest extremum is not the first one");
  // 3 threshold
  for (auto &g : got)
    c.check(cut <= 0 || best - s * g.Y <= cut * (1 + 1e-12), "merit-cut", vh::fmt("extremum %g further than the cut from the best", g.Y));
  // 4 separation
  auto conflict = [&](double xi, double xj) { // xj inside the exclusion window of xi
    double h = xi + (xi + 1) * sep / (1 - sep / 2), l = xi - (xi + 1) * sep / (1 + sep / 2);
    return xj >= l && xj <= h;
  };
  if (sep > 0)
    for (size_t i = 0; i < gx.size(); ++i)
      for (size_t j = 0; j < gx.size(); ++j)
        if (i != j) {
          double lo2 = std::min(gx[i], gx[j]), hi2 = std::max(gx[i], gx[j]);
          c.check(hi2 - lo2 >= sep / 2 * (2 + lo2 + hi2) - 1e-9, "separation", vh::fmt("extrema %g and %g closer than the separation", lo2, hi2));
        }
  // 5 nothing eligible is missing without reason
  for (size_t k = 0; k < all.size(); ++k) {
    if (hit[k] || (cut > 0 && best - all[k].y > cut * (1 - 1e-12)))
      continue;
    bool excused = int(got.size()) == maxCount && all[k].y <= s * got.back().Y;
    if (!excused && sep > 0)
      for (auto &g : got)
        if (s * g.Y >= all[k].y) {
          for (int i = all[k].a; i <= all[k].b && !excused; ++i) {
            double e = 1e-9;
            excused = conflict(g.X, x[i]) || conflict(g.X, x[i] + e) || conflict(g.X, x[i] - e);
          }
        }
    c.check(excused, "complete", vh::fmt("extremum at index %d (value %g) is missing", all[k].a, s * all[k].y));
  }
  // 6 exact greedy selection when there are no ties
  std::set<double> ys;
  for (auto &p : elig)
    ys.insert(p.y);
  bool unique = ys.size() == elig.size();
  for (auto &p : elig)
    unique &= p.a == p.b;
  if (unique) {
    auto e2 = elig;
    std::sort(e2.begin(), e2.end(), [](const Peak &p, const Peak &q) { return p.y > q.y; });
    std::vector<double> want;
    bool marginal = false;
    std::vector<double> kept;
    for (auto &p : e2) {
      if (int(want.size()) == maxCount)
        break;
      bool ex = false;
      for (double w : want)
        if (sep > 0) {
          ex |= conflict(w, x[p.a]);
          if (conflict(w, x[p.a] + 1e-10) != conflict(w, x[p.a] - 1e-10))
            marginal = true;
        }
      if (!ex)
        want.push_back(x[p.a]);
    }
    if (!marginal) {
      c.check(gx == want, "greedy-selection", "selected " + vh::vec(gx) + " want " + vh::vec(want));
    }
  }
}
VH_CASE(random_curves, 12000, 300000) { one(c, c.r.b(0.5) ? c.r.i(3, 12) : c.r.i(3, 90)); }
VH_CASE(tiny, 400, 4000) { one(c, c.r.i(1, 4)); }
// every curve over three levels up to seven samples, both border rules
VH_CASE(enumerated, 3267, 9828) {
  // index -> length and base-3 digits
  int k = c.index, n = 3, tot = 27;
  while (k >= tot) {
    k -= tot;
    ++n;
    tot *= 3;
  }
  V x(n), y(n);
  for (int i = 0; i < n; ++i) {
    x[i] = i * 0.01;
    y[i] = k % 3;
    k /= 3;
  }
  c.nontrivial = true;
  c.sigv(y);
  c.note("y=" + vh::vec(y));
  for (int border = 0; border < 2; ++border) {
    std::set<std::pair<int, int>> runs;
    std::vector<Peak> all;
    for (int i = 0; i < n;) {
      int j = i;
      while (j < n - 1 && y[j + 1] == y[i])
        ++j;
      if ((i == 0 ? border : y[i - 1] < y[i]) && (j == n - 1 ? border : y[j + 1] < y[j]))
        all.push_back({i, j, y[i]});
      i = j + 1;
    }
    CExtremum op(100, 0., 0., false, border);
    TPointList got = op.Find(x, y, false);
    bool ok = got.size() == all.size();
    for (auto &p : all) {
      int h = 0;
      for (auto &g : got)
        for (int i = p.a; i <= p.b; ++i)
          h += g.X == x[i] && g.Y == p.y;
      ok &= h == 1;
    }
    std::string d;
    for (auto &g : got)
      d += vh::fmt("(%g,%g)", g.X, g.Y);
    c.check(ok, "exact-peak-set", vh::fmt("border=%d found ", border) + d + vh::fmt(" want %zu", all.size()));
  }
}
VH_CASE(bad_input, 100, 1000) {
  int n = c.r.i(0, 5);
  c.nontrivial = true;
  c.sig(c.index);
  CExtremum op;
  c.check(vh::throwsAmz([&] { op.Find(V(n, 1.), V(n + 1, 1.), true); }), "sizes-refused", "different sizes accepted");
}
VH_MAIN
