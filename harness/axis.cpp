// C11: axis / range / index / mask queries against their brute-force definition
#include "RedshiftLibrary/common/indexing.h"
#include "RedshiftLibrary/common/mask.h"
#include "RedshiftLibrary/common/range.h"
#include "RedshiftLibrary/spectrum/fluxaxis.h"
#include "RedshiftLibrary/spectrum/maskBuilder.h"
#include "RedshiftLibrary/spectrum/noiseaxis.h"
#include "RedshiftLibrary/spectrum/spectralaxis.h"
#include "RedshiftLibrary/spectrum/spectrum.h"
#include "gen.h"
using namespace NSEpic;
using vh::Case;
using vh::fmt;
using vh::vec;
using gen::V;

static V sortedVec(Case &c, bool allowdup) {
  int n = c.r.b(0.3) ? c.r.i(1, 4) : c.r.i(1, 40);
  V v = gen::axis(c.r, n);
  if (allowdup && n > 2 && c.r.b(0.3)) {
    int k = c.r.i(1, n - 1);
    v[k] = v[k - 1];
  }
  if (c.r.b(0.2)) // shift so that values straddle zero
    for (auto &x : v)
      x -= 6000;
  std::sort(v.begin(), v.end());
  return v;
}

VH_CASE(indexing, 4000, 60000) {
  V v = sortedVec(c, true);
  double q = gen::query(c.r, v);
  c.sigv(v), c.sig(q);
  c.nontrivial = v.size() > 1;
  c.note("v=" + vec(v) + fmt(" q=%.17g", q));
  // lowest / highest qualifying by definition
  bool hasLo = false, hasUp = false, has = false;
  double lo = 0, up = 0, best = INFINITY;
  for (double x : v) {
    if (x <= q && (!hasLo || x > lo))
      hasLo = true, lo = x;
    if (x >= q && (!hasUp || x < up))
      hasUp = true, up = x;
    has |= x == q;
    best = std::min(best, std::abs(x - q));
  }
  Int32 i = 12345;
  bool ok = TFloat64Index::getClosestLowerIndex(v, q, i);
  c.check(ok == hasLo, "lower-index-found", fmt("found=%d want=%d", ok, hasLo));
  if (ok && hasLo)
    c.check(i >= 0 && i < (Int32)v.size() && v[i] == lo, "lower-index", fmt("i=%d want value %.17g", i, lo));
  if (!ok)
    c.check(i == undefIdx, "lower-index-undef", fmt("i=%d", i));
  i = 12345;
  ok = TFloat64Index::getClosestUpperIndex(v, q, i);
  c.check(ok == hasUp, "upper-index-found", fmt("found=%d want=%d", ok, hasUp));
  if (ok && hasUp)
    c.check(i >= 0 && i < (Int32)v.size() && v[i] == up, "upper-index", fmt("i=%d want value %.17g", i, up));
  if (!ok)
    c.check(i == undefIdx, "upper-index-undef", fmt("i=%d", i));
  i = TFloat64Index::getCloserIndex(v, q);
  c.check(i >= 0 && i < (Int32)v.size() && std::abs(v[i] - q) == best, "closest-index", fmt("i=%d best=%.17g", i, best));
  bool thrown = false;
  try {
    i = TFloat64Index::getIndex(v, q);
  } catch (const AmzException &) {
    thrown = true;
  }
  c.check(thrown == !has, "exact-index-found", "");
  if (!thrown && has)
    c.check(v.at(i) == q && std::find(v.begin(), v.end(), q) - v.begin() == i, "exact-index", fmt("i=%d", i));
}

VH_CASE(range, 5000, 80000) {
  V v = sortedVec(c, true);
  if (c.r.b(0.02))
    v.clear();
  double b = gen::query(c.r, v), e = gen::query(c.r, v);
  if (b > e)
    std::swap(b, e);
  double q = c.r.b() ? gen::query(c.r, v) : c.r.d(b, e);
  if (c.r.b(0.2))
    q = c.r.b() ? b : e;
  c.sigv(v), c.sig(b), c.sig(e), c.sig(q);
  c.nontrivial = v.size() > 1 && b < e;
  c.note("v=" + vec(v) + fmt(" [%.17g,%.17g] q=%.17g", b, e, q));
  TFloat64Range R(b, e);
  int n = v.size();
  // closed interval: samples inside [b,e]
  int f = -1, l = -1;
  for (int k = 0; k < n; ++k)
    if (v[k] >= b && v[k] <= e) {
      if (f < 0)
        f = k;
      l = k;
    }
  Int32 i0 = -7, i1 = -7;
  std::string err = vh::amz([&] { R.getClosedIntervalIndices(v, i0, i1); });
  if (f < 0)
    c.check(!err.empty(), "closed-interval-none", fmt("no sample inside but got [%d,%d]", i0, i1));
  else {
    c.check(err.empty(), "closed-interval-error", err);
    if (err.empty()) {
      c.check(i0 == f, "closed-interval-first", fmt("got %d want %d", i0, f));
      c.check(i1 >= 0 && i1 < n && v[i1] == v[l], "closed-interval-last", fmt("got %d want %d", i1, l));
    }
  }
  // enclosing interval: the tightest samples around [b,e]
  bool can = n > 0 && v[0] <= b && v[n - 1] >= e;
  for (int withValue = 0; withValue < 2; ++withValue) {
    i0 = i1 = -7;
    err = vh::amz([&] {
      if (withValue)
        R.getEnclosingIntervalIndices(v, q, i0, i1);
      else
        R.getEnclosingIntervalIndices(v, i0, i1);
    });
    bool want = can && (!withValue || (q >= b && q <= e));
    c.check(err.empty() == want, "enclosing-interval-error", fmt("value=%d want ok=%d err=", withValue, want) + err);
    if (err.empty() && want) {
      double lo = -INFINITY, hi = INFINITY;
      for (double x : v) {
        if (x <= b)
          lo = std::max(lo, x);
        if (x >= e)
          hi = std::min(hi, x);
      }
      c.check(i0 >= 0 && i0 < n && v[i0] == lo, "enclosing-interval-first", fmt("value=%d got %d", withValue, i0));
      c.check(i1 >= 0 && i1 < n && v[i1] == hi, "enclosing-interval-last", fmt("value=%d got %d", withValue, i1));
    }
  }
  // set operations
  double b2 = gen::query(c.r, v), e2 = gen::query(c.r, v);
  if (b2 > e2)
    std::swap(b2, e2);
  TFloat64Range S(b2, e2), X(-1, -2), U(-1, -2);
  bool inter = std::max(b, b2) <= std::min(e, e2);
  c.check(TFloat64Range::HasIntersection(R, S) == inter && R.HasIntersectionWith(S) == inter, "intersects", "");
  c.check(TFloat64Range::Intersect(R, S, X) == inter, "intersect-found", "");
  c.check(inter ? (X.GetBegin() == std::max(b, b2) && X.GetEnd() == std::min(e, e2)) : (X.GetBegin() == -1 && X.GetEnd() == -2), "intersection",
          fmt("[%.17g,%.17g]", X.GetBegin(), X.GetEnd()));
  c.check(TFloat64Range::getUnion(R, S, U) == inter, "union-found", "");
  if (inter)
    c.check(U.GetBegin() == std::min(b, b2) && U.GetEnd() == std::max(e, e2), "union", "");
  TFloat64Range Y = R;
  bool r2 = Y.IntersectWith(S);
  c.check(r2 == inter && (inter ? Y == X : Y == R), "intersect-in-place", "");
  Y = R;
  c.check(Y.unionWith(S) == inter && (inter ? Y == U : Y == R), "union-in-place", "");
  c.check(R.Clamp(q) == std::min(std::max(q, b), e), "clamp", "");
  c.check((R < S) == (b < b2 || (b == b2 && e < e2)), "range-order", "");
  c.check((R == S) == (b == b2 && e == e2) && (R != S) == !(R == S), "range-equality", "");
  c.check(R.GetLength() == e - b && R.GetIsEmpty() == (b == e), "range-length", "");
  // join of a list of ranges: disjoint, sorted, same union
  TFloat64RangeList rl;
  int m = c.r.i(1, 8);
  for (int k = 0; k < m; ++k) {
    double x = c.r.i(0, 30), y = x + c.r.i(0, 6);
    rl.push_back(TFloat64Range(x, y));
  }
  auto jl = TFloat64Range::joinIntersections(rl);
  bool good = true;
  for (size_t k = 0; k + 1 < jl.size(); ++k)
    good &= jl[k].GetEnd() < jl[k + 1].GetBegin();
  for (double x = -1; x <= 40; x += 0.25) {
    bool a = false, d = false;
    for (auto &t : rl)
      a |= x >= t.GetBegin() && x <= t.GetEnd();
    for (auto &t : jl)
      d |= x >= t.GetBegin() && x <= t.GetEnd();
    good &= a == d;
  }
  std::string js;
  for (auto &t : rl)
    js += fmt("[%g,%g]", t.GetBegin(), t.GetEnd());
  js += " -> ";
  for (auto &t : jl)
    js += fmt("[%g,%g]", t.GetBegin(), t.GetEnd());
  c.check(good, "join-intersections", js);
}

static bool trueLog(const V &v) { // definition: every log step within 10% of the first
  double s = std::log(v[1] / v[0]);
  for (size_t k = 1; k < v.size(); ++k)
    if (std::abs(std::log(v[k] / v[k - 1]) - s) > 0.1 * std::abs(s))
      return false;
  return true;
}
static bool nearLogLimit(const V &v) {
  double s = std::log(v[1] / v[0]);
  for (size_t k = 1; k < v.size(); ++k) {
    double t = std::abs((std::log(v[k] / v[k - 1]) - s) / s);
    if (t > 0.09 && t < 0.11)
      return true;
  }
  return false;
}

VH_CASE(spectralaxis, 4000, 60000) {
  int n = c.r.b(0.2) ? c.r.i(2, 4) : c.r.i(2, 60);
  V v = gen::axis(c.r, n);
  CSpectrumSpectralAxis ax(v);
  double q = gen::query(c.r, v), b = gen::query(c.r, v), e = gen::query(c.r, v);
  if (b > e)
    std::swap(b, e);
  c.sigv(v), c.sig(q), c.sig(b), c.sig(e);
  c.nontrivial = true;
  c.note("v=" + vec(v) + fmt(" q=%.17g [%.17g,%.17g]", q, b, e));
  c.check(ax.GetSamplesCount() == n && ax.GetSamplesVector() == v, "axis-samples", "");
  // index at wavelength: clamped lower bound
  int want = n - 1;
  for (int k = n - 1; k >= 0; --k)
    if (v[k] >= q)
      want = k;
  c.check(ax.GetIndexAtWaveLength(q) == want, "index-at-wavelength", fmt("got %d want %d", ax.GetIndexAtWaveLength(q), want));
  TInt32Range ir = ax.GetIndexesAtWaveLengthRange(TFloat64Range(b, e));
  c.check(ir.GetBegin() == ax.GetIndexAtWaveLength(b) && ir.GetEnd() == ax.GetIndexAtWaveLength(e), "indexes-at-range", "");
  c.check(ax.GetLambdaRange().GetBegin() == v[0] && ax.GetLambdaRange().GetEnd() == v[n - 1], "lambda-range", "");
  c.check(ax.isSorted(), "sorted", "");
  // mask
  CMask m(c.r.i(0, 5), 1);
  ax.GetMask(TFloat64Range(b, e), m);
  bool ok = m.GetMasksCount() == n;
  int cnt = 0;
  for (int k = 0; ok && k < n; ++k) {
    bool in = v[k] >= b && v[k] <= e;
    cnt += in;
    ok &= (m[k] != 0) == in && m[k] <= 1;
  }
  c.check(ok, "range-mask", "");
  c.check(!ok || (m.GetUnMaskedSampleCount() == cnt && m.GetMaskedSampleCount() == n - cnt), "mask-count", "");
  // overlap fraction
  CMask om(n);
  int oc = 0;
  for (int k = 0; k < n; ++k) {
    om[k] = c.r.b();
    if (v[k] >= b && v[k] <= e)
      oc += om[k];
  }
  c.close(ax.IntersectMaskAndComputeOverlapFraction(TFloat64Range(b, e), om), cnt ? double(oc) / cnt : 0., 1e-12, 0, "overlap-fraction", "");
  // clamp
  TFloat64Range cl;
  std::string err = vh::amz([&] { ax.ClampLambdaRange(TFloat64Range(b, e), cl); });
  double cb = std::max(b, v[0]), ce = std::min(e, v[n - 1]);
  bool clampable = b != e && cb < ce;
  c.check(err.empty() == clampable, "clamp-range-error", fmt("want ok=%d %s", clampable, err.c_str()));
  if (err.empty() && clampable)
    c.check(cl.GetBegin() == cb && cl.GetEnd() == ce, "clamp-range", "");
  // sub axis
  int i0 = c.r.i(0, n - 1), i1 = c.r.i(i0, n - 1);
  auto sub = ax.extract(i0, i1);
  c.check(sub.GetSamplesVector() == V(v.begin() + i0, v.begin() + i1 + 1), "sub-axis", fmt("%d..%d", i0, i1));
  V msk(n), sel;
  for (int k = 0; k < n; ++k) {
    msk[k] = c.r.b(0.7);
    if (msk[k])
      sel.push_back(v[k]);
  }
  auto ma = ax.MaskAxis(msk);
  c.check(ma.GetSamplesVector() == sel, "masked-axis", "");
  V bad(n + (c.r.b() ? 1 : -1), 1.);
  c.check(vh::throwsAmz([&] { ax.MaskAxis(bad); }), "masked-axis-size", "mask of another size accepted");
  // resolutions
  double res = 0;
  for (int k = i0; k < i1; ++k)
    res += v[k + 1] - v[k];
  c.close(ax.GetMeanResolution(TInt32Range(i0, i1)), i1 > i0 ? res / (i1 - i0) : 0., 1e-9, 1e-12, "mean-resolution", fmt("%d..%d", i0, i1));
  c.close(ax.GetMeanResolution(), (v[n - 1] - v[0]) / (n - 1), 1e-9, 0, "mean-resolution-all", "");
  if (q >= 0) {
    int k = std::max(1, want);
    c.eq(ax.GetResolution(q), v[k] - v[k - 1], "resolution-at", "");
  }
  c.eq(ax.GetResolution(), v[1] - v[0], "resolution", "");
  // frame shifts invert each other and keep order and length
  double z1 = 1 + c.r.d(0, 8);
  CSpectrumSpectralAxis rest(ax, z1, CSpectrumSpectralAxis::nShiftBackward), obs(rest, z1, CSpectrumSpectralAxis::nShiftForward);
  ok = rest.GetSamplesCount() == n && obs.GetSamplesCount() == n;
  for (int k = 0; ok && k < n; ++k)
    ok &= std::abs(rest[k] * z1 / v[k] - 1) < 1e-12 && std::abs(obs[k] / v[k] - 1) < 1e-12;
  c.check(ok, "frame-shift", fmt("1+z=%g", z1));
  CSpectrumSpectralAxis inpl(v);
  inpl.ShiftByWaveLength(z1, CSpectrumSpectralAxis::nShiftBackward);
  c.check(inpl.GetSamplesVector() == rest.GetSamplesVector(), "frame-shift-in-place", "");
  c.check(vh::throwsAmz([&] { inpl.ShiftByWaveLength(-z1, CSpectrumSpectralAxis::nShiftForward); }), "frame-shift-negative", "");
  // unsorted and duplicated axes
  V u = v;
  if (n > 2) {
    int k = c.r.i(1, n - 1);
    if (c.r.b())
      u[k] = u[k - 1];
    else
      std::swap(u[k], u[k - 1]);
    c.check(!CSpectrumSpectralAxis(u).isSorted(), "unsorted-detected", vec(u));
  }
}

// properties (sorted, log-sampled) of an axis follow its samples through any history of modifications
VH_CASE(axishistory, 3000, 40000) {
  int n = c.r.i(3, 30);
  V v = gen::axis(c.r, n, 1000, 9000, c.r.b(0.6) ? 1 : -1);
  if (c.r.b(0.15))
    c.r.shuffle(v);
  CSpectrumSpectralAxis ax(v);
  std::string hist = "init " + vec(v, 40);
  // a part of an axis found unsorted (not log-sampled) inherits that verdict: from then on only positive verdicts are judged
  bool taintS = false, taintL = false;
  int nops = c.r.i(1, 6);
  c.nontrivial = nops > 1;
  for (int o = 0; o <= nops; ++o) {
    // query between (sometimes) so that cached properties exist
    if (c.r.b(0.7) || o == nops) {
      V cur = const_cast<const CSpectrumSpectralAxis &>(ax).GetSamplesVector();
      if (cur.size() >= 2) {
        bool so = true;
        for (size_t k = 1; k < cur.size(); ++k)
          so &= cur[k] > cur[k - 1];
        bool got = ax.isSorted();
        if (!so)
          taintS = true;
        c.check(got ? so : (!so || taintS), "sorted-after-history", hist + fmt(" isSorted=%d", got) + " now " + vec(cur, 40));
        bool pos = true;
        for (double x : cur)
          pos &= x > 0;
        if (so && pos && nearLogLimit(cur)) {
          ax.IsLogSampled();
          taintL = true;
        }
        if (so && pos && !nearLogLimit(cur)) {
          bool tl = trueLog(cur);
          got = ax.IsLogSampled();
          if (!tl)
            taintL = true;
          // the tolerance is relative to the first step: a part of an accepted axis may have another first step
          double smin = INFINITY, smax = 0;
          for (size_t k = 1; k < cur.size(); ++k) {
            double t = std::log(cur[k] / cur[k - 1]);
            smin = std::min(smin, t), smax = std::max(smax, t);
          }
          c.check(got ? (tl || smax < 1.25 * smin) : (!tl || taintL), "log-sampled-after-history", hist + fmt(" IsLogSampled=%d", got) + " now " + vec(cur, 40));
          double step = std::log(cur.back() / cur.front()) / (cur.size() - 1);
          if (tl && got) {
            bool part = hist.find("extract") != std::string::npos || hist.find("size") != std::string::npos; // a part keeps the mean step of the whole
            c.close(ax.GetlogGridStep(), step, part ? 0.25 : 0.05, 0, "log-step-after-history", hist);
            c.check(ax.IsLogSampled(ax.GetlogGridStep() + 0.9e-7) && !ax.IsLogSampled(ax.GetlogGridStep() + 1.1e-7), "log-step-tolerance", "");
          } else if (!got)
            c.check(vh::throwsAmz([&] { ax.GetlogGridStep(); }), "log-step-refused", "");
        }
      }
    }
    if (o == nops)
      break;
    int cnt = ax.GetSamplesCount();
    switch (c.r.i(0, 8)) {
    case 0: {
      double f = c.r.d(0.5, 3);
      ax *= f;
      hist += fmt(" *=%g", f);
      break;
    }
    case 1: {
      double f = c.r.d(0.5, 3);
      ax /= f;
      hist += fmt(" /=%g", f);
      break;
    }
    case 2: {
      double f = c.r.b(0.3) ? 0. : c.r.d(-300, 3000);
      ax.ApplyOffset(f);
      if (f != 0)
        taintL = false;
      hist += fmt(" +=%g", f);
      break;
    }
    case 3: {
      V w = gen::axis(c.r, c.r.i(2, 20), 1000, 9000, c.r.b() ? 1 : 2);
      if (c.r.b(0.2))
        c.r.shuffle(w);
      hist += " set" + vec(w, 40);
      ax.setSamplesVector(w);
      taintS = taintL = false;
      break;
    }
    case 4:
      if (cnt > 3) {
        int i0 = c.r.i(0, cnt - 3), i1 = c.r.i(i0 + 1, cnt - 1);
        auto t = ax.extract(i0, i1);
        ax = t;
        hist += fmt(" extract %d..%d", i0, i1);
      }
      break;
    case 5:
      if (cnt > 0) {
        V m(cnt);
        int k1 = 0;
        for (auto &x : m)
          k1 += (x = c.r.b(0.8)) != 0;
        if (k1 >= 2) {
          auto t = ax.MaskAxis(m);
          ax = t;
          taintL = false;
          hist += " mask" + vec(m, 40);
        }
      }
      break;
    case 6: {
      int k = c.r.i(0, cnt - 1);
      double f = c.r.d(500, 12000);
      ax[k] = f;
      taintS = taintL = false;
      hist += fmt(" [%d]=%g", k, f);
      break;
    }
    case 7: {
      CSpectrumSpectralAxis t(ax);
      ax = CSpectrumSpectralAxis(t, c.r.d(1, 5), c.r.b() ? CSpectrumSpectralAxis::nShiftForward : CSpectrumSpectralAxis::nShiftBackward);
      hist += " shift";
      break;
    }
    case 8:
      if (cnt > 4) {
        int k = c.r.i(2, cnt - 1);
        ax.SetSize(k);
        hist += fmt(" size=%d", k);
      }
      break;
    }
  }
  c.sig(hist);
  c.note(hist);
}

// log-sampled axes: sub-sampling masks, integer ratios, precise recomputation
VH_CASE(logaxis, 1500, 15000) {
  int n = c.r.b(0.3) ? c.r.i(2, 12) : c.r.i(320, 700);
  double a = c.r.d(1000, 5000), st = c.r.logd(1e-5, 1e-3);
  V v(n);
  for (int k = 0; k < n; ++k)
    v[k] = a * std::exp(st * k);
  CSpectrumSpectralAxis ax(v);
  c.nontrivial = true;
  c.sig(a), c.sig(st), c.sig(n);
  c.note(fmt("n=%d start=%.17g logstep=%.17g", n, a, st));
  c.check(ax.IsLogSampled() && ax.IsLogSampled(st), "log-grid-accepted", "");
  c.close(ax.GetlogGridStep(), st, 1e-9, 0, "log-grid-step", "");
  int ss = c.r.i(1, 5), i0 = c.r.i(0, n - 1), i1 = c.r.i(i0, n - 1);
  V m = ax.GetSubSamplingMask(ss, TInt32Range(i0, i1));
  bool ok = (int)m.size() == n;
  for (int k = 0; ok && k < n; ++k) {
    bool w = ss == 1 || (k >= i0 && k <= i1 && (i1 - k) % ss == 0);
    ok &= m[k] == (w ? 1. : 0.);
  }
  c.check(ok, "subsampling-mask", fmt("ratio %d %d..%d", ss, i0, i1));
  c.check(ax.GetSubSamplingMask(ss) == ax.GetSubSamplingMask(ss, TInt32Range(0, n - 1)), "subsampling-mask-all", "");
  double lo = v[i0] * (1 - 0.3 * st), hi = v[i1] * (1 + 0.3 * st);
  if (c.r.b())
    lo = v[i0], hi = v[i1];
  c.check(ax.GetSubSamplingMask(ss, TFloat64Range(lo, hi)) == m, "subsampling-mask-range", fmt("ratio %d [%.17g,%.17g]", ss, lo, hi));
  c.check(vh::throwsAmz([&] { ax.GetSubSamplingMask(ss, TInt32Range(-1, i1)); }) && vh::throwsAmz([&] { ax.GetSubSamplingMask(ss, TInt32Range(i0, n)); }),
          "subsampling-mask-bounds", "index range outside the axis accepted");
  int ratio = c.r.i(1, 6);
  double off = st * c.r.d(-0.4, 0.4), modulo = NAN;
  int r = ax.GetLogSamplingIntegerRatio(ratio * st + off, modulo);
  c.check(r == ratio, "log-integer-ratio", fmt("got %d want %d", r, ratio));
  c.close(modulo, off, 1e-6, 1e-9 * st * ratio, "log-ratio-remainder", "");
  if (n >= 300) { // wavelengths rounded to a few decimals: recomputation is closer to the truth
    V t = v;
    double p = 1e2;
    for (auto &x : t)
      x = std::round(x * p) / p;
    bool sorted = true;
    for (int k = 1; k < n; ++k)
      sorted &= t[k] > t[k - 1];
    if (sorted && st * a > 0.11 && trueLog(t) && !nearLogLimit(t)) {
      CSpectrumSpectralAxis x(t);
      x.RecomputePreciseLoglambda();
      const auto &w = const_cast<const CSpectrumSpectralAxis &>(x).GetSamplesVector();
      c.check((int)w.size() == n, "precise-log-size", fmt("%zu vs %d", w.size(), n));
      double e0 = 0, s0 = 0, s1 = 0;
      for (int k = 0; k < n && (int)w.size() == n; ++k) {
        e0 = std::max(e0, std::abs(w[k] - v[k]));
      }
      c.check(e0 <= 1.2 / p, "precise-log-close", fmt("max difference %g", e0));
      c.check(trueLog(w), "precise-log-regular", "");
    }
  } else if (n < 300)
    c.check(n > 300 || vh::throwsAmz([&] {
              CSpectrumSpectralAxis x(v);
              x.RecomputePreciseLoglambda();
            }),
            "precise-log-refused", "");
}

VH_CASE(mask, 1500, 15000) {
  int n = c.r.i(0, 40), n2 = c.r.b(0.85) ? n : c.r.i(0, 40);
  CMask a(n), b(n2);
  V va(n), vb(n2);
  double p = c.r.pick(V{0, 0.2, 0.5, 0.9, 1});
  for (int k = 0; k < n; ++k)
    a[k] = va[k] = c.r.b(p);
  for (int k = 0; k < n2; ++k)
    b[k] = vb[k] = c.r.b();
  c.sigv(va), c.sigv(vb);
  c.nontrivial = n > 1;
  c.note("a=" + vec(va, 40) + " b=" + vec(vb, 40));
  int ca = 0, cab = 0, cb = 0;
  for (int k = 0; k < n; ++k) {
    ca += va[k] != 0;
    if (k < n2)
      cab += va[k] && vb[k];
  }
  for (double x : vb)
    cb += x != 0;
  c.check(a.GetUnMaskedSampleCount() == ca && a.GetMaskedSampleCount() == n - ca, "mask-counts", "");
  c.close(a.IntersectAndComputeOverlapFraction(b), n != n2 ? -1. : ca ? double(cab) / ca : 0., 1e-12, 0, "mask-overlap", "");
  c.close(a.CompouteOverlapFraction(b), n != n2 ? -1. : ca ? double(cb) / ca : 0., 1e-12, 0, "mask-rate", "");
  CMask x = a, y = a;
  bool ret = x.IntersectWith(b);
  y &= b;
  c.check(ret == (n == n2), "mask-intersect-size", "");
  bool ok = x.GetMasksCount() == n && y.GetMasksCount() == n;
  for (int k = 0; ok && k < n; ++k) {
    bool w = n == n2 ? (va[k] && vb[k]) : va[k] != 0;
    ok &= (x[k] != 0) == w && (y[k] != 0) == w;
  }
  c.check(ok, "mask-intersect", "");
  CMaskBuilder mb;
  V v = gen::axis(c.r, std::max(n, 2));
  auto full = mb.getMask(CSpectrumSpectralAxis(v), TFloat64Range(v.front(), v.back()), 0.3);
  c.check(full.GetMasksCount() == (Int32)v.size() && full.GetUnMaskedSampleCount() == (Int32)v.size(), "default-mask", "");
}

// spectra: sub-spectra, masked spectra, statistics in range, flux axis operations
VH_CASE(spectrum, 2500, 30000) {
  int n = c.r.i(2, 60);
  V l = gen::axis(c.r, n), f = gen::flux(c.r, l), s = gen::noise(c.r, n, 0.3);
  c.sigv(l), c.sigv(f);
  c.nontrivial = true;
  CSpectrumFluxAxis fa{CSpectrumAxis(f), CSpectrumNoiseAxis(s)};
  CSpectrum sp{CSpectrumSpectralAxis(l), fa};
  int i0 = c.r.i(0, n - 1), i1 = c.r.i(i0, n - 1);
  c.note(fmt("n=%d l=", n) + vec(l) + fmt(" sub %d..%d", i0, i1));
  auto sub = sp.extract(i0, i1);
  auto cut = [&](const V &x) { return V(x.begin() + i0, x.begin() + i1 + 1); };
  c.check(sub.GetSpectralAxis().GetSamplesVector() == cut(l) && sub.GetFluxAxis().GetSamplesVector() == cut(f) &&
              sub.GetErrorAxis().GetSamplesVector() == cut(s),
          "sub-spectrum", "");
  V m(n), ml, mf, ms;
  for (int k = 0; k < n; ++k)
    if ((m[k] = c.r.b(0.7)))
      ml.push_back(l[k]), mf.push_back(f[k]), ms.push_back(s[k]);
  CSpectrum msp(sp, m);
  c.check(msp.GetSpectralAxis().GetSamplesVector() == ml && msp.GetFluxAxis().GetSamplesVector() == mf && msp.GetErrorAxis().GetSamplesVector() == ms,
          "masked-spectrum", vec(m));
  // copies
  CSpectrum cp(sp), as;
  as = sp;
  for (auto *x : {&cp, &as})
    c.check(x->GetSpectralAxis().GetSamplesVector() == l && x->GetFluxAxis().GetSamplesVector() == f && x->GetErrorAxis().GetSamplesVector() == s,
            "spectrum-copy", "");
  double b = gen::query(c.r, l), e = gen::query(c.r, l);
  if (b > e)
    std::swap(b, e);
  double mean = -9, sd = -9;
  bool inside = b >= l[0] && e <= l[n - 1];
  bool got = sp.GetMeanAndStdFluxInRange(TFloat64Range(b, e), mean, sd);
  c.check(got == inside, "range-statistics-domain", "");
  if (got && inside) {
    double sw = 0, swf = 0, sw2 = 0;
    int cnt = 0;
    for (int k = 0; k < n; ++k)
      if (l[k] >= b && l[k] <= e) {
        double w = 1 / (s[k] * s[k]);
        sw += w, swf += w * f[k], sw2 += w * w;
        ++cnt;
      }
    if (cnt) {
      double mu = swf / sw, ss = 0;
      for (int k = 0; k < n; ++k)
        if (l[k] >= b && l[k] <= e)
          ss += (f[k] - mu) * (f[k] - mu) / (s[k] * s[k]);
      c.close(mean, mu, 1e-9, 1e-12, "weighted-mean", "");
      if (cnt > 1)
        c.close(sd, std::sqrt(ss / (sw - sw2 / sw)), 1e-5, 1e-6, "weighted-std", "");
    } else
      c.check(std::isnan(mean), "weighted-mean-empty", "");
  }
  double ra = NAN, rb = NAN;
  got = sp.GetLinearRegInRange(TFloat64Range(b, e), ra, rb);
  c.check(got == inside, "linear-regression-domain", "");
  if (got && inside) {
    int j0 = sp.GetSpectralAxis().GetIndexAtWaveLength(b), j1 = sp.GetSpectralAxis().GetIndexAtWaveLength(e);
    if (j1 > j0 + 1) {
      long double W = 0, X = 0, Y = 0, XX = 0, XY = 0;
      for (int k = j0; k <= j1; ++k) {
        long double w = 1 / (s[k] * s[k]);
        W += w, X += w * l[k], Y += w * f[k];
      }
      X /= W, Y /= W;
      for (int k = j0; k <= j1; ++k) {
        long double w = 1 / (s[k] * s[k]);
        XX += w * (l[k] - X) * (l[k] - X), XY += w * (l[k] - X) * (f[k] - Y);
      }
      double sl = XY / XX, it = Y - sl * X;
      c.close(ra, sl, 1e-7, 1e-9, "regression-slope", "");
      c.close(rb, it, 1e-7, 1e-6, "regression-intercept", "");
    }
  }
  // flux-axis operations against definitions
  int hw = c.r.i(0, 6);
  CSpectrumFluxAxis sm = fa, sd2 = fa;
  bool r1 = sm.ApplyMeanSmooth(hw), r2 = sd2.ApplyMedianSmooth(hw);
  bool can = hw > 0 && n >= hw + 1;
  c.check(r1 == can && r2 == can, "smooth-accepted", fmt("hw=%d", hw));
  bool ok1 = true, ok2 = true;
  for (int k = 0; k < n; ++k) {
    int a0 = std::max(0, k - hw), a1 = std::min(n - 1, k + hw);
    V w(f.begin() + a0, f.begin() + a1 + 1);
    double mu = std::accumulate(w.begin(), w.end(), 0.) / w.size();
    std::sort(w.begin(), w.end());
    size_t h = w.size() / 2;
    double med = w.size() % 2 ? w[h] : 0.5 * (w[h] + w[h - 1]);
    const auto &S = sm, &D = sd2;
    ok1 &= std::abs(S[k] - (can ? mu : f[k])) < 1e-9;
    ok2 &= std::abs(D[k] - (can ? med : f[k])) < 1e-9;
  }
  c.check(ok1, "mean-smooth", fmt("hw=%d n=%d", hw, n));
  c.check(ok2, "median-smooth", fmt("hw=%d n=%d", hw, n));
  double mx = 0, rms = 0;
  for (int k = i0; k <= i1; ++k)
    mx = std::max(mx, std::abs(f[k]));
  c.eq(fa.computeMaxAbsValue(i0, i1), mx, "max-abs", "");
  V g = gen::flux(c.r, l);
  for (int k = 0; k < n; ++k)
    rms += (f[k] - g[k]) * (f[k] - g[k]);
  CSpectrumFluxAxis ga(g);
  c.close(fa.ComputeRMSDiff(ga), std::sqrt(rms / n), 1e-9, 0, "rms-difference", "");
  CSpectrumFluxAxis da = fa;
  da.Subtract(ga);
  CSpectrumFluxAxis ia = fa;
  ia.Invert();
  bool ok = true;
  for (int k = 0; k < n; ++k)
    ok &= std::as_const(da)[k] == f[k] - g[k] && std::as_const(ia)[k] == -f[k];
  c.check(ok, "subtract-invert", "");
  c.check(da.GetError().GetSamplesVector() == s, "subtract-keeps-error", "");
  CSpectrumFluxAxis shorter(n - 1);
  c.check(vh::throwsAmz([&] { da.Subtract(shorter); }) && vh::throwsAmz([&] { fa.ComputeRMSDiff(shorter); }) &&
              vh::throwsAmz([&] { CSpectrumFluxAxis t(fa); t.setError(CSpectrumNoiseAxis(n + 1)); }),
          "size-mismatch-refused", "");
  int ns = c.r.i(0, 50);
  CSpectrumFluxAxis sz = fa;
  sz.SetSize(ns);
  c.check(sz.GetSamplesCount() == ns && sz.GetError().GetSamplesCount() == ns, "flux-error-same-length", "");
  // inconsistent spectra are refused
  c.check(vh::throwsAmz([&] { CSpectrum t(CSpectrumSpectralAxis(l), shorter); }), "inconsistent-spectrum-refused", "");
  // trapezoid integral over index ranges
  auto in = CSpectrum::integrateFluxes_usingTrapez(sp.GetSpectralAxis(), fa, {TInt32Range(i0, i1)});
  double tf = 0, te = 0;
  for (int k = i0; k < i1; ++k) {
    double w = 0.5 * (l[k + 1] - l[k]);
    tf += w * (f[k] + f[k + 1]);
    te += w * w * (s[k] * s[k] + s[k + 1] * s[k + 1]);
  }
  c.close(in.first, tf, 1e-9, 1e-9, "trapezoid-flux", "");
  c.close(in.second, te, 1e-9, 1e-12, "trapezoid-error", "");
}
VH_MAIN
