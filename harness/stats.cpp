// C25: statistical helpers against their mathematical definition.
#include "gen.h"
#include "RedshiftLibrary/common/mask.h"
#include "RedshiftLibrary/common/mean.h"
#include "RedshiftLibrary/common/median.h"
#include "RedshiftLibrary/common/polynom.h"
#include "RedshiftLibrary/gaussianfit/gaussianfit.h"
#include "RedshiftLibrary/spectrum/spectrum.h"
#include "RedshiftLibrary/statistics/deltaz.h"
#include "RedshiftLibrary/statistics/priorhelper.h"
#include <filesystem>
#include <fstream>
#include <unistd.h>
using namespace NSEpic;
using gen::V;
typedef long double LD;
namespace fs = std::filesystem;

static double refMedian(V v) {
  std::sort(v.begin(), v.end());
  size_t n = v.size();
  return n % 2 ? v[n / 2] : 0.5 * (v[n / 2 - 1] + v[n / 2]);
}
static V values(vh::Rng &r, int n) {
  V v(n);
  int k = r.i(0, 5);
  double sc = r.logd(1e-20, 1e20);
  for (int i = 0; i < n; ++i)
    switch (k) {
    case 0:
      v[i] = r.g() * sc;
      break;
    case 1:
      v[i] = r.i(0, 3);
      break;
    case 2:
      v[i] = i * sc;
      break;
    case 3:
      v[i] = -i * sc;
      break;
    case 4:
      v[i] = r.b() ? -sc : sc * r.i(0, 2);
      break;
    default:
      v[i] = r.logd(1e-30, 1e30) * (r.b() ? 1 : -1);
    }
  return v;
}

// every 0/1 pattern decides a comparison network (zero-one principle), every permutation of small sizes
VH_CASE(median_networks, 12, 12) {
  int n = c.index + 1;
  if (n > 14)
    c.skip(); // exhaustive in the length, whatever the scale
  c.nontrivial = true;
  c.sig(n);
  CMedian<Float64> m;
  for (int bits = 0; bits < (1 << n); ++bits) {
    V v(n);
    for (int i = 0; i < n; ++i)
      v[i] = (bits >> i) & 1;
    if (!c.eq(m.Find(v), refMedian(v), "median-01", "median of " + vh::vec(v)))
      return;
  }
  if (n <= 8) {
    V v(n);
    for (int i = 0; i < n; ++i)
      v[i] = i * i - 3 * i;
    std::sort(v.begin(), v.end());
    do {
      if (!c.eq(m.Find(v), refMedian(v), "median-permutation", "median of " + vh::vec(v)))
        return;
    } while (std::next_permutation(v.begin(), v.end()));
  }
}
VH_CASE(median, 3000, 60000) {
  int n = c.r.b(0.5) ? c.r.i(1, 40) : c.r.b(0.7) ? c.r.i(900, 1100) : c.r.i(1, 6000);
  V v = values(c.r, n), w = v;
  c.sigv(v);
  c.nontrivial = n > 1;
  c.note(vh::fmt("n=%d %s", n, vh::vec(v, 12).c_str()));
  CMedian<Float64> m;
  double want = refMedian(v);
  c.eq(m.Find(v), want, "median", "median of a vector");
  c.check(v == w, "input-unchanged", "median changed its input");
  c.r.shuffle(v);
  c.eq(m.Find(v), want, "median-order", "median of a shuffled vector");
  int a = c.r.i(0, n - 1), b = c.r.i(a + 1, n);
  c.eq(m.Find(v.cbegin() + a, v.cbegin() + b), refMedian(V(v.begin() + a, v.begin() + b)), "median-range",
       vh::fmt("median of [%d,%d)", a, b));
  LD s = 0, sa = 0;
  for (double x : v)
    s += x, sa += std::fabs(x);
  CMean<Float64> me;
  c.close(me.Find(v), double(s / n), 0, double(sa / n) * 1e-12 + 1e-300, "mean", "mean of a vector");
}
VH_CASE(flux_statistics, 1500, 30000) {
  int n = c.r.i(2, 60);
  V v(n), e(n);
  double sc = c.r.logd(1e-18, 1e5), off = c.r.d(-3, 3), se = c.r.logd(1e-18, 1e5);
  for (int i = 0; i < n; ++i)
    v[i] = sc * (off + c.r.g()), e[i] = se * c.r.logd(0.2, 5);
  c.sigv(v);
  c.nontrivial = true;
  CSpectrumFluxAxis f{CSpectrumAxis(v), CSpectrumNoiseAxis(e)};
  CMask mask(n);
  std::vector<int> on;
  double p = c.r.pick(std::vector<double>{1, 0.7, 0.2});
  for (int i = 0; i < n; ++i) {
    mask[i] = c.r.b(p);
    if (mask[i])
      on.push_back(i);
  }
  double mean = 3, sdev = 4;
  bool ok = f.ComputeMeanAndSDev(mask, mean, sdev);
  c.check(ok == !on.empty(), "sdev-status", vh::fmt("status %d with %zu samples", ok, on.size()));
  if (!on.empty()) {
    LD sw = 0, sw2 = 0, m = 0, s2 = 0;
    for (int i : on) {
      LD w = 1.0L / (LD(e[i]) * e[i]);
      sw += w, sw2 += w * w, m += w * v[i];
    }
    m /= sw;
    for (int i : on)
      s2 += (v[i] - m) * (v[i] - m) / (LD(e[i]) * e[i]);
    c.close(mean, double(m), 1e-9, 1e-9 * sc, "weighted-mean", "mean");
    if (on.size() > 2) {
      double want = double(std::sqrt(s2 / (sw - sw2 / sw)));
      c.close(sdev, want, 1e-6, 1e-7 * sc, "standard-deviation", "sdev");
    }
  }
  c.check(vh::throwsAmz([&] { CMask bad(n + 1); f.ComputeMeanAndSDev(bad, mean, sdev); }), "mask-size-refused", "mask of the wrong size accepted");
  int k = c.r.i(1, n - 1), kk = c.r.i(0, n + 3);
  CSpectrumFluxAxis med = f, mea = f;
  bool b1 = med.ApplyMedianSmooth(kk), b2 = mea.ApplyMeanSmooth(kk);
  bool want = kk > 0 && n >= kk + 1;
  c.check(b1 == want && b2 == want, "smooth-status", vh::fmt("smoothing n=%d half width %d: %d %d", n, kk, b1, b2));
  for (int i = 0; i < n; ++i) {
    int a = std::max(0, i - kk), b = std::min(n - 1, i + kk);
    V w(v.begin() + a, v.begin() + b + 1);
    LD s = 0, sa = 0;
    for (double x : w)
      s += x, sa += std::fabs(x);
    c.eq(med[i], want ? refMedian(w) : v[i], "median-smooth", vh::fmt("sample %d of %d, half width %d", i, n, kk));
    c.close(mea[i], want ? double(s / w.size()) : v[i], 1e-12, double(sa) * 1e-13, "mean-smooth", vh::fmt("sample %d of %d, half width %d", i, n, kk));
    c.check(med.GetError()[i] == e[i] && mea.GetError()[i] == e[i], "smooth-keeps-error", "error changed by smoothing");
  }
  int a = c.r.i(0, n - 1), b = c.r.i(a, n - 1);
  double mx = 0;
  for (int i = a; i <= b; ++i)
    mx = std::max(mx, std::fabs(v[i]));
  c.eq(f.computeMaxAbsValue(a, b), mx, "max-abs", vh::fmt("range [%d,%d]", a, b));
  V v2(n);
  LD d2 = 0;
  for (int i = 0; i < n; ++i)
    v2[i] = v[i] + sc * c.r.g(), d2 += (LD(v[i]) - v2[i]) * (LD(v[i]) - v2[i]) / n;
  CSpectrumFluxAxis g(v2);
  c.close(f.ComputeRMSDiff(g), double(std::sqrt(d2)), 1e-9, 0, "rms-difference", "rms");
  CSpectrumFluxAxis sub = f;
  sub.Subtract(g);
  CSpectrumFluxAxis inv = f;
  inv.Invert();
  for (int i = 0; i < n; ++i) {
    c.eq(sub[i], v[i] - v2[i], "subtract", "difference");
    c.eq(inv[i], -v[i], "invert", "negation");
  }
  // mean and deviation of a spectrum in a wavelength range
  V lam = gen::axis(c.r, n);
  CSpectrum sp{CSpectrumSpectralAxis(lam), f};
  double l0 = gen::query(c.r, lam), l1 = gen::query(c.r, lam);
  if (l0 > l1)
    std::swap(l0, l1);
  (void)k;
  LD sw = 0, sw2 = 0, m = 0, s2 = 0;
  int cnt = 0;
  for (int i = 0; i < n; ++i)
    if (lam[i] >= l0 && lam[i] <= l1) {
      LD w = 1.0L / (LD(e[i]) * e[i]);
      sw += w, sw2 += w * w, m += w * v[i], ++cnt;
    }
  bool inside = l0 >= lam.front() && l1 <= lam.back();
  double mm = -7, ss = -7, la = -7, lb = -7;
  bool ret = sp.GetMeanAndStdFluxInRange(TFloat64Range(l0, l1), mm, ss);
  c.check(ret == inside, "range-status", vh::fmt("statistics over [%.17g,%.17g] of [%.17g,%.17g]", l0, l1, lam.front(), lam.back()));
  if (inside && cnt > 2) {
    m /= sw;
    LD mx = 0;
    for (int i = 0; i < n; ++i)
      if (lam[i] >= l0 && lam[i] <= l1)
        s2 += (v[i] - m) * (v[i] - m) / (LD(e[i]) * e[i]);
    c.close(mm, double(m), 1e-9, 1e-9 * sc, "range-mean", vh::fmt("mean over [%.17g,%.17g]", l0, l1));
    c.close(ss, double(std::sqrt(s2 / (sw - sw2 / sw))), 1e-6, 1e-7 * sc, "range-deviation", "deviation in range");
    TInt32Range ir = sp.GetSpectralAxis().GetIndexesAtWaveLengthRange(TFloat64Range(l0, l1));
    LD xx = 0, xy = 0;
    sw = m = mx = 0;
    for (int i = ir.GetBegin(); i <= ir.GetEnd(); ++i) {
      LD w = 1 / (LD(e[i]) * e[i]);
      sw += w, m += w * v[i], mx += w * lam[i];
    }
    m /= sw, mx /= sw;
    for (int i = ir.GetBegin(); i <= ir.GetEnd(); ++i) {
      LD w = 1 / (LD(e[i]) * e[i]);
      xx += w * (lam[i] - mx) * (lam[i] - mx), xy += w * (lam[i] - mx) * (v[i] - m);
    }
    c.check(sp.GetLinearRegInRange(TFloat64Range(l0, l1), la, lb), "range-status", "regression status");
    double slope = double(xy / xx), span = lam.back() - lam.front();
    c.close(la, slope, 1e-6, 1e-8 * sc / span, "range-regression", "slope");
    c.close(lb, double(m - xy / xx * mx), 1e-6, 1e-6 * sc, "range-regression", "intercept");
  }
}

// least-squares estimate of the curvature at z[iz]: returns the width or nan
static double refWidth(const V &z, const V &y, int iz, int half, bool three) {
  int a = std::max(iz - half, 0), b = std::min(iz + half, int(z.size()) - 1);
  if (!three) {
    LD s = 0, s2 = 0;
    for (int i = a; i <= b; ++i) {
      LD x = LD(z[i]) - z[iz];
      s += x * x * (LD(y[iz]) - y[i]), s2 += x * x * x * x;
    }
    LD c0 = s / s2;
    return c0 > 0 ? double(std::sqrt(1 / c0)) : NAN;
  }
  if (b - a + 1 < 3)
    return NAN;
  // normal equations on scaled abscissae
  LD sc = std::max(LD(z[b]) - z[iz], LD(z[iz]) - z[a]);
  LD A[3][4] = {};
  for (int i = a; i <= b; ++i) {
    LD x = (LD(z[i]) - z[iz]) / sc, f[3] = {1, x, x * x};
    for (int p = 0; p < 3; ++p) {
      for (int q = 0; q < 3; ++q)
        A[p][q] += f[p] * f[q];
      A[p][3] += f[p] * (LD(y[iz]) - y[i]);
    }
  }
  for (int p = 0; p < 3; ++p)
    for (int q = p + 1; q < 3; ++q) {
      LD k = A[q][p] / A[p][p];
      for (int m = p; m < 4; ++m)
        A[q][m] -= k * A[p][m];
    }
  LD c2 = A[2][3] / A[2][2] / (sc * sc);
  return c2 > 0 ? double(std::sqrt(1 / c2)) : NAN;
}
VH_CASE(peak_width, 3000, 60000) {
  int n = c.r.i(1, 40);
  V z(n), y(n);
  double st = c.r.logd(1e-5, 1e-1), z0 = c.r.d(0, 6);
  int sampling = c.r.i(0, 2);
  for (int i = 0; i < n; ++i)
    z[i] = i == 0 ? z0 : sampling == 0 ? z[i - 1] + st : sampling == 1 ? z[i - 1] + st * (1 + z[i - 1]) : z[i - 1] + st * c.r.logd(0.2, 4);
  int iz = c.r.b(0.2) ? (c.r.b() ? 0 : n - 1) : c.r.i(0, n - 1);
  double w = st * c.r.logd(0.2, 50), off = c.r.d(-1e3, 1e3);
  int kind = c.r.i(0, 3);
  double mu = kind == 1 ? z[iz] + st * c.r.d(-0.5, 0.5) : z[iz];
  double sgn = kind == 3 && c.r.b() ? -1 : 1; // inverted curve: no width
  for (int i = 0; i < n; ++i) {
    double t = (z[i] - mu) / w;
    y[i] = off - sgn * t * t;
    if (kind >= 2)
      y[i] += c.r.g() * c.r.logd(0.01, 3);
  }
  c.sigv(z);
  c.sigv(y);
  c.nontrivial = n >= 3;
  c.note(vh::fmt("n=%d iz=%d kind=%d w=%g z=%s y=%s", n, iz, kind, w, vh::vec(z).c_str(), vh::vec(y).c_str()));
  for (int three = 0; three < 2; ++three) {
    CDeltaz d;
    double got = d.GetDeltaz(z, y, z[iz], three);
    bool exact = (kind == 0 || (kind == 1 && three)) && n >= 3;
    // a parabola is recovered exactly up to the rounding of its samples
    double drop = std::pow(std::max(z[std::min(n - 1, iz + 5)] - z[iz], z[iz] - z[std::max(0, iz - 5)]) / w, 2);
    double rel = 1e-6 + 1e-11 * (std::fabs(off) + 1) / std::min(1.0, drop) * (kind == 1 ? 10 : 1);
    if (exact && drop > 1e-3)
      c.close(got, w, rel * 20, 0, three ? "parabola-width-3" : "parabola-width", vh::fmt("gslfit=%d", three));
    double want = n == 1 ? NAN : refWidth(z, y, iz, 5, three);
    if (std::isnan(want) && n > 1)
      want = refWidth(z, y, iz, 2, three);
    if (std::isnan(want))
      want = 0.001;
    if (n == 1 && !three)
      continue; // 0/0: documented nowhere
    if (n == 2 && three)
      want = 0.001;
    // near-zero curvature is decided by rounding: accept either branch
    double span = std::max(z[std::min(n - 1, iz + 5)] - z[iz], z[iz] - z[std::max(0, iz - 5)]);
    if (want > 1e3 * span || got > 1e3 * span)
      continue;
    if (want == 0.001 || got == 0.001) {
      double c2a = refWidth(z, y, iz, 5, three), c2b = refWidth(z, y, iz, 2, three);
      if ((!std::isnan(c2a) && c2a > 300 * span) || (!std::isnan(c2b) && c2b > 300 * span))
        continue;
    }
    c.close(got, want, 1e-4, 0, three ? "least-squares-width-3" : "least-squares-width", vh::fmt("gslfit=%d", three));
  }
  // an inexact redshift or an empty grid is refused
  CDeltaz d;
  double q = iz + 1 < n ? 0.5 * (z[iz] + z[iz + 1]) : z[n - 1] + st;
  if (std::find(z.begin(), z.end(), q) == z.end())
    c.check(vh::throwsAmz([&] { d.GetDeltaz(z, y, q, 0); }), "off-grid-refused", "width of a redshift outside the grid");
  c.check(vh::throwsAmz([&] { d.GetDeltaz({}, {}, 1., 0); }), "empty-refused", "width on an empty grid");
}

// covariance of the model parameters at the solution: (J^T J)^-1
static bool gaussCov(const V &x, double A, double mu, double cc, const double *p, int order, std::vector<LD> &sd) {
  int np = 3 + order + 1;
  std::vector<std::vector<LD>> M(np, std::vector<LD>(2 * np, 0));
  V scale(np, 1);
  for (size_t i = 0; i < x.size(); ++i) {
    LD t = x[i] - mu, e = std::exp(-t * t / (LD(cc) * cc));
    std::vector<LD> g(np);
    g[0] = e;
    LD dp = 0;
    for (int k = 1; k <= order; ++k)
      dp -= k * std::pow(t, k - 1) * p[k];
    g[1] = 2 * A / (LD(cc) * cc) * t * e + dp;
    g[2] = 2 * A / (LD(cc) * cc) * t * t * e / cc;
    for (int k = 0; k <= order; ++k)
      g[3 + k] = std::pow(t, k);
    for (int a = 0; a < np; ++a)
      for (int b = 0; b < np; ++b)
        M[a][b] += g[a] * g[b];
  }
  std::vector<LD> D(np);
  for (int a = 0; a < np; ++a)
    D[a] = std::sqrt(M[a][a]);
  for (int a = 0; a < np; ++a)
    for (int b = 0; b < np; ++b)
      M[a][b] /= D[a] * D[b];
  for (int a = 0; a < np; ++a)
    M[a][np + a] = 1;
  for (int a = 0; a < np; ++a) {
    int piv = a;
    for (int b = a; b < np; ++b)
      if (std::fabs(M[b][a]) > std::fabs(M[piv][a]))
        piv = b;
    std::swap(M[a], M[piv]);
    if (std::fabs(M[a][a]) < 1e-12L)
      return false;
    LD k = M[a][a];
    for (auto &q : M[a])
      q /= k;
    for (int b = 0; b < np; ++b)
      if (b != a) {
        LD f = M[b][a];
        for (int q = 0; q < 2 * np; ++q)
          M[b][q] -= f * M[a][q];
      }
  }
  sd.resize(np);
  for (int a = 0; a < np; ++a)
    sd[a] = std::sqrt(M[a][np + a]) / D[a];
  return true;
}
VH_CASE(gaussian_line, 500, 8000) {
  double sigma = c.r.logd(2, 30), mu = c.r.d(3000, 9000), A = c.r.logd(0.5, 50);
  int half = c.r.i(25, 60);
  double st = sigma * c.r.d(4.5, 7) / half;
  int n = 2 * half + 1, pre = c.r.i(0, 30), post = c.r.i(0, 30), N = n + pre + post;
  double shift = st * c.r.d(-8, 8), p0 = c.r.d(-2, 2) * A, p1 = c.r.b() ? 0 : c.r.d(-0.2, 0.2) * A / (half * st);
  V x(N), y(N);
  for (int i = 0; i < N; ++i) {
    x[i] = mu + (i - pre - half) * st + shift;
    double t = x[i] - mu;
    y[i] = A * std::exp(-t * t / (2 * sigma * sigma)) + p0 + p1 * t;
    if (i < pre || i >= pre + n)
      y[i] = 1e3 * A * c.r.g(); // outside the study range: must not matter
  }
  c.sigv(y);
  c.nontrivial = true;
  c.note(vh::fmt("A=%g mu=%g sigma=%g p0=%g p1=%g n=%d step=%g", A, mu, sigma, p0, p1, n, st));
  CSpectrum sp{CSpectrumSpectralAxis(x), CSpectrumFluxAxis(y)};
  CGaussianFit fit;
  auto status = fit.Compute(sp, TInt32Range(pre, pre + n));
  c.check(status == CGaussianFit::nStatus_Success, "fit-status", vh::fmt("status %d", int(status)));
  double a, m, w, k;
  fit.GetResults(a, m, w);
  fit.GetResultsPolyCoeff0(k);
  c.close(a, A, 1e-5, 0, "line-amplitude", "amplitude");
  c.close(m, mu, 0, 1e-5 * sigma, "line-position", "position");
  c.close(w, sigma, 1e-5, 0, "line-width", "width");
  c.close(k, p0, 1e-5, 1e-5 * A, "line-background", "background at the line");
  double ea, em, ew;
  fit.GetResultsError(ea, em, ew);
  double pp[3] = {p0, p1, 0};
  std::vector<LD> sd;
  if (gaussCov(V(x.begin() + pre, x.begin() + pre + n), A, mu, sigma * std::sqrt(2.), pp, 2, sd)) {
    c.close(ea, double(sd[0]), 1e-3, 0, "line-amplitude-error", "error of the amplitude");
    c.close(em, double(sd[1]), 1e-3, 0, "line-position-error", "error of the position");
    c.close(ew, double(sd[2]) / std::sqrt(2.), 1e-3, 0, "line-width-error", "error of the width");
  }
  CGaussianFit f2;
  c.check(f2.Compute(sp, TInt32Range(pre, pre + c.r.i(0, 5))) == CGaussianFit::nStatus_IllegalInput, "too-few-samples-refused", "too few samples");
}

VH_CASE(polynomials, 1000, 10000) {
  double a0 = c.r.d(-5, 5), a1 = c.r.d(-5, 5), a2 = c.r.d(-5, 5), x0 = c.r.d(-10, 10), s = c.r.logd(0.1, 10);
  c.sig(a0);
  c.sig(x0);
  c.nontrivial = true;
  TPolynomCoeffs p(TFloat64List{a0, a1, a2});
  CPolynomCoeffsNormalized q(x0, s);
  q.setCoeffs(a0, a1, a2);
  double b0, b1, b2;
  q.getCoeffs(b0, b1, b2);
  double mag = 1e-12 * (1 + std::fabs(a0) + std::fabs(a1 * x0) + std::fabs(a2 * x0 * x0)) * 10;
  c.close(b0, a0, 1e-11, mag, "polynomial-coefficients", "a0");
  c.close(b1, a1, 1e-11, mag, "polynomial-coefficients", "a1");
  c.close(b2, a2, 1e-11, mag, "polynomial-coefficients", "a2");
  for (int k = 0; k < 6; ++k) {
    double x = c.r.d(-20, 20), want = a0 + a1 * x + a2 * x * x, tol = 1e-11 * (std::fabs(a0) + std::fabs(a1 * x) + std::fabs(a2) * (x * x + x0 * x0) + 1);
    TFloat64List g, h;
    c.close(p.getValue(x), want, 0, tol, "polynomial-value", "value");
    c.close(q.getValue(x), want, 0, tol, "polynomial-value", "normalised value");
    c.close(p.getValueAndGrad(x, g), want, 0, tol, "polynomial-value", "value");
    c.close(q.getValueAndGrad(x, h), want, 0, tol, "polynomial-value", "normalised value");
    c.check(g.size() == 3 && g[0] == 1 && g[1] == x && g[2] == x * x, "polynomial-gradient", vh::vec(g));
    // derivative of the normalised polynomial with respect to its own coefficients
    double xr = (x - x0) / s;
    c.check(h.size() == 3 && h[0] == 1 && std::fabs(h[1] - xr) < 1e-12 * (std::fabs(x) + std::fabs(x0)) / s + 1e-13 && std::fabs(h[2] - xr * xr) < 1e-9 * (1 + xr * xr),
            "polynomial-gradient", vh::vec(h));
  }
  c.check(vh::throwsAmz([&] { TPolynomCoeffs bad(TFloat64List(c.r.i(0, 2), 1.)); }), "polynomial-size-refused", "too few coefficients");
}

// prior tables written to a scratch directory
struct Tree {
  fs::path d;
  Tree() {
    char t[] = "/tmp/vh-prior-XXXXXX";
    d = mkdtemp(t);
  }
  ~Tree() { fs::remove_all(d); }
};
static void writeRows(const fs::path &p, const std::vector<V> &rows) {
  fs::create_directories(p.parent_path());
  std::ofstream o(p);
  o << "# header\n";
  for (auto &r : rows) {
    for (double x : r)
      o << vh::fmt("%.17g ", x);
    o << "\n";
  }
}
VH_CASE(prior_tables, 150, 3000) {
  Tree t;
  int type = c.r.i(0, 1);
  std::string part = type ? "lines" : "continuum";
  int nt = c.r.i(1, 3);
  const int NZ = 24, NE = 10;
  std::vector<std::vector<V>> p(nt), mu(nt), sg(nt);
  std::vector<std::string> names(nt);
  for (int k = 0; k < nt; ++k) {
    for (auto *q : {&p[k], &mu[k], &sg[k]})
      for (int z = 0; z < NZ; ++z) {
        V row(NE);
        for (auto &x : row)
          x = c.r.logd(1e-8, 1);
        q->push_back(row);
      }
    std::string tn = vh::fmt("tpl%d.txt", k);
    names[k] = "prior_" + part + "_hist_Ebmvc_Z_Tplc_" + tn;
    writeRows(t.d / ("prior_" + part + "_hist_Ebmvr_Z") / names[k], p[k]);
    writeRows(t.d / ("prior_" + part + "_gaussmean_Ac_Z") / ("prior_" + part + "_gaussmean_Ac_Z_Tplc_" + tn), mu[k]);
    writeRows(t.d / ("prior_" + part + "_gausssigma_Ac_Z") / ("prior_" + part + "_gausssigma_Ac_Z_Tplc_" + tn), sg[k]);
  }
  V pz(NZ);
  std::vector<V> pzr;
  for (auto &x : pz) {
    x = c.r.b(0.1) ? 0 : c.r.logd(1e-4, 1);
    pzr.push_back({x});
  }
  writeRows(t.d / ("prior_" + part + "_hist_Z") / ("prior_" + part + "_hist_Z.txt"), pzr);
  c.nontrivial = true;
  c.sigv(pz);
  CPriorHelper h;
  h.Init(t.d.string(), type);
  c.check(!h.mInitFailed, "prior-init", "initialisation failed");
  CPriorHelper::TPriorZEList none;
  c.check(vh::throwsAmz([&] { h.GetTplPriorData(names[0], {0.1}, none); }), "prior-coefficients-required", "priors without coefficients");
  double bA = c.r.d(0, 2), bTE = c.r.d(0.1, 2), bZ = c.r.d(0, 2);
  h.SetBetaA(bA), h.SetBetaTE(bTE), h.SetBetaZ(bZ);
  V zs;
  for (int k = 0; k < 12; ++k)
    zs.push_back(c.r.b(0.2) ? 0.25 * c.r.i(0, 26) : c.r.d(0, 7.5));
  for (int k = 0; k < nt; ++k) {
    CPriorHelper::TPriorZEList out;
    h.GetTplPriorData(names[k], zs, out);
    if (!c.check(out.size() == zs.size(), "prior-size", vh::fmt("%zu rows for %zu redshifts", out.size(), zs.size())))
      return;
    for (size_t i = 0; i < zs.size(); ++i) {
      int iz = std::min(NZ - 1, std::max(0, int(std::floor(zs[i] / 0.25))));
      c.check(out[i].size() == NE, "prior-size", "number of reddenings");
      for (int e = 0; e < NE && e < int(out[i].size()); ++e) {
        auto &q = out[i][e];
        std::string w = vh::fmt("template %d z=%.17g ebv %d", k, zs[i], e);
        c.close(q.logprior_precompTE, std::log(p[k][iz][e]), 1e-12, 1e-12, "prior-template", w);
        c.close(q.logprior_precompA, -0.5 * std::log(2 * M_PI) - std::log(sg[k][iz][e]), 1e-12, 1e-12, "prior-amplitude", w);
        c.close(q.logprior_precompZ, pz[iz] > 0 ? std::log(pz[iz] / 0.25) : 0, 1e-12, 1e-12, "prior-redshift", w);
        c.close(q.A_mean, mu[k][iz][e], 1e-14, 0, "prior-mean", w);
        c.close(q.A_sigma, sg[k][iz][e], 1e-14, 0, "prior-sigma", w);
        c.check(q.betaA == bA && q.betaTE == bTE && q.betaZ == bZ, "prior-beta", w);
      }
      int e = c.r.i(0, NE - 1);
      auto one = h.GetTZEPriorData(names[k], e, zs[i]);
      c.check(one.logprior_precompTE == out[i][e].logprior_precompTE && one.A_mean == out[i][e].A_mean, "prior-single", "single lookup");
    }
  }
  double over = 6 + c.r.d(0.001, 3);
  c.check(vh::throwsAmz([&] { h.GetTplPriorData(names[0], {over}, none, 1); }), "prior-range-refused", vh::fmt("z=%g beyond the table", over));
  c.check(vh::throwsAmz([&] { h.GetTplPriorData("other", {0.1}, none); }), "prior-name-refused", "unknown template");
  c.check(vh::throwsAmz([&] { h.GetTZEPriorData(names[0], c.r.b() ? -1 : NE, 0.1); }), "prior-ebv-refused", "reddening index out of range");
}
VH_CASE(prior_bad_tables, 60, 600) {
  // too few or too many rows: refused, not read past the end
  Tree t;
  int which = c.r.i(0, 3), rows[4] = {24, 24, 24, 24};
  rows[which] = c.r.b(0.8) || which < 3 ? c.r.i(0, 23) : 25;
  const char *dirs[] = {"prior_continuum_hist_Ebmvr_Z", "prior_continuum_gaussmean_Ac_Z", "prior_continuum_gausssigma_Ac_Z", "prior_continuum_hist_Z"};
  const char *fn[] = {"prior_continuum_hist_Ebmvc_Z_Tplc_a.txt", "prior_continuum_gaussmean_Ac_Z_Tplc_a.txt", "prior_continuum_gausssigma_Ac_Z_Tplc_a.txt", "prior_continuum_hist_Z.txt"};
  for (int k = 0; k < 4; ++k)
    writeRows(t.d / dirs[k] / fn[k], std::vector<V>(rows[k], V(k == 3 ? 1 : 10, 0.5)));
  c.nontrivial = true;
  c.sig(which * 100 + rows[which]);
  c.note(vh::fmt("%s has %d rows", fn[which], rows[which]));
  CPriorHelper h;
  bool refused = vh::throwsAmz([&] { h.Init(t.d.string(), 0); });
  c.check(refused || h.mInitFailed, "prior-rows-refused", "table with a wrong number of rows accepted");
}
VH_MAIN
