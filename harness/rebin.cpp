// C10: resampling against an independent evaluation of each interpolation, and logarithmic rebinning of spectra and templates.
#include "ctx.h"
#include "RedshiftLibrary/common/mask.h"
#include "RedshiftLibrary/spectrum/logrebinning.h"
using namespace NSEpic;
using gen::V;
typedef long double LD;

// natural cubic spline through (x,y)
struct Spline {
  V x, y;
  std::vector<LD> m;
  Spline(const V &x_, const V &y_) : x(x_), y(y_), m(x_.size(), 0) {
    int n = x.size();
    std::vector<LD> c(n, 0), d(n, 0);
    for (int i = 1; i + 1 < n; ++i) {
      LD h0 = (LD)x[i] - x[i - 1], h1 = (LD)x[i + 1] - x[i];
      LD rhs = 6 * (((LD)y[i + 1] - y[i]) / h1 - ((LD)y[i] - y[i - 1]) / h0), a = h0, b = 2 * (h0 + h1);
      LD w = b - a * c[i - 1];
      c[i] = h1 / w;
      d[i] = (rhs - a * d[i - 1]) / w;
    }
    for (int i = n - 2; i >= 1; --i)
      m[i] = d[i] - c[i] * m[i + 1];
  }
  double operator()(double v) const {
    int i = int(std::upper_bound(x.begin(), x.end(), v) - x.begin()) - 1;
    i = std::max(0, std::min(i, int(x.size()) - 2));
    LD h = (LD)x[i + 1] - x[i], a = (x[i + 1] - (LD)v) / h, b = ((LD)v - x[i]) / h;
    return double(a * y[i] + b * y[i + 1] + ((a * a * a - a) * m[i] + (b * b * b - b) * m[i + 1]) * h * h / 6);
  }
};
static const char *METHODS[4] = {"lin", "spline", "ngp", "preComputedFineGrid"};
static const char *ERRS[3] = {"no", "rebin", "rebinVariance"};

static V target(vh::Rng &r, const V &src) {
  double lo = src.front(), hi = src.back(), span = hi - lo;
  switch (r.i(0, 5)) {
  case 0:
    return src;
  case 1: { // sub-sequence
    V o;
    for (double x : src)
      if (r.b(0.6))
        o.push_back(x);
    if (o.size() < 2)
      return src;
    return o;
  }
  case 2: { // shares samples and has others between and outside
    V o;
    for (size_t i = 0; i < src.size(); ++i) {
      if (r.b(0.5))
        o.push_back(src[i]);
      if (i + 1 < src.size() && r.b(0.5))
        o.push_back(src[i] + (src[i + 1] - src[i]) * r.d(0.01, 0.99));
    }
    if (r.b(0.4))
      o.insert(o.begin(), lo - span * r.d(0.001, 0.3));
    if (r.b(0.4))
      o.push_back(hi + span * r.d(0.001, 0.3));
    if (o.size() < 2)
      return src;
    return o;
  }
  default: { // independent axis, finer or coarser
    int n = r.i(2, 150);
    V o(n);
    double a = lo + span * r.d(-0.3, 0.6), b = a + span * r.d(0.05, 1.2), p = r.b(0.5) ? 1 : r.d(0.6, 1.6);
    for (int i = 0; i < n; ++i)
      o[i] = a + (b - a) * std::pow(double(i) / (n - 1), p);
    return o;
  }
  }
}

// checks one rebinned spectrum against the definition
static void checkRebin(vh::Case &c, const V &x, const V &y, const V &e, int method, int err, double a, double b, const V &t, const CSpectrum &out,
                       const CMask &mask, const std::string &ctx) {
  int n = x.size(), m = t.size();
  if (!c.check(int(out.GetSampleCount()) == m && int(out.GetFluxAxis().GetSamplesCount()) == m && int(mask.GetMasksCount()) == m, "sizes",
               ctx + vh::fmt(": %zu samples, mask %d, target %d", (size_t)out.GetSampleCount(), int(mask.GetMasksCount()), m)))
    return;
  c.check(out.GetSpectralAxis().GetSamplesVector() == t, "target-axis", ctx + ": rebinned spectrum not on the target axis");
  const V &f = out.GetRawFluxAxis().GetSamplesVector();
  const V &er = out.GetRawFluxAxis().GetError().GetSamplesVector();
  c.check(int(er.size()) == m, "sizes", ctx + ": error size");
  double ys = 0;
  for (double v : y)
    ys = std::max(ys, std::fabs(v));
  Spline *sp = nullptr;
  Spline s0(x, y);
  sp = &s0;
  int covered = 0;
  for (int i = 0; i < m; ++i) {
    std::string w = ctx + vh::fmt(" method %s errors %s target[%d]=%.17g range [%.17g,%.17g] source [%.17g,%.17g] n=%d", METHODS[method], ERRS[err], i, t[i], a, b,
                                  x.front(), x.back(), n);
    bool in = t[i] >= a && t[i] <= b, out_src = t[i] < x.front() || t[i] > x.back();
    if (!in && (out_src || t[i] < a || mask[i] == 0)) {
      c.eq(mask[i], 0, "uncovered-masked", w);
      c.eq(f[i], 0, "uncovered-zero-flux", w);
      if (err)
        c.check(std::isinf(er[i]) && er[i] > 0, "uncovered-error", w + vh::fmt(" error %.17g", er[i]));
      continue;
    }
    if (in) {
      c.eq(mask[i], 1, "covered-unmasked", w);
      covered++;
    }
    int k = int(std::upper_bound(x.begin(), x.end(), t[i]) - x.begin()) - 1;
    k = std::max(0, std::min(k, n - 2));
    double tt = (t[i] - x[k]) / (x[k + 1] - x[k]);
    double comp = std::sqrt((x[k + 1] - x[k]) / (i + 1 < m ? t[i + 1] - t[i] : t[i] - t[i - 1]));
    if (method == 0) {
      c.close(f[i], y[k] + (y[k + 1] - y[k]) * tt, 1e-12, 1e-12 * ys, "linear-value", w);
      if (err == 1)
        c.close(er[i], e[k] + (e[k + 1] - e[k]) * tt, 1e-11, 0, "linear-error", w);
      if (err == 2) {
        // exactly on a source sample either neighbouring step may be used
        double v = std::sqrt(e[k] * e[k] * (1 - tt) * (1 - tt) + e[k + 1] * e[k + 1] * tt * tt) * comp;
        if (tt == 0 && k > 0) {
          double v2 = e[k] * std::sqrt((x[k] - x[k - 1]) / (i + 1 < m ? t[i + 1] - t[i] : t[i] - t[i - 1]));
          c.check(std::fabs(er[i] - v) <= 1e-11 * v || std::fabs(er[i] - v2) <= 1e-11 * v2, "linear-variance", w + vh::fmt(" got %.17g want %.17g or %.17g", er[i], v, v2));
        } else
          c.close(er[i], v, 1e-11, 0, "linear-variance", w);
      }
      if (t[i] == x[k] || t[i] == x[k + 1])
        c.close(f[i], t[i] == x[k] ? y[k] : y[k + 1], 1e-13, 1e-13 * ys, "own-sample", w);
    } else if (method == 1) {
      c.close(f[i], (*sp)(t[i]), 1e-9, 1e-9 * ys, "spline-value", w);
      c.check(err == 0, "spline-error-refused", w + ": error interpolation accepted");
    } else if (method == 2) {
      double d0 = t[i] - x[k], d1 = x[k + 1] - t[i];
      if (std::fabs(d0 - d1) < 1e-9 * (x[k + 1] - x[k]))
        continue;
      int j = d0 < d1 ? k : k + 1;
      c.eq(f[i], y[j], "nearest-value", w);
      double st = j == n - 1 ? x[j] - x[j - 1] : x[j + 1] - x[j];
      if (err == 1)
        c.eq(er[i], e[j], "nearest-error", w);
      if (err == 2)
        c.close(er[i], e[j] * std::sqrt(st / (i + 1 < m ? t[i + 1] - t[i] : t[i] - t[i - 1])), 1e-12, 0, "nearest-variance", w);
    } else {
      double q = (t[i] - x.front()) / 0.1;
      if (std::fabs(q - std::floor(q) - 0.5) < 1e-6)
        continue;
      double g = std::min(x.front() + 0.1 * std::round(q), x.back());
      c.close(f[i], (*sp)(g), 1e-8, 1e-8 * ys, "finegrid-value", w);
      c.check(err == 0, "finegrid-error-refused", w + ": error interpolation accepted");
    }
  }
  if (covered)
    c.nontrivial = true;
}

VH_CASE(rebin, 6000, 80000) {
  int n = c.r.b(0.2) ? c.r.i(3, 6) : c.r.i(3, 80);
  V x = gen::axis(c.r, n, 1000, c.r.b() ? 1300 : 6000), y = gen::flux(c.r, x, c.r.logd(1e-18, 10)), e = gen::noise(c.r, n, std::fabs(y[0]) + 1e-20);
  c.sigv(x);
  c.sigv(y);
  CSpectrum s(CSpectrumSpectralAxis(x), CSpectrumFluxAxis(y, CSpectrumNoiseAxis(e)));
  CSpectrum out;
  CMask mask;
  std::string hist;
  int method = 0;
  int steps = c.r.i(1, 6);
  for (int q = 0; q < steps; ++q) {
    // histories: change of method, flux, axis or amplitude, copies, between two resamplings
    int op = q == 0 ? 9 : c.r.i(0, 8);
    if (op == 0) {
      y = gen::flux(c.r, x), e = gen::noise(c.r, n, 0.1);
      s.SetFluxAxis(CSpectrumFluxAxis(y, CSpectrumNoiseAxis(e)));
      hist += " setflux";
    } else if (op == 1) {
      V x2 = x;
      double sh = c.r.d(0.5, 2);
      for (auto &v : x2)
        v *= sh;
      x = x2;
      s.SetSpectralAxis(CSpectrumSpectralAxis(x));
      hist += " setaxis";
    } else if (op == 2) {
      double am = c.r.d(-3, 3);
      s.ApplyAmplitude(am);
      for (auto &v : y)
        v *= am;
      for (auto &v : e)
        v *= std::fabs(am);
      // the library scales the error with the amplitude or keeps it: read it back
      e = s.GetErrorAxis().GetSamplesVector();
      hist += vh::fmt(" amplitude %g", am);
    } else if (op == 3) {
      CSpectrum t(s);
      s = t;
      hist += " copy";
    } else if (op == 4) {
      CSpectrum t(std::move(s));
      s = std::move(t);
      hist += " move";
    } else if (op == 5) {
      s.InvertFlux();
      for (auto &v : y)
        v = -v;
      hist += " invert";
    } else if (op == 6) {
      n = c.r.i(3, 40);
      x = gen::axis(c.r, n), y = gen::flux(c.r, x), e = gen::noise(c.r, n, 0.1);
      s.SetSpectralAndFluxAxes(CSpectrumSpectralAxis(x), CSpectrumFluxAxis(y, CSpectrumNoiseAxis(e)));
      hist += " setboth";
    }
    if (q == 0 || c.r.b(0.4)) {
      method = c.r.i(0, 3);
      s.setRebinInterpMethod(METHODS[method]);
      hist += vh::fmt(" %s", METHODS[method]);
    }
    int err = c.r.i(0, 2);
    V t = target(c.r, x);
    double a = c.r.b(0.4) ? x.front() : c.r.b() ? c.r.pick(x) : c.r.d(x.front(), x.back());
    double b = c.r.b(0.4) ? x.back() : c.r.b() ? c.r.pick(x) : c.r.d(x.front(), x.back());
    if (a > b)
      std::swap(a, b);
    bool outside = c.r.b(0.05);
    if (outside)
      (c.r.b() ? a : b) = c.r.b() ? x.front() - c.r.d(0.001, 5) : x.back() + c.r.d(0.001, 5);
    if (a > b)
      std::swap(a, b);
    c.note(vh::fmt("n=%d history:%s", n, hist.c_str()) + " axis " + vh::vec(x, 6));
    if (c.r.b(0.3)) {
      out = CSpectrum();
      mask = CMask();
    }
    if (outside) {
      c.check(vh::throwsAmz([&] { s.Rebin(TFloat64Range(a, b), CSpectrumSpectralAxis(t), out, mask, ERRS[err]); }), "range-outside-source-refused",
              vh::fmt("range [%.17g,%.17g] source [%.17g,%.17g]", a, b, x.front(), x.back()));
      out = CSpectrum();
      continue;
    }
    if ((method == 1 || method == 3) && err) {
      int in = 0;
      for (double v : t)
        in += v >= a && v <= b;
      bool th = vh::throwsAmz([&] { s.Rebin(TFloat64Range(a, b), CSpectrumSpectralAxis(t), out, mask, ERRS[err]); });
      if (in)
        c.check(th, method == 1 ? "spline-error-refused" : "finegrid-error-refused", "error interpolation accepted");
      out = CSpectrum();
      continue;
    }
    s.Rebin(TFloat64Range(a, b), CSpectrumSpectralAxis(t), out, mask, ERRS[err]);
    checkRebin(c, x, y, e, method, err, a, b, t, out, mask, vh::fmt("resampling %d", q));
    c.check(s.GetSpectralAxis().GetSamplesVector() == x && s.GetRawFluxAxis().GetSamplesVector() == y, "source-untouched", "source changed by its resampling");
  }
}
VH_CASE(method_name, 40, 400) {
  V x = gen::axis(c.r, 5);
  CSpectrum s(CSpectrumSpectralAxis(x), CSpectrumFluxAxis(V(5, 1.)));
  c.nontrivial = true;
  c.sigv(x);
  const char *bad[] = {"linear", "", "LIN", "precomputedfinegrid", "nearest", "splines"};
  c.check(vh::throwsAmz([&] { s.setRebinInterpMethod(bad[c.r.i(0, 5)]); }), "unknown-method-refused", "unknown method accepted");
}

// whole-context logarithmic rebinning ------------------------------------------------
struct Cat {
  std::shared_ptr<CTemplateCatalog> cat = std::make_shared<CTemplateCatalog>(0);
  std::vector<V> lam, flux;
};
static std::string json(double lo, double hi, double z0, double z1, double step, int ratio) {
  return vh::fmt("{\"lambdaRange\":[%.17g,%.17g],\"smoothWidth\":0.0,\"templateCatalog\":{\"continuumRemoval\":{\"method\":\"zero\",\"medianKernelWidth\":75,"
                 "\"medianEvenReflection\":true}},\"continuumRemoval\":{\"method\":\"zero\",\"medianKernelWidth\":75,\"medianEvenReflection\":true},"
                 "\"lsf\":{\"lsfType\":\"gaussianConstantWidth\",\"width\":2.0},\"autoCorrectInput\":false,\"spectrumModels\":[\"galaxy\"],"
                 "\"galaxy\":{\"redshiftRange\":[%.17g,%.17g],\"redshiftStep\":%.17g,\"redshiftSampling\":\"log\",\"stages\":[\"redshiftSolver\"],"
                 "\"redshiftSolver\":{\"method\":\"%s\",\"templateFittingSolve\":{\"fftProcessing\":true},"
                 "\"lineModelSolve\":{\"lineModel\":{\"continuumComponent\":\"noContinuum\",\"continuumFit\":{\"fftProcessing\":true},\"firstPass\":{\"largeGridStepRatio\":%d}}}}}}",
                 lo, hi, z0, z1, step, ratio > 1 ? "lineModelSolve" : "templateFittingSolve", ratio);
}
static double lin(const V &x, const V &y, double v, bool &ok) {
  int k = int(std::upper_bound(x.begin(), x.end(), v) - x.begin()) - 1;
  k = std::max(0, std::min(k, int(x.size()) - 2));
  ok = v >= x.front() - 1e-7 && v <= x.back() + 1e-7;
  return y[k] + (y[k + 1] - y[k]) * (v - x[k]) / (x[k + 1] - x[k]);
}
VH_CASE(log_rebin, 400, 8000) {
  Cat k;
  int ntpl = c.r.i(1, 3);
  double step = c.r.pick(V{1e-4, 2e-4, 5e-4, 1e-3});
  double z0 = c.r.b(0.3) ? 0 : c.r.d(0, 3), z1 = (1 + z0) * std::exp(step * (c.r.b(0.4) ? c.r.i(1, 40) : c.r.d(1, 60))) - 1;
  double lo = c.r.d(3000, 9000);
  double hi = lo * std::exp(step * (c.r.b(0.3) ? c.r.i(4, 200) : c.r.d(4, 200)));
  int ratio = c.r.b(0.6) ? 1 : c.r.i(2, 5);
  double tl = lo / (1 + z1) * std::exp(-step * 12) - 5, th = hi / (1 + z0) * std::exp(step * 8) + 5;
  bool shortTpl = c.r.b(0.05);
  for (int i = 0; i < ntpl; ++i) {
    int n = c.r.i(30, 400);
    V l(n);
    double a = tl - c.r.d(0, 50), b = th + c.r.d(0, 50);
    if (shortTpl && i == ntpl - 1) {
      if (c.r.b())
        b = lo / (1 + z0);
      else
        a = hi / (1 + z1);
    }
    for (int j = 0; j < n; ++j)
      l[j] = a + (b - a) * (j + (j && j + 1 < n ? c.r.d(-0.3, 0.3) : 0)) / (n - 1);
    V f = gen::flux(c.r, l);
    k.lam.push_back(l), k.flux.push_back(f);
    k.cat->Add(std::make_shared<CTemplate>(vh::fmt("t%d", i), "galaxy", CSpectrumSpectralAxis(l), CSpectrumFluxAxis(f)));
  }
  auto igm = cx::igm(c.r, 60, 2, 2, 2, 0.5);
  auto dust = cx::dust(c.r, 900, 12000, 20, 0, 0.1, 3);
  c.sig(lo), c.sig(hi), c.sig(z0), c.sig(step);
  // one or two spectra of different ranges handled one after the other with the same catalogue
  int nspc = c.r.i(1, 2);
  for (int q = 0; q < nspc; ++q) {
    if (q) { // a range inside the previous one, on another grid phase
      double f = std::exp(step * c.r.d(0, 3)), g = std::exp(step * c.r.d(0, 3));
      lo *= f, hi /= g;
      if (hi < lo * std::exp(4 * step))
        break;
    }
    bool logIn = c.r.b(0.3);
    double useStep = step;
    V x;
    if (logIn) {
      double a = lo * std::exp(-step * c.r.d(-1.5, 3));
      int n = int(std::log(hi / a) / step) + c.r.i(-1, 4), lead = std::max(0, 320 - n); // the step of a log-sampled input is refined from many samples
      a *= std::exp(-step * lead), n += lead;
      if (n < 6)
        c.skip();
      for (int i = 0; i < n; ++i)
        x.push_back(a * std::exp(step * i));
    } else {
      double a = lo + (hi - lo) * c.r.d(-0.1, 0.1), b = hi + (hi - lo) * c.r.d(-0.1, 0.1);
      if (c.r.b(0.1))
        a = lo;
      if (c.r.b(0.1))
        b = hi;
      int n = c.r.i(20, 300);
      for (int i = 0; i < n; ++i)
        x.push_back(a + (b - a) * (i + (i && i + 1 < n ? c.r.d(-0.3, 0.3) : 0)) / (n - 1));
    }
    int n = x.size();
    V y = gen::flux(c.r, x, 3), e = gen::noise(c.r, n, 0.1);
    for (auto &v : y)
      v += 20;
    auto spc = cx::spectrum(x, y, e);
    spc->SetLSF(cx::lsfWidth(2.));
    auto ss = std::make_shared<CScopeStack>();
    auto ps = std::make_shared<CParameterStore>(ss);
    ps->FromString(json(lo, hi, z0, z1, step, ratio));
    CInputContext ic(ps);
    ic.addSpectrum(spc);
    ic.setTemplateCatalog(k.cat);
    ic.setfluxCorrectionCalzetti(dust);
    ic.setfluxCorrectionMeiksin(igm);
    c.note(vh::fmt("spectrum %d %s n=%d [%.17g,%.17g] lambdaRange [%.17g,%.17g] step %g z [%.17g,%.17g] ratio %d templates %d", q, logIn ? "log" : "linear", n, x[0],
                   x[n - 1], lo, hi, step, z0, z1, ratio, ntpl));
    if (shortTpl) {
      c.check(vh::throwsAmz([&] { ic.Init(); }), "template-coverage-refused", "template not covering the redshift range accepted");
      return;
    }
    ic.Init();
    c.nontrivial = true;
    c.check(ic.m_use_LogLambaSpectrum, "log-used", "log spectrum not used");
    auto rs = ic.GetRebinnedSpectrum();
    const V w = rs->GetSpectralAxis().GetSamplesVector();
    const V f = rs->GetRawFluxAxis().GetSamplesVector(), er = rs->GetErrorAxis().GetSamplesVector();
    double ref = lo; // reference of the grid phase
    if (logIn) {
      int a = 0, b = n - 1;
      while (a < n && x[a] < lo)
        a++;
      while (b >= 0 && x[b] > hi)
        b--;
      bool ok = int(w.size()) == b - a + 1;
      for (int i = a; ok && i <= b; ++i)
        ok = std::fabs(w[i - a] - x[i]) < 1e-9 * x[i] && f[i - a] == y[i] && er[i - a] == e[i];
      c.check(ok, "log-input-kept", vh::fmt("log-sampled input restricted to the range: %zu samples, %d expected", w.size(), b - a + 1));
      ref = x[a];
      c.close(ic.m_logGridStep, step, 1e-6, 0, "log-step", "step of the grid");
      useStep = ic.m_logGridStep;
    } else {
      c.eq(ic.m_logGridStep, step, "log-step", "step of the grid");
      int kmax = int(std::floor(std::log(hi / lo) / step + 1e-9));
      int k0 = int(std::ceil(std::log(std::max(lo, x[0]) / lo) / step - 1e-9)), k1 = std::min(kmax, int(std::floor(std::log(std::min(hi, x[n - 1]) / lo) / step + 1e-9)));
      double fk0 = std::log(std::max(lo, x[0]) / lo) / step, fk1 = std::log(std::min(hi, x[n - 1]) / lo) / step;
      bool amb = (std::fabs(fk0 - std::round(fk0)) < 1e-7 && x[0] > lo) || std::fabs(fk1 - std::round(fk1)) < 1e-7;
      if (!amb)
        c.eq(double(w.size()), k1 - k0 + 1, "log-size", "number of samples of the log grid");
      bool reg = true, inside = true;
      for (size_t i = 0; i < w.size(); ++i) {
        double kk = std::log(w[i] / lo) / step;
        reg = reg && std::fabs(kk - std::round(kk)) < 1e-6 && (!i || std::fabs(std::log(w[i] / w[i - 1]) - step) < 1e-9);
        inside = inside && w[i] >= std::max(lo, x[0]) * (1 - 1e-9) && w[i] <= std::min(hi, x[n - 1]) * (1 + 1e-9);
      }
      c.check(reg, "log-regular", "log grid not regular from the start of the range");
      c.check(inside, "log-inside", "log grid outside the source range");
      for (size_t i = 0; i < w.size(); ++i) {
        bool ok;
        double want = lin(x, y, w[i], ok);
        c.close(f[i], want, 1e-8, 1e-8, "log-flux", vh::fmt("sample %zu/%zu lambda %.17g", i, w.size(), w[i]));
        int kk = int(std::upper_bound(x.begin(), x.end(), w[i]) - x.begin()) - 1;
        kk = std::max(0, std::min(kk, n - 2));
        double t = (w[i] - x[kk]) / (x[kk + 1] - x[kk]);
        if (t < 1e-9 || t > 1 - 1e-9)
          continue;
        double v = std::sqrt(e[kk] * e[kk] * (1 - t) * (1 - t) + e[kk + 1] * e[kk + 1] * t * t) *
                   std::sqrt((x[kk + 1] - x[kk]) / (i + 1 < w.size() ? w[i + 1] - w[i] : w[i] - w[i - 1]));
        c.close(er[i], v, 1e-7, 0, "log-error", vh::fmt("sample %zu/%zu lambda %.17g", i, w.size(), w[i]));
      }
      c.check(rs->GetSpectralAxis().IsLogSampled(step), "log-detected", "rebinned axis not seen as log-sampled");
    }
    // templates: log-sampled with the same step, aligned with the spectrum at every redshift, covering the whole redshift range
    TFloat64Range zr = ic.m_logRebin.at("galaxy").zrange;
    c.close(zr.GetBegin(), z0, 1e-12, 1e-12, "redshift-range", "first redshift");
    double nz = std::log((1 + zr.GetEnd()) / (1 + zr.GetBegin())) / useStep / ratio;
    c.check(std::fabs(nz - std::round(nz)) < 1e-6 && zr.GetEnd() > z1 * (1 - 1e-9) - 1e-9 && (1 + zr.GetEnd()) < (1 + z1) * std::exp(useStep * ratio * (1 + 1e-9)), "redshift-range",
            vh::fmt("last redshift %.17g for %.17g, %g steps", zr.GetEnd(), z1, nz));
    c.eq(k.cat->GetTemplateCount("galaxy", false, true), ntpl, "template-count", "log-sampled templates");
    for (int i = 0; i < ntpl; ++i) {
      auto t = k.cat->GetTemplate("galaxy", i, false, true);
      c.check(t->GetName() == vh::fmt("t%d", i), "template-order", "order of the templates");
      const V &tw = t->GetSpectralAxis().GetSamplesVector(), &tf = t->GetFluxAxis().GetSamplesVector();
      bool reg = true;
      for (size_t j = 1; j < tw.size(); ++j)
        reg = reg && std::fabs(std::log(tw[j] / tw[j - 1]) - useStep) < 1e-8;
      c.check(reg, "template-regular", "template not log-regular");
      double al = std::log(tw[0] * (1 + z0) / ref) / useStep;
      c.check(std::fabs(al - std::round(al)) < 1e-2, "template-aligned", vh::fmt("template %d spectrum %d: phase %.6g of a grid step", i, q, al - std::round(al)));
      c.check(tw.back() * (1 + z0) >= w.back() * (1 - 1e-7) && tw.front() * (1 + zr.GetEnd()) <= w.front() * (1 + 1e-7), "template-covers",
              vh::fmt("template [%.17g,%.17g] spectrum [%.17g,%.17g]", tw.front(), tw.back(), w.front(), w.back()));
      for (size_t j = 0; j < tw.size(); ++j) {
        bool ok;
        c.close(tf[j], lin(k.lam[i], k.flux[i], tw[j], ok), 1e-8, 1e-8, "template-flux", vh::fmt("template %d sample %zu/%zu", i, j, tw.size()));
      }
    }
    auto t0 = k.cat->GetTemplate("galaxy", 0, false, false);
    c.check(t0->GetSpectralAxis().GetSamplesVector() == k.lam[0] && t0->GetRawFluxAxis().GetSamplesVector() == k.flux[0], "template-source-untouched", "original template changed");
    c.check(!k.cat->m_logsampling && !k.cat->m_orthogonal, "catalog-state", "catalogue left in another state");
  }
}
VH_MAIN
