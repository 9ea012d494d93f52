// Small, empty and extreme inputs to the public operations: only memory safety, defined behaviour and the kind of error are judged
// (this harness is run in the sanitizer flavour; an exception that is not the library's own is a violation).
#include "ctx.h"
#include "RedshiftLibrary/processflow/context.h"
#include "gen.h"
#include "RedshiftLibrary/common/indexing.h"
#include "RedshiftLibrary/common/mask.h"
#include "RedshiftLibrary/common/mean.h"
#include "RedshiftLibrary/common/median.h"
#include "RedshiftLibrary/common/vectorOperations.h"
#include "RedshiftLibrary/common/zgridparam.h"
#include "RedshiftLibrary/continuum/irregularsamplingmedian.h"
#include "RedshiftLibrary/extremum/extremum.h"
#include "RedshiftLibrary/gaussianfit/gaussianfit.h"
#include "RedshiftLibrary/line/airvacuum.h"
#include "RedshiftLibrary/line/catalog.h"
#include "RedshiftLibrary/line/lineprofileASYM.h"
#include "RedshiftLibrary/line/lineprofileLOR.h"
#include "RedshiftLibrary/line/lineprofileSYM.h"
#include "RedshiftLibrary/line/lineprofileSYMIGM.h"
#include "RedshiftLibrary/line/linedetected.h"
#include "RedshiftLibrary/operator/linedetection.h"
#include "RedshiftLibrary/operator/linedetectionresult.h"
#include "RedshiftLibrary/operator/linematching.h"
#include "RedshiftLibrary/operator/linematchingresult.h"
#include "RedshiftLibrary/operator/pdfz.h"
#include "RedshiftLibrary/operator/peakdetection.h"
#include "RedshiftLibrary/operator/peakdetectionresult.h"
#include "RedshiftLibrary/photometry/photometricband.h"
#include "RedshiftLibrary/photometry/photometricdata.h"
#include "RedshiftLibrary/spectrum/LSFFactory.h"
#include "RedshiftLibrary/spectrum/template/catalog.h"
#include "RedshiftLibrary/spectrum/template/template.h"
#include "RedshiftLibrary/statistics/deltaz.h"
#include "RedshiftLibrary/statistics/pdfcandidatesz.h"
#include "RedshiftLibrary/statistics/pdfcandidateszresult.h"
#include "RedshiftLibrary/statistics/zprior.h"
#include <cfloat>
using namespace NSEpic;
using V = std::vector<double>;

#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
template <class F> static void go(vh::Case &c, const char *what, F f) {
  (void)&Context; // its constructor makes GSL errors exceptions of the library
  if (getenv("VH_FORK")) {
    vh::Rng keep = c.r;
    std::string fn = "/tmp/hof." + std::to_string(getpid());
    pid_t p = fork();
    if (p == 0) {
      int fd = open(fn.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      dup2(fd, 2);
      alarm(20);
      try { f(); } catch (const std::exception &) {}
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
      FILE *h = fopen(fn.c_str(), "r");
      char b[2000];
      std::string m, fr;
      int nf = 0;
      while (h && fgets(b, sizeof b, h)) {
        if (strstr(b, "runtime error") || strstr(b, "ERROR: Addr") || strstr(b, "Assertion '")) m += std::string(b).substr(0, 250);
        char *q = strstr(b, "/build/src/RedshiftLibrary");
        char *z = strstr(b, " in ");
        if (z && q && nf++ < 4) fr += std::string(q + 26).substr(0, 90);
      }
      if (h) fclose(h);
      c.fail((std::string("crash:") + what + " " + fr).c_str(), m);
      return;
    }
  }
  try {
    f();
    c.count("monitor/returned");
    c.count(std::string("returned/") + what);
  } catch (const AmzException &) {
    c.count("monitor/refused");
    c.count(std::string("refused/") + what);
  } catch (const std::exception &e) {
    c.fail((std::string("foreign-exception:") + what).c_str(), e.what());
  }
}
static double hv(vh::Rng &r, const V &near = {}) {
  if (!near.empty() && r.b(0.6))
    return gen::query(r, near);
  static const double t[] = {0., -0., 1., -1., 1e-300, 1e300, -1e300, DBL_MAX, DBL_MIN, 4.9e-324, INFINITY, -INFINITY, NAN, 1e-8, 1215.67, 5000., 0.5, 1e5};
  return t[r.i(0, 17)];
}
static double fv(vh::Rng &r, const V &near = {}) {
  double x = hv(r, near);
  return std::abs(x) < 1e6 ? x : r.d(-10, 1e4);
}
// sorted values (strictly increasing, finite), 0..6 of them or a few hundred
static V sorted(vh::Rng &r, double lo = 1000, double hi = 12000) {
  int n = r.b(0.75) ? r.i(0, 6) : r.i(7, 200);
  return gen::axis(r, n, lo, hi);
}
static V values(vh::Rng &r, int n, double phostile = 0.3) {
  V v(n);
  for (auto &x : v)
    x = r.b(phostile) ? hv(r) : r.d(-1, 5);
  return v;
}
static V noise(vh::Rng &r, int n) {
  V v = gen::noise(r, n, 1);
  for (auto &x : v)
    if (r.b(0.1))
      x = hv(r);
  return v;
}
static TFloat64Range range(vh::Rng &r, const V &l) {
  double a = hv(r, l), b = hv(r, l);
  if (b < a && r.b(0.8))
    std::swap(a, b);
  return TFloat64Range(a, b);
}
static bool nanRange(const TFloat64Range &q) {
  return std::isnan(q.GetBegin()) || std::isnan(q.GetEnd());
}
static CSpectrum spectrum(vh::Rng &r, V *lam = nullptr) {
  V l = sorted(r);
  if (l.empty())
    l = {4000.};
  if (lam)
    *lam = l;
  double p = r.b() ? 0 : 0.1;
  CSpectrum s{CSpectrumSpectralAxis(l), CSpectrumFluxAxis(values(r, l.size(), p), CSpectrumNoiseAxis(r.b() ? noise(r, l.size()) : gen::noise(r, l.size(), 1)))};
  s.SetLSF(cx::lsfWidth(r.d(0.5, 5)));
  return s;
}

VH_CASE(axes, 3000, 60000) {
  vh::Rng &r = c.r;
  V l = sorted(r);
  bool poisoned = r.b(0.1) && !l.empty();
  if (poisoned)
    l[r.i(0, l.size() - 1)] = hv(r);
  c.sigv(l), c.nontrivial = true;
  CSpectrumSpectralAxis a(l);
  const CSpectrumSpectralAxis &k = a;
  for (int n = r.i(1, 6); n--;) {
    auto q = range(r, l);
    switch (r.i(0, 17)) {
    case 0: go(c, "axis.resolution", [&] { k.GetResolution(hv(r, l)); }); break;
    case 1: go(c, "axis.mean-resolution", [&] { k.GetMeanResolution(); }); break;
    case 2: go(c, "axis.index", [&] { k.GetIndexAtWaveLength(hv(r, l)); }); break;
    case 3: go(c, "axis.indexes", [&] { k.GetIndexesAtWaveLengthRange(q); }); break;
    case 4: go(c, "axis.lambda-range", [&] { k.GetLambdaRange(); }); break;
    case 5: go(c, "axis.clamp", [&] { TFloat64Range o; k.ClampLambdaRange(q, o); }); break;
    case 6: go(c, "axis.mask", [&] { CMask m(r.i(0, 3)); k.GetMask(q, m); }); break;
    case 7: go(c, "axis.overlap", [&] { CMask m(l.size(), 1); k.IntersectMaskAndComputeOverlapFraction(q, m); }); break;
    case 8: go(c, "axis.log-check", [&] { k.CheckLoglambdaSampling(); }); break;
    case 9: go(c, "axis.log-step", [&] { if (k.IsLogSampled()) k.GetlogGridStep(); }); break;
    case 10: go(c, "axis.log-sampled", [&] { k.IsLogSampled(r.logd(1e-5, 1e-2)); }); break;
    case 11: if (!poisoned) go(c, "axis.precise-log", [&] { CSpectrumSpectralAxis x(k); x.RecomputePreciseLoglambda(); }); break;
    case 12: if (!poisoned) go(c, "axis.subsampling", [&] { k.GetSubSamplingMask(r.i(1, 5), q); }); break;
    case 13: if (!poisoned) go(c, "axis.subsampling-all", [&] { k.GetSubSamplingMask(r.i(1, 5)); }); break;
    case 14: if (!poisoned) go(c, "axis.log-ratio", [&] { double mo; k.GetLogSamplingIntegerRatio(r.logd(1e-5, 1e-2), mo); }); break;
    case 15: go(c, "axis.shift", [&] { CSpectrumSpectralAxis x; x.ShiftByWaveLength(k, hv(r), r.b() ? CSpectrumSpectralAxis::nShiftForward : CSpectrumSpectralAxis::nShiftBackward); }); break;
    case 16: go(c, "axis.mask-axis", [&] { V m(l.size()); for (auto &x : m) x = r.i(0, 1); k.MaskAxis(m); }); break;
    case 17: go(c, "axis.vacuum", [&] { CSpectrumSpectralAxis x(l, std::vector<std::string>{"", "edlen1953", "PeckReeder1972", "ciddor1996", "morton2000", "nothing"}[r.i(0, 5)]); }); break;
    }
  }
  if (r.b(0.3)) {
    a.SetSize(r.i(0, 8));
    go(c, "axis.after-resize", [&] { k.isSorted(), k.GetLambdaRange(); });
  }
}
VH_CASE(ranges, 2000, 40000) {
  vh::Rng &r = c.r;
  V l = sorted(r, 0, 10);
  c.sigv(l), c.nontrivial = true;
  auto q = range(r, l);
  Int32 i, j;
  go(c, "range.closed", [&] { q.getClosedIntervalIndices(l, i, j); });
  go(c, "range.enclosing", [&] { q.getEnclosingIntervalIndices(l, i, j); });
  go(c, "range.enclosing-value", [&] { q.getEnclosingIntervalIndices(l, hv(r, l), i, j); });
  if (!l.empty()) {
    go(c, "index.lower", [&] { TFloat64Index::getClosestLowerIndex(l, hv(r, l), i); });
    go(c, "index.upper", [&] { TFloat64Index::getClosestUpperIndex(l, hv(r, l), i); });
    go(c, "index.closer", [&] { TFloat64Index::getCloserIndex(l, hv(r, l)); });
  }
  go(c, "index.exact", [&] { TFloat64Index::getIndex(l, hv(r, l)); });
  TFloat64Range g(r.d(-0.9, 3), r.d(-0.9, 6));
  double st = r.logd(1e-3, 10);
  go(c, "range.spread", [&] { g.SpreadOver(st, r.b()); });
  go(c, "range.spread-epsilon", [&] { g.SpreadOverEpsilon(st, r.b()); });
  go(c, "range.spread-log", [&] { g.SpreadOverLog(st, 1., r.b()); });
  go(c, "range.spread-z", [&] { g.SpreadOverLogZplusOne(st, r.b()); });
  go(c, "range.spread-z-epsilon", [&] { g.SpreadOverLogZplusOneEpsilon(st, r.b()); });
  go(c, "range.centred", [&] { g.spanCenteredWindow(r.b(0.2) ? g.GetEnd() : g.Interpolate(r.d(0, 1)), r.b(), st); });
  std::vector<TFloat64Range> rs;
  for (int n = r.i(0, 5); n--;)
    rs.push_back(range(r, {}));
  if (std::none_of(rs.begin(), rs.end(), nanRange))
    go(c, "range.join", [&] { TFloat64Range::joinIntersections(rs); });
  go(c, "zgrid", [&] {
    TZGridListParams z;
    for (int n = r.i(0, 3); n--;) {
      double a = r.d(-0.5, 5);
      z.push_back(CZGridParam(TFloat64Range(a, a + r.d(-0.1, 1)), r.logd(1e-3, 1), r.b() ? NAN : a + r.d(-0.2, 1.2)));
    }
    CZGridListParams(z).getZGrid(r.b());
  });
}
VH_CASE(spectra, 2500, 50000) {
  vh::Rng &r = c.r;
  V l;
  CSpectrum s = spectrum(r, &l);
  c.sigv(l), c.nontrivial = true;
  static const char *const meth[] = {"irregularSamplingMedian", "zero", "raw", "manual", "", "nothing"};
  for (int n = r.i(1, 7); n--;) {
    auto q = range(r, l);
    double a, b;
    switch (r.i(0, 17)) {
    case 0: go(c, "spectrum.mean", [&] { s.GetMeanAndStdFluxInRange(q, a, b); }); break;
    case 1: go(c, "spectrum.regression", [&] { s.GetLinearRegInRange(q, a, b); }); break;
    case 2: go(c, "spectrum.validate-flux", [&] { s.ValidateFlux(q.GetBegin(), q.GetEnd()); }); break;
    case 3: go(c, "spectrum.validate-noise", [&] { s.ValidateNoise(q.GetBegin(), q.GetEnd()); }); break;
    case 4: go(c, "spectrum.correct", [&] { s.correctSpectrum(q.GetBegin(), q.GetEnd(), hv(r)); }); break;
    case 5: go(c, "spectrum.validate", [&] { s.ValidateSpectrum(q, r.b()); }); break;
    case 6: go(c, "spectrum.method", [&] { s.SetContinuumEstimationMethod(meth[r.i(0, 5)]); s.SetMedianWinsize(r.b() ? r.logd(1, 3000) : r.d(-1, 5)); s.SetMedianEvenReflection(r.b()); }); break;
    case 7: go(c, "spectrum.type", [&] { s.SetType(CSpectrum::EType(r.i(1, 3))); s.GetFluxAxis(), s.GetErrorAxis(); }); break;
    case 8: go(c, "spectrum.continuum", [&] { s.GetContinuumFluxAxis(); }); break;
    case 9: go(c, "spectrum.invert", [&] { s.InvertFlux(); }); break;
    case 10: go(c, "spectrum.extract", [&] { int i = r.i(0, l.size() - 1); CSpectrum e = s.extract(i, r.i(i, l.size() - 1)); e.GetLambdaRange(); }); break;
    case 11: if (nanRange(q)) break; go(c, "spectrum.rebin", [&] {
      V t = r.b(0.3) ? l : sorted(r);
      CSpectrum o;
      CMask m;
      s.setRebinInterpMethod(std::vector<std::string>{"lin", "spline", "preComputedFineGrid", "ngp", "other"}[r.i(0, 4)]);
      s.Rebin(q, CSpectrumSpectralAxis(t), o, m, r.b() ? "no" : r.b() ? "rebin" : "rebinVariance");
    }); break;
    case 12: go(c, "spectrum.smooth", [&] { CSpectrumFluxAxis f = s.GetRawFluxAxis(); f.ApplyMeanSmooth(r.i(-1, 8)), f.ApplyMedianSmooth(r.i(-1, 8)); }); break;
    case 13: go(c, "spectrum.flux-statistics", [&] { CMask m(l.size()); for (size_t i = 0; i < l.size(); ++i) m[i] = r.i(0, 1); s.GetFluxAxis().ComputeMeanAndSDev(m, a, b), s.GetRawFluxAxis().checkFlux(); }); break;
    case 14: go(c, "spectrum.axes", [&] { V t = sorted(r); s.SetSpectralAndFluxAxes(CSpectrumSpectralAxis(t), CSpectrumFluxAxis(values(r, t.size() + r.b(0.2)))); l = t; }); break;
    case 15: go(c, "spectrum.noise", [&] { s.SetErrorAxis(CSpectrumNoiseAxis(noise(r, r.b(0.8) ? s.GetSampleCount() : r.i(0, 9)))); }); break;
    case 16: go(c, "spectrum.amplitude", [&] { s.ApplyAmplitude(hv(r)); CSpectrum u(s); u = s; CSpectrum w(std::move(u)); w.GetMeanResolution(), w.GetResolution(); }); break;
    case 17: go(c, "spectrum.mask", [&] { V m(s.GetSampleCount()); for (auto &x : m) x = r.i(0, 1); CSpectrum u(s, m); u.GetLambdaRange(); }); break;
    }
    if (s.GetSampleCount() == 0)
      return;
  }
}
VH_CASE(templates, 2000, 40000) {
  vh::Rng &r = c.r;
  V l = sorted(r, 700, 9000);
  if (l.empty())
    l = {1000.};
  c.sigv(l), c.nontrivial = true;
  CTemplate t("t", "c", CSpectrumSpectralAxis(l), CSpectrumFluxAxis(values(r, l.size(), 0.05)));
  std::shared_ptr<CSpectrumFluxCorrectionCalzetti> dust;
  std::shared_ptr<CSpectrumFluxCorrectionMeiksin> igm;
  if (r.b(0.8))
    go(c, "dust.table", [&] {
      V x, y;
      int n = r.b(0.3) ? r.i(0, 3) : 400;
      double a = r.d(100, 1200), st = r.d(1, 30);
      for (int i = 0; i < n; ++i)
        x.push_back(a + st * i), y.push_back(r.d(0, 8));
      if (r.b(0.05))
        y.resize(r.i(0, n));
      dust = std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection(x, y), r.d(0, 0.5), r.d(0.01, 0.2), r.i(0, 5));
    });
  if (r.b(0.8))
    go(c, "igm.table", [&] {
      auto t = cx::igm(r, r.i(2, 800), r.i(1, 3), r.i(1, 7), r.d(0, 3), r.d(0.2, 1));
      t->convolveByLSF(cx::lsfWidth(r.d(0.2, 30)), TFloat64Range(r.d(500, 3000), r.d(3000, 12000)));
      igm = t;
    });
  for (int n = r.i(1, 8); n--;) {
    double z = r.b(0.2) ? hv(r) : r.d(0, 6);
    auto q = range(r, l);
    switch (r.i(0, 11)) {
    case 0: go(c, "template.init", [&] { t.InitIsmIgmConfig(z, dust, igm); }); break;
    case 1: go(c, "template.init-range", [&] { t.InitIsmIgmConfig(q, z, dust, igm); }); break;
    case 2: go(c, "template.dust", [&] { if (t.CheckIsmIgmEnabled()) t.ApplyDustCoeff(dust ? r.i(-1, dust->GetNPrecomputedEbmvCoeffs() - 1) : -1); }); break;
    case 3: go(c, "template.igm", [&] { if (t.CheckIsmIgmEnabled()) t.ApplyMeiksinCoeff(igm ? r.i(-1, igm->getIdxCount() - 1) : -1); }); break;
    case 4: go(c, "template.type", [&] { t.SetType(CSpectrum::EType(r.i(1, 3))); }); break;
    case 5: go(c, "template.indexes", [&] { TInt32List a, b; t.GetIsmIgmIdxList(r.b(), r.b(), a, b, r.i(-1, 2), r.i(-1, 2)); }); break;
    case 6: if (nanRange(q)) break; go(c, "template.rebin", [&] {
      V g = sorted(r, 700, 9000);
      CTemplate o;
      CMask m;
      t.setRebinInterpMethod(r.b() ? "lin" : r.b() ? "spline" : "preComputedFineGrid");
      t.Rebin(q, CSpectrumSpectralAxis(g), o, m);
    }); break;
    case 7: go(c, "template.copy", [&] { CTemplate u(t); t = u; CTemplate w(std::move(u)); w.DisableIsmIgm(); }); break;
    case 8: go(c, "template.flux", [&] { t.SetFluxAxis(CSpectrumFluxAxis(values(r, l.size(), 0.1))); }); break;
    case 9: go(c, "template.disable", [&] { t.DisableIsmIgm(); }); break;
    case 10: go(c, "dust.lookup", [&] { if (dust) { double x = hv(r, l); if (dust->GetNPrecomputedEbmvCoeffs()) dust->GetDustCoeff(r.i(0, dust->GetNPrecomputedEbmvCoeffs() - 1), x); dust->GetEbmvIndex(fv(r)); dust->GetEbmvValue(r.i(0, 3)); } }); break;
    case 11: go(c, "igm.lookup", [&] {
      if (igm && igm->isConvolved() && igm->getIdxCount()) {
        int k = r.i(0, igm->getIdxCount() - 1);
        double x = r.b() ? r.d(900, 1300) : fv(r);
        igm->getCorrection(z, k, x), igm->getCorrectionAndDerivLbdaRest(z, k, x), igm->getRedshiftIndex(z), igm->getWaveIndex(x);
        igm->getWaveAndCorrectionVector(TFloat64Range(fv(r, l), fv(r, l)), z, k);
      }
    }); break;
    }
  }
}
VH_CASE(profiles, 1500, 30000) {
  vh::Rng &r = c.r;
  V l = sorted(r);
  c.sig(r.s), c.nontrivial = true;
  auto igm = cx::igm(r, 600, 2, r.i(1, 7), 2, 1);
  igm->convolveByLSF(cx::lsfWidth(2), TFloat64Range(3000, 9000));
  std::vector<std::unique_ptr<CLineProfile>> p;
  p.emplace_back(new CLineProfileSYM(r.d(0.1, 20)));
  p.emplace_back(new CLineProfileLOR(r.d(0.1, 20)));
  p.emplace_back(new CLineProfileASYM(8., TAsymParams{r.b(0.8) ? r.d(0.5, 5) : hv(r), r.b(0.8) ? r.d(-5, 5) : hv(r), r.b(0.8) ? r.d(-2, 2) : hv(r)},
                                      std::vector<std::string>{"none", "mean", "mode", "other"}[r.i(0, 3)]));
  auto *s = new CLineProfileSYMIGM(igm, 8.);
  s->SetSymIgmParams(TSymIgmParams(r.i(-1, igm->getIdxCount() - 1), r.d(0, 6)));
  p.emplace_back(s);
  for (int k = 0; k < 6; ++k) {
    auto &x = *p[r.i(0, 3)];
    double x0 = r.b(0.8) ? r.d(1000, 9000) : fv(r), sg = r.b(0.8) ? r.logd(0.1, 50) : fv(r), at = r.b(0.8) ? x0 + sg * r.d(-9, 9) : fv(r);
    go(c, "profile.value", [&] { x.GetLineProfileVal(at, x0, sg); });
    go(c, "profile.flux", [&] { x.GetLineFlux(x0, sg, hv(r)); });
    go(c, "profile.derivative", [&] { x.GetLineProfileDerivX0(at, x0, sg), x.GetLineProfileDerivSigma(at, x0, sg); });
    go(c, "profile.clone", [&] { auto y = x.Clone(); y->GetNSigmaSupport(); });
  }
  go(c, "lsf.variable", [&] {
    V w = gen::noise(r, l.size() + (r.b(0.1) ? 1 : 0), 3);
    if (r.b(0.2) && !w.empty())
      w[0] = hv(r);
    auto f = LSFFactory.Create("gaussianVariableWidth", std::make_shared<TLSFGaussianVarWidthArgs>(l, w));
    f->IsValid(), f->checkAvailability(hv(r, l)), f->GetWidth(hv(r, l), r.b()), f->GetProfileVal(hv(r, l), hv(r, l));
    f->getNormalizedProfileVector(l, hv(r, l));
  });
  go(c, "lsf.other", [&] {
    auto f = r.b() ? cx::lsfResolution(hv(r)) : cx::lsfWidth(hv(r));
    f->IsValid(), f->GetWidth(hv(r, l), r.b()), f->getNormalizedProfileVector(l, hv(r, l));
  });
}
VH_CASE(posteriors, 2500, 50000) {
  vh::Rng &r = c.r;
  V z = sorted(r, 0, 8);
  int n = z.size();
  c.sigv(z), c.nontrivial = true;
  V y = values(r, n, r.b() ? 0 : 0.15);
  if (r.b(0.2))
    for (auto &x : y)
      x = std::round(x);
  go(c, "extremum", [&] { CExtremum(r.i(0, 6), r.b() ? r.logd(1e-3, 1) : r.d(-1, 1), r.b() ? -1 : r.d(0, 5), r.b(), r.b(), r.b() ? TFloat64Range() : range(r, z)).Find(z, y, r.b()); });
  go(c, "deltaz", [&] { CDeltaz().GetDeltaz(z, y, hv(r, z), r.i(0, 1)); });
  go(c, "deltaz.indices", [&] { Int32 a, b, d; CDeltaz().GetIndices(z, hv(r, z), r.i(0, 6), a, b, d); });
  go(c, "pdf", [&] { V o; double e; COperatorPdfz::ComputePdf(y, z, r.d(-5, 5), V(r.b(0.9) ? n : r.i(0, 5), -1.), o, e); });
  go(c, "pdf.logsumexp", [&] { COperatorPdfz::logSumExpTrick(y, z); });
  go(c, "pdf.index", [&] { COperatorPdfz::getIndex(z, hv(r, z)); });
  go(c, "pdf.operator", [&] {
    static const char *const comb[] = {"marg", "bestProba", "bestChi2", "other"};
    COperatorPdfz o(comb[r.i(0, 3)], r.b() ? 0. : r.logd(1e-3, 0.5), r.b() ? 0. : r.d(0, 50), r.i(0, 6), r.b(), "EXT", r.b(), r.i(0, 3));
    ChisquareArray a;
    a.redshifts = z;
    a.cstLog = r.d(-10, 10);
    for (int k = r.i(0, 3); k--;) {
      a.chisquares.push_back(values(r, n, r.b(0.8) ? 0 : 0.1));
      a.zpriors.push_back(V(n, r.d(-3, 0)));
    }
    if (r.b(0.3))
      a.modelpriors = V(r.i(0, 3), 0.5);
    a.zstep = 1e-3;
    for (int t = r.i(1, 2); t--;)
      o.Compute(a);
  });
  go(c, "candidates", [&] {
    TCandidateZbyID cand;
    for (int k = r.i(0, 4); k--;) {
      auto x = std::make_shared<TCandidateZ>();
      x->Redshift = n && r.b(0.9) ? z[r.i(0, n - 1)] : r.d(0, 8);
      x->Deltaz = r.b(0.3) ? hv(r) : r.logd(1e-4, 0.3);
      cand["E" + std::to_string(k)] = x;
    }
    CPdfCandidatesZ o(cand);
    o.m_optMethod = r.i(0, 1);
    o.Compute(z, y);
  });
  go(c, "prior", [&] {
    CZPrior p(r.b(), z);
    TBoolList b;
    TInt32List k;
    for (int i = 0; i < n; ++i)
      b.push_back(r.b()), k.push_back(r.i(0, 4));
    V v = p.GetConstantLogZPrior(n), w = p.GetStrongLinePresenceLogZPrior(b, hv(r));
    p.CombineLogZPrior(v, w), p.GetNLinesSNRAboveCutLogZPrior(k, hv(r)), p.GetEuclidNhaLogZPrior(z, hv(r));
  });
  V f = values(r, n, 0.1);
  if (n && std::none_of(f.begin(), f.end(), [](double x) { return std::isnan(x); }))
    go(c, "median", [&] { CMedian<double>().Find(f), CMean<double>().Find(f); });
}
VH_CASE(photometry, 800, 15000) {
  vh::Rng &r = c.r;
  V l = sorted(r, 1500, 20000);
  c.sigv(l), c.nontrivial = true;
  go(c, "band", [&] {
    CPhotometricBand b(values(r, r.b(0.9) ? l.size() : r.i(0, 7), r.b() ? 0 : 0.1), l);
    b.IntegrateFlux(values(r, r.b(0.9) ? l.size() : r.i(0, 7)));
    CPhotBandCatalog k;
    for (int n = r.i(0, 3); n--;)
      k.Add("b" + std::to_string(n), b);
    k.GetNameListSortedByLambda(), k.GetNameList();
  });
  go(c, "photometric-data", [&] {
    int n = r.i(0, 3);
    TStringList nm;
    for (int i = 0; i < n; ++i)
      nm.push_back("b" + std::to_string(r.i(0, 2)));
    CPhotometricData d(nm, values(r, r.b(0.9) ? n : r.i(0, 4)), values(r, r.b(0.9) ? n : r.i(0, 4)));
    for (auto &x : d.GetNameList())
      d.GetFluxOverErr2(x), d.GetOneOverErr2(x);
  });
}
VH_CASE(lines, 800, 15000) {
  vh::Rng &r = c.r;
  c.sig(r.s), c.nontrivial = true;
  static const char *const prof[] = {"SYM", "LOR", "ASYM", "ASYMFIT", "ASYMFIXED", "SYMIGM", "NONE"};
  CLineCatalog cat(8.);
  std::vector<int> ids;
  for (int n = r.i(0, 8); n--;)
    go(c, "line.add", [&] {
      int id = r.i(0, 9);
      cat.AddLineFromParams("l" + std::to_string(r.i(0, 5)), r.b(0.8) ? r.d(1000, 9000) : hv(r), r.b() ? "E" : r.b(0.9) ? "A" : "X", r.b() ? "S" : r.b(0.9) ? "W" : "Y", prof[r.i(0, 6)],
                            TAsymParams{r.d(0.5, 5), r.d(-5, 5), r.d(-1, 1)}, r.b() ? undefStr : "g" + std::to_string(r.i(0, 2)), r.d(0, 3),
                            "v" + std::to_string(r.i(0, 1)), r.b(0.7) ? 0. : r.d(-500, 500), r.b(), id, "s" + std::to_string(id));
    });
  go(c, "line.filter", [&] {
    auto f = cat.GetFilteredList(r.b() ? "E" : r.b() ? "A" : "no", r.b() ? "S" : r.b() ? "W" : "no");
    CLineCatalog::ConvertToGroupList(f);
    cat.setLineAmplitude(r.i(0, 9), hv(r));
    cat.setAsymProfileAndParams(prof[r.i(0, 6)], TAsymParams{1, 2, 3});
    cat.convertLineProfiles2SYMIGM(cx::igm(r, 100, 1, 4, 2, 1));
  });
  // line detection and matching on a spectrum with some lines
  V l = gen::axis(r, r.b(0.3) ? r.i(1, 12) : r.i(13, 400), 3000, 9000, r.i(0, 2)), f(l.size());
  for (size_t i = 0; i < l.size(); ++i)
    f[i] = 1 + 0.1 * r.g();
  for (int n = r.i(0, 5); n--;) {
    double x0 = l[r.i(0, l.size() - 1)], sg = r.logd(2, 60), a = r.d(-5, 30);
    for (size_t i = 0; i < l.size(); ++i)
      f[i] += a * std::exp(-0.5 * (l[i] - x0) * (l[i] - x0) / sg / sg);
  }
  CSpectrum s{CSpectrumSpectralAxis(l), CSpectrumFluxAxis(f, CSpectrumNoiseAxis(gen::noise(r, l.size(), 0.1)))};
  go(c, "gaussian-fit", [&] {
    CGaussianFit g;
    int i = r.i(0, l.size() - 1);
    g.Compute(s, TInt32Range(i, r.i(i, l.size() - 1)));
    double a, b, d;
    g.GetResults(a, b, d), g.GetResultsPolyCoeff0(a), g.GetResultsError(a, b, d);
  });
  go(c, "line-detection", [&] {
    double win = r.b(0.8) ? r.d(50, 500) : r.d(0, 5);
    CPeakDetection pd(win, r.d(0, 8), r.i(0, 5), r.i(0, 4), r.b() ? 0 : r.d(0, 1));
    auto pk = pd.Compute(s);
    if (!pk)
      return;
    CLineDetection ld(r.b() ? CLine::EType::nType_Emission : CLine::EType::nType_Absorption, r.d(0, 6), r.d(0, 3), win, r.d(0, 5), r.d(20, 200), r.b());
    auto q = r.b() ? s.GetLambdaRange() : TFloat64Range(r.d(3000, 5000), r.d(5000, 9000));
    auto d = ld.Compute(s, q, pk->PeakList, pk->EnlargedPeakList);
    c.count("monitor/detected-lines", d ? d->LineCatalog.GetList().size() : 0);
    if (d)
      go(c, "line-matching", [&] {
        auto m = CLineMatching().Compute(d->LineCatalog, cat, TFloat64Range(0, r.d(0, 6)), r.i(1, 5), r.logd(1e-4, 0.05), CLine::EType::nType_All);
        if (m)
          c.count("monitor/matchings");
      });
  });
}
VH_MAIN
