// C14: line profiles against numerical integrals and derivatives, line-spread functions against their laws.
#include "ctx.h"
#include "RedshiftLibrary/line/lineprofileASYM.h"
#include "RedshiftLibrary/line/lineprofileASYMFIT.h"
#include "RedshiftLibrary/line/lineprofileLOR.h"
#include "RedshiftLibrary/line/lineprofileSYM.h"
#include "RedshiftLibrary/line/lineprofileSYMIGM.h"
using namespace NSEpic;
using V = std::vector<double>;
using LD = long double;
using F = std::function<double(double)>;

static double integral(const F &f, double a, double b, int n) { // composite Simpson
  LD s = 0, h = (LD(b) - a) / n;
  for (int i = 0; i <= n; ++i)
    s += (i == 0 || i == n ? 1 : i % 2 ? 4 : 2) * LD(f(double(a + h * i)));
  return double(s * h / 3);
}
static double slope(const F &f, double x, double h) { // fourth-order central difference
  return (8 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) / (12 * h);
}
VH_CASE(profile, 4000, 150000) {
  vh::Rng &r = c.r;
  double x0 = r.logd(500, 30000), sg = r.logd(0.5, 100), A = r.d(-3, 8), ns = r.d(1, 10);
  int kind = r.i(0, 4);
  TAsymParams ap{r.b(0.3) ? 1 : r.d(0.3, 4), r.b(0.1) ? 0 : r.b(0.7) ? r.d(0, 8) : r.d(-8, 0), 0};
  std::string cen = kind == 2 ? "none" : r.b() ? "mean" : "mode";
  if (cen != "none")
    ap.delta = r.b(0.4) ? 0 : r.d(-3, 3) * sg;
  std::unique_ptr<CLineProfile> p;
  if (kind == 0)
    p = std::make_unique<CLineProfileSYM>(ns);
  else if (kind == 1)
    p = std::make_unique<CLineProfileLOR>(ns);
  else if (kind < 4)
    p = std::make_unique<CLineProfileASYM>(ns, ap, cen);
  else {
    p = std::make_unique<CLineProfileASYMFIT>(ns, TAsymParams{r.d(1, 3), r.d(0, 3), 0}, cen);
    p->SetAsymParams(ap);
  }
  if (r.b(0.3))
    p = p->Clone();
  if (kind == 4 && r.b(0.3))
    p = dynamic_cast<CLineProfileASYMFIT &>(*p).cloneToASYM();
  else if (kind == 3 && r.b(0.3))
    p = dynamic_cast<CLineProfileASYM &>(*p).cloneToASYMFIT();
  bool asym = kind >= 2;
  double w = asym ? sg * ap.sigma : sg, ctr = x0 - (asym ? ap.delta : 0);
  std::string at = vh::fmt("kind %d %s x0=%.17g sigma=%.17g asym(%.17g,%.17g,%.17g)", kind, cen.c_str(), x0, sg, ap.sigma, ap.alpha, ap.delta);
  c.note(at), c.sig(x0), c.sig(sg), c.sig(ap.alpha), c.nontrivial = true;
  F f = [&](double x) { return p->GetLineProfileVal(x, x0, sg); };
  // flux
  LD q = kind == 1 ? integral([&](double t) { double k = std::cos(t); return f(x0 + w * std::tan(t)) * w / (k * k); }, -M_PI / 2 * (1 - 1e-9), M_PI / 2 * (1 - 1e-9), 400)
                   : integral(f, ctr - 14 * w, ctr + 14 * w, 1400);
  c.close(p->GetLineFlux(x0, sg, A), double(A * q), 2e-6, 0, "flux", at);
  c.close(p->GetLineFlux(x0, sg), double(q), 2e-6, 0, "flux", at + " unit amplitude");
  // shape
  for (int k = 0; k < 6; ++k) {
    double x = ctr + w * r.d(-4, 4), u = (x - ctr) / w;
    LD ref = kind == 0 ? std::exp(-0.5L * u * u) : 1 / (1 + LD(u) * u);
    if (asym && cen == "none")
      ref = std::exp(-0.5L * u * u) * (1 + std::erf(LD(ap.alpha) * u / std::sqrt(2.L)));
    if (!asym || cen == "none")
      c.close(f(x), double(ref), 1e-9, 1e-10, "shape", at + vh::fmt(" x=%.17g", x));
    if (asym) { // skew normal, whatever the centring
      double d = ap.alpha / std::sqrt(1 + ap.alpha * ap.alpha), m = d * std::sqrt(2 / M_PI);
      if (cen == "mean") {
        double v = u + m;
        c.close(f(x), std::exp(-0.5 * v * v) * (1 + std::erf(ap.alpha * v / std::sqrt(2))), 1e-9, 1e-10, "shape", at + vh::fmt(" x=%.17g", x));
      }
    }
    if (kind == 1) {
      c.check(vh::throwsAmz([&] { p->GetLineProfileDerivX0(x, x0, sg); }), "no-derivative", at);
      c.check(vh::throwsAmz([&] { p->GetLineProfileDerivSigma(x, x0, sg); }), "no-derivative", at);
      continue;
    }
    double h = 2e-3 * w * (asym ? 1 / (1 + std::fabs(ap.alpha)) : 1);
    c.close(p->GetLineProfileDerivX0(x, x0, sg), slope([&](double y) { return p->GetLineProfileVal(x, y, sg); }, x0, h), 1e-6, 1e-7 / w, "derivative-x0", at + vh::fmt(" x=%.17g", x));
    // the shift delta does not follow the width
    c.close(p->GetLineProfileDerivSigma(x, x0, sg), slope([&](double y) { return p->GetLineProfileVal(x, x0, y); }, sg, h / (asym ? ap.sigma : 1)), 1e-6, 1e-7 / sg, "derivative-sigma",
            at + vh::fmt(" x=%.17g", x));
  }
  // centre
  if (!asym) {
    c.eq(f(x0), 1., "peak", at);
    for (double u : {0.1, 1., 3.})
      c.check(f(x0 - u * w) < 1 && f(x0 + u * w) < 1, "peak", at + " not the maximum");
  } else if (cen == "mean")
    c.close(double(integral([&](double x) { return (x - ctr) / w * f(x); }, ctr - 14 * w, ctr + 14 * w, 1400) / w), 0, 0, 1e-6, "mean-centre", at);
  else if (cen == "mode") {
    double lo = ctr - 2 * w, hi = ctr + 2 * w;
    for (int k = 0; k < 60; ++k) {
      double a = lo + (hi - lo) * 0.381966, b = hi - (hi - lo) * 0.381966;
      (f(a) > f(b) ? hi : lo) = f(a) > f(b) ? b : a;
    }
    c.close((lo + hi) / 2 / w, ctr / w, 0, 0.03, "mode-centre", at); // the mode of the skew normal is itself an approximation
  }
  if (asym) {
    TAsymParams g = p->GetAsymParams();
    c.check(g.sigma == ap.sigma && g.alpha == ap.alpha && g.delta == ap.delta && p->GetDelta() == ap.delta, "parameters", at);
  }
  double sup = kind == 0 ? ns : kind == 1 ? 2 * ns : ns * ap.sigma * (cen == "none" ? 1 : 2.5);
  c.close(p->GetNSigmaSupport(), sup, 1e-14, 0, "support", at);
}
VH_CASE(igmprofile, 800, 20000) {
  vh::Rng &r = c.r;
  int nc = r.i(4, 7);
  auto igm = cx::igm(r, 1500, 3, nc, 1.5, 1.6); // 1140.7 .. 1215.67
  igm->convolveByLSF(cx::lsfWidth(r.d(1, 5)), TFloat64Range(2000, 9500));
  CLineProfileSYMIGM p(igm, 8);
  CLineProfileSYM s(8);
  int id = r.b(0.2) ? -1 : r.i(0, nc - 1);
  double z = r.b(0.15) ? r.d(0.5, 1.5) : r.d(1.5, 6.2), sg = r.d(0.5, 15), rest = r.b(0.3) ? 1215.67 : r.d(1150, 1230), x0 = rest * (1 + z);
  p.SetSymIgmParams({id, z});
  int used = id == -1 ? nc / 2 : id; // the median curve by default
  std::string at = vh::fmt("x0=%.17g sigma=%.17g z=%.17g igm %d", x0, sg, z, id);
  c.note(at), c.sig(x0), c.sig(sg), c.nontrivial = true;
  const double end = igm->getLambdaMin() + 0.05 * 1499; // of the table
  auto corr = [&](double x) { return igm->getCorrection(z, used, x / (1 + z)); };
  for (int k = 0; k < 12; ++k) {
    double x = x0 + sg * r.d(-4, 4);
    if (x / (1 + z) < igm->getLambdaMin())
      continue;
    c.close(p.GetLineProfileVal(x, x0, sg), s.GetLineProfileVal(x, x0, sg) * corr(x), 1e-13, 0, "igm-value", at + vh::fmt(" x=%.17g", x));
    c.close(p.GetLineProfileDerivSigma(x, x0, sg), s.GetLineProfileDerivSigma(x, x0, sg) * corr(x), 1e-13, 0, "igm-derivative-sigma", at + vh::fmt(" x=%.17g", x));
    // the curve moves with the line: slope of the table between its neighbours
    double xr = x / (1 + z), st = 0.05;
    if (xr > end - 2 * st && xr <= 1216 || xr < igm->getLambdaMin() + 2 * st)
      continue;
    double sl = xr > 1216 ? 0 : (igm->getCorrection(z, used, xr + st) - igm->getCorrection(z, used, xr - st)) / (2 * st);
    if (std::fabs(std::remainder(xr - igm->getLambdaMin(), st)) > 0.49 * st)
      continue; // between two samples of the table
    c.close(p.GetLineProfileDerivX0(x, x0, sg), s.GetLineProfileDerivX0(x, x0, sg) * corr(x) - s.GetLineProfileVal(x, x0, sg) * xr / x0 * (z < 1.5 ? 0 : sl), 1e-8, 1e-9,
            "igm-derivative-x0", at + vh::fmt(" x=%.17g", x));
  }
  if (x0 / (1 + z) - 4 * sg / (1 + z) <= igm->getLambdaMin() + 1)
    return;
  double A = r.d(0.1, 5), fl = 0;
  if (x0 - 4 * sg > 1216 * (1 + z)) {
    c.close(p.GetLineFlux(x0, sg, A), s.GetLineFlux(x0, sg, A), 1e-14, 0, "igm-flux-unabsorbed", at);
    return;
  }
  bool thrown = vh::throwsAmz([&] { fl = p.GetLineFlux(x0, sg, A); });
  double ref = A * integral([&](double x) { return s.GetLineProfileVal(x, x0, sg) * corr(x); }, x0 - 8 * sg, x0 + 8 * sg, 16000);
  c.count("monitor/igm-flux");
  if (!thrown && std::fabs(fl - ref) <= 5e-3 * std::fabs(ref) + 1e-9)
    return;
  // known: absorption applied twice, integrated over the rest-frame wavelengths of the table only
  V wl, tr;
  bool none = vh::throwsAmz([&] { std::tie(wl, tr) = igm->getWaveAndCorrectionVector(TFloat64Range(x0 / (1 + z) - 4 * sg / (1 + z), x0 / (1 + z) + 4 * sg / (1 + z)), z, used); }) || wl.size() < 2;
  LD k = 0;
  auto g = [&](size_t i) { return LD(p.GetLineProfileVal(wl[i] * (1 + z), x0, sg)) * tr[i]; };
  for (size_t i = 1; i < wl.size(); ++i)
    k += (LD(wl[i]) - wl[i - 1]) / 2 * (g(i) + g(i - 1));
  if (thrown ? none : !none && std::fabs(fl - A * double(k)) <= 1e-9 * std::fabs(fl) + 1e-12)
    c.fail("igm-line-flux:absorption-squared-over-rest-wavelengths-below-lyman-alpha", at + vh::fmt(" flux %.9g integral %.9g", thrown ? NAN : fl, ref));
  else
    c.fail("igm-flux", at + vh::fmt(" flux %.17g integral %.17g (%.17g)", fl, ref, A * double(k)));
}
VH_CASE(lsf, 2000, 60000) {
  vh::Rng &r = c.r;
  int kind = r.i(0, 4);
  double par = 0;
  V l, wd;
  std::shared_ptr<CLSF> lsf;
  if (kind == 0)
    par = r.logd(0.1, 50), lsf = cx::lsfWidth(par);
  else if (kind == 1)
    par = r.logd(1.5, 1e4), lsf = cx::lsfResolution(par);
  else if (kind == 2)
    lsf = LSFFactory.Create("gaussianNISPSIM2016");
  else if (kind == 3) {
    auto st = std::make_shared<CParameterStore>(std::make_shared<CScopeStack>());
    par = r.d(0, 2);
    st->Set("lsf.sourceSize", par);
    lsf = LSFFactory.Create("gaussianNISPVSSPSF201707", std::make_shared<TLSFGaussianNISPVSSPSF201707Args>(st));
  } else {
    l = gen::axis(r, r.i(1, 60), 1000, 15000);
    for (size_t i = 0; i < l.size(); ++i)
      wd.push_back(r.logd(0.2, 30));
    lsf = LSFFactory.Create("gaussianVariableWidth", std::make_shared<TLSFGaussianVarWidthArgs>(l, wd));
  }
  c.note(vh::fmt("kind %d parameter %.17g table %zu", kind, par, l.size()));
  c.sig(kind), c.sig(par), c.sigv(l), c.nontrivial = true;
  c.check(lsf->IsValid(), "valid", "valid line-spread function");
  auto law = [&](double x) -> LD {
    switch (kind) {
    case 0:
      return par;
    case 1:
      return x / LD(par) / 2.355L;
    case 2:
      return (x * 8.121e-4L + 7.4248L) / 2.35L;
    case 3: {
      LD a = x * 3.939e-4L + 2.191L, b = par * 13.4L / 0.355L;
      return std::sqrt(a * a + b * b);
    }
    default: {
      size_t k = std::upper_bound(l.begin(), l.end(), x) - l.begin();
      if (k == l.size())
        return wd.back();
      return wd[k - 1] + (LD(wd[k]) - wd[k - 1]) * (x - LD(l[k - 1])) / (LD(l[k]) - l[k - 1]);
    }
    }
  };
  double lo = kind == 4 ? l.front() : 200, hi = kind == 4 ? l.back() : 30000;
  for (int k = 0; k < 10; ++k) {
    double x = kind == 4 && r.b(0.5) ? r.pick(l) : r.b(0.2) ? r.d(lo - 150, lo) : r.b(0.2) ? r.d(hi, hi + 2000) : r.d(lo, hi), cl = std::min(hi, std::max(lo, x));
    std::string at = vh::fmt("at %.17g", x);
    c.close(lsf->GetWidth(cl), double(law(cl)), 1e-12, 0, "width-law", at);
    c.close(lsf->GetWidth(x, true), double(law(cl)), 1e-12, 0, "width-clipped", at);
    if (kind == 4 && x != cl) {
      c.check(!lsf->checkAvailability(x), "availability", at);
      c.check(vh::throwsAmz([&] { lsf->GetWidth(x); }), "outside-table", at);
    } else {
      c.check(lsf->checkAvailability(x), "availability", at);
      c.close(lsf->GetWidth(x), double(law(x)), 1e-12, 0, "width-law", at);
      double y = x + r.d(-4, 4) * double(law(x)), u = (y - x) / double(law(x));
      c.close(lsf->GetProfileVal(y, x), std::exp(-0.5 * u * u), 1e-9, 1e-12, "lsf-profile", at);
    }
    double w = double(law(cl));
    V g;
    int n = r.i(1, 60);
    for (int i = 0; i < n; ++i)
      g.push_back(x + w * r.d(-5, 5));
    V v = lsf->getNormalizedProfileVector(g, x);
    LD sum = 0, ref = 0;
    c.eq(v.size(), g.size(), "kernel", at);
    for (double y : g)
      ref += std::exp(-0.5L * (y - x) / w * (y - x) / w);
    for (int i = 0; i < n; ++i) {
      double u = (g[i] - x) / w;
      sum += v[i], c.close(v[i], double(std::exp(-0.5L * u * u) / ref), 1e-8, 1e-12, "kernel", at);
    }
    c.close(double(sum), 1, 1e-12, 0, "kernel-sum", at);
    if (kind == 1)
      c.close(CLSFGaussianConstantResolution::computeResolution(cl, lsf->GetWidth(cl)), par, 1e-12, 0, "resolution", at);
  }
  c.eq(lsf->GetProfile()->GetNSigmaSupport(), 8., "support", "support of the line-spread function");
}
VH_CASE(lsfrefused, 300, 3000) {
  vh::Rng &r = c.r;
  int n = r.i(1, 20), kind = r.i(0, 4);
  V l = gen::axis(r, n, 1000, 9000), w(n, 2.);
  c.sigv(l), c.nontrivial = true;
  if (kind == 0)
    w.resize(n + (r.b() ? 1 : -1), 2.);
  else if (kind == 1)
    w[r.i(0, n - 1)] = r.b() ? 0 : -r.d(0, 3);
  else if (kind == 2)
    w.clear(), l.clear();
  bool t;
  if (kind < 3)
    t = vh::throwsAmz([&] { LSFFactory.Create("gaussianVariableWidth", std::make_shared<TLSFGaussianVarWidthArgs>(l, w)); });
  else if (kind == 3)
    t = vh::throwsAmz([&] { cx::lsfWidth(r.b() ? 0 : -r.d(0, 5)); });
  else
    t = vh::throwsAmz([&] { cx::lsfResolution(r.b() ? 0 : r.d(-5, 1)); });
  c.check(t, "invalid-lsf", vh::fmt("kind %d accepted", kind));
}
VH_MAIN
