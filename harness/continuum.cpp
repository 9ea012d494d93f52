// C12: continuum and continuum-free views against an independent implementation of the separation, over histories of calls.
#include "RedshiftLibrary/continuum/irregularsamplingmedian.h"
#include "RedshiftLibrary/processflow/parameterstore.h"
#include "RedshiftLibrary/processflow/scopestack.h"
#include "RedshiftLibrary/spectrum/template/catalog.h"
#include "ctx.h"
#include "gen.h"
#include <memory>
using namespace NSEpic;
using S = std::string;
using V = std::vector<double>;
static double med(V v) {
  std::sort(v.begin(), v.end());
  size_t n = v.size();
  return n % 2 ? v[n / 2] : 0.5 * (v[n / 2 - 1] + v[n / 2]);
}
static V medianPass(const V &y, int half) {
  V o(y.size());
  for (int i = 0; i < (int)y.size(); ++i)
    o[i] = med(V(y.begin() + std::max(0, i - half), y.begin() + std::min((int)y.size(), i + half + 1)));
  return o;
}
static double meanStep(const V &lam) { return (lam.back() - lam.front()) / (lam.size() - 1); }
struct Ref {
  bool refused = false, ambiguous = false, odd = false;
  V cont;
};
// definition: reflect the part between the first and last non-null fluxes, 5 passes of a median over a window of twice
// the kernel, 5 passes over the kernel, a mean over a quarter of the kernel
static Ref median(const V &lam, const V &f, const V &err, float width, bool even) {
  Ref r;
  int n = lam.size();
  double k = double(width) / meanStep(lam);
  r.ambiguous = std::fabs(k - std::floor(k) - 0.5) < 1e-9;
  int kern = (int)std::round(k);
  if (kern <= 0) {
    r.refused = true;
    return r;
  }
  int mean = std::min(kern, n / 2), m = std::max(mean, kern);
  int nz = 0, k0 = 0, k1 = 0;
  for (int i = 0; i < n; ++i)
    if (f[i] != 0) {
      if (!nz)
        k0 = i;
      k1 = i, ++nz;
    }
  r.cont.assign(n, 0);
  if (nz <= 10) {
    r.cont = f;
    return r;
  }
  int nd = k1 - k0 + 1;
  double half = std::round(nd / 2.0);
  int refl = half < 10 ? 10 : half > 5.0 * mean ? 5 * mean : half;
  V y;
  double fb = 0, fe = 0;
  r.odd = !even;
  if (!even) { // weighted straight line through the whole effective spectrum
    long double sw = 0, sx = 0, sy = 0;
    for (int i = k0; i <= k1; ++i) {
      long double w = 1 / ((long double)err[i] * err[i]);
      sw += w, sx += w * lam[i], sy += w * f[i];
    }
    long double mx = sx / sw, my = sy / sw, xx = 0, xy = 0;
    for (int i = k0; i <= k1; ++i) {
      long double w = 1 / ((long double)err[i] * err[i]);
      xx += w * (lam[i] - mx) * (lam[i] - mx), xy += w * (lam[i] - mx) * (f[i] - my);
    }
    fb = my + xy / xx * (lam[k0] - mx), fe = my + xy / xx * (lam[k1] - mx);
  }
  for (int i = refl - 1; i >= 0; --i)
    y.push_back(even ? f[k0 + i] : 2 * fb - f[k0 + i]);
  for (int i = k0; i <= k1; ++i)
    y.push_back(f[i]);
  for (int i = 0; i < refl; ++i)
    y.push_back(even ? f[k1 - i] : 2 * fe - f[k1 - i]);
  for (int p = 0; p < 5; ++p)
    y = medianPass(y, m);
  for (int p = 0; p < 5; ++p)
    y = medianPass(y, (m | 1) / 2);
  int q = std::max(1, mean / 4), h = q / 2, N = y.size();
  for (int i = k0; i <= k1; ++i) {
    int c = i - k0 + refl, a = std::max(0, c - h), b = std::min(N, c + h + q % 2);
    long double s = 0;
    for (int j = a; j < b; ++j)
      s += y[j];
    r.cont[i] = s / (b - a);
  }
  return r;
}
struct Par {
  S method;
  float width;
  bool even;
};
static Ref reference(const V &lam, const V &f, const V &err, const Par &p, const V &manual) {
  Ref r;
  if (p.method == "irregularSamplingMedian")
    return median(lam, f, err, p.width, p.even);
  r.cont = p.method == "raw" ? f : p.method == "manual" ? manual : V(f.size(), 0.);
  return r;
}
static double norm(const V &f) {
  double m = 0;
  for (double x : f)
    m = std::max(m, std::fabs(x));
  return m;
}
static V vec(const CSpectrumAxis &a) { return a.GetSamplesVector(); }
// views of a spectrum against the reference
static void views(vh::Case &c, const CSpectrum &s, const V &lam, const V &f, const V &err, const Par &p, const V &manual, const char *when) {
  Ref r = reference(lam, f, err, p, manual);
  if (r.ambiguous)
    return;
  S d = vh::str(when, " n=", lam.size(), " method=", p.method, " width=", p.width, " even=", p.even, " step=", meanStep(lam), " type=", s.GetType());
  auto entry = s.GetType();
  V cont, without, raw, ec, ew, er, view;
  bool refused = false;
  try {
    int order = c.r.i(0, 2);
    if (order == 0)
      cont = vec(s.GetContinuumFluxAxis()), without = vec(s.GetWithoutContinuumFluxAxis());
    else if (order == 1)
      without = vec(s.GetWithoutContinuumFluxAxis()), cont = vec(s.GetContinuumFluxAxis());
    else {
      s.SetType(CSpectrum::EType::nType_noContinuum);
      without = vec(s.GetFluxAxis());
      s.SetType(CSpectrum::EType::nType_continuumOnly);
      cont = vec(s.GetFluxAxis());
      s.SetType(entry);
    }
    raw = vec(s.GetRawFluxAxis());
    ec = vec(s.GetContinuumFluxAxis().GetError()), ew = vec(s.GetWithoutContinuumFluxAxis().GetError()), er = vec(s.GetRawFluxAxis().GetError());
    view = vec(s.GetFluxAxis());
  } catch (AmzException const &) {
    refused = true;
    s.SetType(CSpectrum::EType::nType_raw);
  }
  if (r.refused) {
    c.check(refused, "kernel-below-the-sampling-refused", d);
    return;
  }
  c.check(!refused, "continuum-estimated", d);
  if (refused)
    return;
  c.check(raw == f, "raw-flux-kept", d);
  c.check(er == err, "noise-kept", d + " raw");
  c.check(ew == err, "noise-kept", d + " without continuum");
  if (p.method != "manual")
    c.check(ec == err, "noise-kept", d + " continuum");
  bool sizes = cont.size() == f.size() && without.size() == f.size();
  c.check(sizes, "view-sizes", d);
  if (!sizes)
    return;
  double sc = norm(f);
  for (size_t i = 0; i < f.size(); ++i) {
    double tol = 1e-15 * std::max({std::fabs(cont[i]), std::fabs(without[i]), std::fabs(f[i])});
    if (!(std::fabs(cont[i] + without[i] - f[i]) <= tol)) {
      c.fail("continuum-plus-rest-is-the-flux", vh::fmt("%s sample %zu %.17g + %.17g is not %.17g", d.c_str(), i, cont[i], without[i], f[i]));
      break;
    }
  }
  c.check(true, "continuum-plus-rest-is-the-flux", "");
  // the median of an extrapolated border inherits the rounding of the straight line
  double tol = (r.odd ? 1e-7 : 1e-11) * std::max(sc, norm(r.cont));
  size_t worst = 0;
  for (size_t i = 0; i < f.size(); ++i)
    if (!(std::fabs(cont[i] - r.cont[i]) <= std::fabs(cont[worst] - r.cont[worst])))
      worst = i;
  c.check(std::fabs(cont[worst] - r.cont[worst]) <= tol, p.method == "irregularSamplingMedian" ? "median-continuum-definition" : "continuum-of-the-method",
          vh::fmt("%s sample %zu %.17g expected %.17g", d.c_str(), worst, cont[worst], r.cont[worst]));
  auto t = s.GetType();
  c.check(view == (t == CSpectrum::EType::nType_raw ? raw : t == CSpectrum::EType::nType_continuumOnly ? cont : without), "current-view", d);
  c.sig(S(p.method)), c.sig(r.odd ? 1 : 0), c.sig((int)std::log2(f.size()));
  c.nontrivial = true;
}
struct Spc {
  V lam, f, e;
};
static Spc make(vh::Case &c, bool zeros) {
  Spc s;
  int n = c.r.b(0.2) ? c.r.i(3, 14) : c.r.b(0.1) ? c.r.i(500, 900) : c.r.i(15, 220);
  double l = c.r.d(1000, 9000), st = c.r.logd(0.2, 20);
  int kind = c.r.i(0, 2);
  for (int i = 0; i < n; ++i) {
    s.lam.push_back(l);
    l += kind == 0 ? st : kind == 1 ? l * st * 1e-4 : st * c.r.d(0.2, 2);
  }
  double a = c.r.logd(1e-18, 1e3), slope = c.r.d(-1, 1), wave = c.r.d(0.5, 8), nz = c.r.b(0.3) ? 0 : c.r.logd(1e-3, 1);
  for (int i = 0; i < n; ++i) {
    double x = double(i) / n;
    double v = 1 + slope * x + 0.3 * std::sin(wave * 6.28 * x) + nz * c.r.d(-1, 1);
    if (c.r.b(0.02))
      v += c.r.d(-5, 20); // line
    s.f.push_back(a * v);
    s.e.push_back(a * c.r.logd(0.01, 1));
  }
  if (zeros) {
    int b = c.r.i(0, n), e = c.r.i(0, n);
    if (c.r.b(0.5))
      b /= 8, e /= 8;
    for (int i = 0; i < n; ++i)
      if (i < b || i >= n - e || c.r.b(0.02))
        s.f[i] = 0;
  }
  return s;
}
static Par params(vh::Case &c, const Spc &s) {
  static const std::vector<S> m = {"irregularSamplingMedian", "irregularSamplingMedian", "irregularSamplingMedian", "raw", "zero"};
  double step = meanStep(s.lam);
  return {c.r.pick(m), float(c.r.b(0.6) ? step * c.r.d(3, 40) : c.r.b(0.8) ? step * c.r.logd(0.6, 5) : step * c.r.logd(0.1, 1000)), c.r.b()};
}
static void apply(const CSpectrum &, CSpectrum &s, const Par &p) {
  s.SetContinuumEstimationMethod(p.method);
  s.SetMedianWinsize(p.width);
  s.SetMedianEvenReflection(p.even);
}
static const std::vector<CSpectrum::EType> types = {CSpectrum::EType::nType_raw, CSpectrum::EType::nType_continuumOnly, CSpectrum::EType::nType_noContinuum};
VH_CASE(decomposition, 700, 12000) {
  Spc s = make(c, c.r.b(0.4));
  Par p = params(c, s);
  auto sp = cx::spectrum(s.lam, s.f, s.e);
  apply(*sp, *sp, p);
  if (c.r.b())
    sp->SetType(c.r.pick(types));
  views(c, *sp, s.lam, s.f, s.e, p, {}, "direct");
}
// offset, scale and constant spectra, through the filter itself
VH_CASE(invariance, 500, 8000) {
  Spc s = make(c, false);
  while (s.lam.size() < 12)
    s = make(c, false);
  double step = meanStep(s.lam);
  float width = float(step * c.r.d(1.2, 40));
  bool even = c.r.b(0.6);
  auto cont = [&](const V &f) {
    auto sp = cx::spectrum(s.lam, f, s.e);
    apply(*sp, *sp, {"irregularSamplingMedian", width, even});
    return vec(sp->GetContinuumFluxAxis());
  };
  double sc = norm(s.f), off = sc * c.r.d(1.5, 6) * (c.r.b() ? 1 : -1), k = c.r.logd(1e-3, 1e3) * (c.r.b() ? 1 : -1);
  V base = cont(s.f), g = s.f, h = s.f;
  for (auto &x : g)
    x += off;
  for (auto &x : h)
    x *= k;
  V cg = cont(g), ch = cont(h);
  S d = vh::str("n=", s.lam.size(), " width=", width, " even=", even, " step=", step);
  double eo = 0, es = 0;
  bool allnz = std::all_of(s.f.begin(), s.f.end(), [](double x) { return x != 0; }) && std::all_of(g.begin(), g.end(), [](double x) { return x != 0; });
  for (size_t i = 0; i < g.size(); ++i) {
    double a = std::fabs(cg[i] - base[i] - off), b = std::fabs(ch[i] - k * base[i]);
    eo = a > eo || !(a == a) ? a : eo, es = b > es || !(b == b) ? b : es;
  }
  if (allnz)
    c.check(eo <= (even ? 1e-11 : 1e-6) * (sc + std::fabs(off)), "offset-moves-the-continuum-by-itself", vh::fmt("%s offset %g difference %g", d.c_str(), off, eo));
  c.check(es <= (even ? 1e-11 : 1e-6) * std::fabs(k) * sc, "scaled-flux-scales-the-continuum", vh::fmt("%s scale %g difference %g", d.c_str(), k, es));
  double v = c.r.logd(1e-18, 1e5) * (c.r.b() ? 1 : -1), ec = 0;
  for (double x : cont(V(s.lam.size(), v)))
    ec = std::fabs(x - v) > ec || !(x == x) ? std::fabs(x - v) : ec;
  c.check(ec <= 1e-9 * std::fabs(v), "constant-spectrum-is-its-continuum", vh::fmt("%s value %g difference %g", d.c_str(), v, ec));
  // a line narrower than half the kernel on a constant spectrum leaves the continuum unchanged far from the border
  int kern = (int)std::round(double(width) / step), n = s.lam.size();
  if (kern >= 6 && n > 12 * kern) {
    V f(n, v);
    int c0 = c.r.i(5 * kern, n - 5 * kern), w = c.r.i(1, kern / 3);
    for (int i = 0; i < w; ++i)
      f[c0 + i] += std::fabs(v) * c.r.d(1, 100);
    double e = 0;
    if (even) {
      for (double x : cont(f))
        e = std::max(e, std::fabs(x - v));
      c.check(e <= 1e-9 * std::fabs(v), "narrow-line-not-in-the-continuum", vh::fmt("%s kernel %d line of %d samples at %d, difference %g", d.c_str(), kern, w, c0, e));
    }
  }
  c.nontrivial = true;
  c.sig((int)std::log2(n)), c.sig(even);
}
// history of calls on one spectrum: the views are those of a fresh spectrum in the same state
VH_CASE(history, 500, 8000) {
  Spc s = make(c, c.r.b(0.2));
  // a kernel below the sampling is refused, at the first call that needs the view
  auto served = [&](float w) { return std::max(w, float(0.6 * meanStep(s.lam))); };
  Par p = params(c, s);
  p.width = served(p.width);
  V manual;
  auto sp = cx::spectrum(s.lam, s.f, s.e);
  apply(*sp, *sp, p);
  S log;
  for (int step = 0, n = c.r.i(3, 10); step < n; ++step) {
    int op = c.r.i(0, 12);
    log += vh::str(" ", op);
    switch (op) {
    case 0:
      sp->SetType(c.r.pick(types));
      break;
    case 1:
      p.method = c.r.pick(std::vector<S>{"irregularSamplingMedian", "irregularSamplingMedian", "raw", "zero"});
      sp->SetContinuumEstimationMethod(p.method);
      break;
    case 2:
      p.width = served(params(c, s).width);
      sp->SetMedianWinsize(p.width);
      break;
    case 3:
      p.even = !p.even;
      sp->SetMedianEvenReflection(p.even);
      break;
    case 4: { // known decomposition
      manual.clear();
      for (double x : s.f)
        manual.push_back(x * c.r.d(0, 1) + (x ? 0 : 1e-3));
      p.method = "manual";
      sp->SetContinuumEstimationMethod(CSpectrumFluxAxis(manual));
      break;
    }
    case 5: {
      if (p.method == "manual")
        break;
      double a = c.r.logd(1e-3, 1e3) * (c.r.b(0.8) ? 1 : -1);
      sp->ApplyAmplitude(a);
      for (auto &x : s.f)
        x *= a;
      break;
    }
    case 6:
      if (p.method == "manual")
        break;
      sp->InvertFlux();
      for (auto &x : s.f)
        x = -x;
      break;
    case 7: {
      if (p.method == "manual")
        break;
      for (auto &x : s.f)
        x *= c.r.d(0.9, 1.1);
      for (auto &x : s.e)
        x *= c.r.d(0.9, 1.1);
      sp->SetFluxAxis(CSpectrumFluxAxis(CSpectrumFluxAxis(s.f), CSpectrumNoiseAxis(s.e)));
      c.check(sp->GetType() == CSpectrum::EType::nType_raw, "new-flux-gives-the-raw-view", "");
      break;
    }
    case 8: {
      auto t = sp->GetType();
      sp = std::make_shared<CSpectrum>(*sp);
      c.check(sp->GetType() == t, "copy-keeps-the-view", "");
      break;
    }
    case 9: {
      auto t = sp->GetType();
      CSpectrum o;
      o = *sp;
      sp = std::make_shared<CSpectrum>(std::move(o));
      c.check(sp->GetType() == t, "copy-keeps-the-view", "");
      break;
    }
    case 10: { // a part of the spectrum estimates its own continuum
      if (s.f.size() < 6 || p.method == "manual")
        break;
      int a = c.r.i(0, s.f.size() / 3), b = c.r.i(s.f.size() / 2, s.f.size() - 1);
      auto part = std::make_shared<CSpectrum>(sp->extract(a, b));
      auto cut = [&](const V &v) { return V(v.begin() + a, v.begin() + b + 1); };
      Par q = p;
      if (q.width < 0.6 * meanStep(cut(s.lam)))
        break;
      views(c, *part, cut(s.lam), cut(s.f), cut(s.e), q, {}, "extract");
      break;
    }
    case 11: { // masking keeps the decomposition already made
      if (p.method == "irregularSamplingMedian" || s.f.size() < 6 || p.method == "manual")
        break;
      V m;
      Spc t;
      for (size_t i = 0; i < s.f.size(); ++i)
        if (m.push_back(c.r.b(0.8)), m.back())
          t.lam.push_back(s.lam[i]), t.f.push_back(s.f[i]), t.e.push_back(s.e[i]);
      if (t.f.size() < 3)
        break;
      CSpectrum k(*sp, m);
      views(c, k, t.lam, t.f, t.e, p, {}, "mask");
      break;
    }
    default:
      views(c, *sp, s.lam, s.f, s.e, p, manual, ("history" + log).c_str());
    }
  }
  views(c, *sp, s.lam, s.f, s.e, p, manual, ("history" + log).c_str());
}
// masked spectrum with an estimated median continuum: the decomposition is the masked one
VH_CASE(masked, 200, 3000) {
  Spc s = make(c, false);
  while (s.lam.size() < 20)
    s = make(c, false);
  Par p{"irregularSamplingMedian", float(meanStep(s.lam) * c.r.d(4, 20)), c.r.b()};
  auto sp = cx::spectrum(s.lam, s.f, s.e);
  apply(*sp, *sp, p);
  auto t = c.r.pick(types);
  V cont = vec(sp->GetContinuumFluxAxis()), without = vec(sp->GetWithoutContinuumFluxAxis());
  sp->SetType(t);
  V m, mc, mw, mf, me, ml;
  for (size_t i = 0; i < s.f.size(); ++i)
    if (m.push_back(i == 0 || c.r.b(0.7)), m.back())
      mc.push_back(cont[i]), mw.push_back(without[i]), mf.push_back(s.f[i]), me.push_back(s.e[i]), ml.push_back(s.lam[i]);
  CSpectrum k(*sp, m);
  c.check(k.GetType() == t, "copy-keeps-the-view", "");
  c.check(vec(k.GetSpectralAxis()) == ml && vec(k.GetRawFluxAxis()) == mf, "mask-selects-the-samples", "");
  c.check(vec(k.GetContinuumFluxAxis()) == mc && vec(k.GetWithoutContinuumFluxAxis()) == mw, "mask-selects-the-decomposition", "");
  c.check(vec(k.GetRawFluxAxis().GetError()) == me && vec(k.GetContinuumFluxAxis().GetError()) == me && vec(k.GetWithoutContinuumFluxAxis().GetError()) == me, "mask-selects-the-noise", "");
  c.nontrivial = true;
  c.sig((int)ml.size());
}
// parameters of the spectrum and of the template catalogue
VH_CASE(parameters, 250, 4000) {
  Spc s = make(c, c.r.b(0.2)), t = make(c, false);
  Par p = params(c, s), q = params(c, t);
  int smooth = c.r.b(0.6) ? 0 : c.r.i(1, 4);
  CParameterStore store(std::make_shared<CScopeStack>());
  auto sec = [](const Par &p) {
    return vh::fmt("{\"method\":\"%s\",\"medianKernelWidth\":%.9g,\"medianEvenReflection\":%s}", p.method.c_str(), p.width, p.even ? "true" : "false");
  };
  store.FromString(vh::fmt("{\"smoothWidth\":%d,\"continuumRemoval\":", smooth) + sec(p) + ",\"templateCatalog\":{\"continuumRemoval\":" + sec(q) + "}}");
  auto sp = cx::spectrum(s.lam, s.f, s.e);
  if (c.r.b()) { // left over from before
    apply(*sp, *sp, params(c, s));
    try {
      sp->GetContinuumFluxAxis();
    } catch (AmzException const &) {
    }
    sp->SetType(c.r.pick(types));
    try {
      sp->InitSpectrumContinuum(store);
    } catch (AmzException const &) {
      return; // the view left over could not be computed
    }
  } else
    sp->InitSpectrumContinuum(store);
  c.check(sp->GetType() == CSpectrum::EType::nType_raw, "initialised-on-the-raw-view", "");
  V f = s.f;
  int n = f.size();
  if (smooth && n >= smooth + 1)
    for (int i = 0; i < n; ++i) {
      double sum = 0;
      int a = std::max(0, i - smooth), b = std::min(n - 1, i + smooth);
      for (int j = a; j <= b; ++j)
        sum += s.f[j];
      f[i] = sum / (b - a + 1);
    }
  V raw = vec(sp->GetRawFluxAxis());
  bool same = true;
  for (int i = 0; i < n; ++i)
    same = same && std::fabs(raw[i] - f[i]) <= 1e-13 * norm(f);
  c.check(same, "smoothed-input-flux", vh::str("width ", smooth));
  views(c, *sp, s.lam, raw, s.e, p, {}, "parameters");
  auto cat = std::make_shared<CTemplateCatalog>();
  auto tp = std::make_shared<CTemplate>("t", "galaxy", CSpectrumSpectralAxis(t.lam), CSpectrumFluxAxis(CSpectrumFluxAxis(t.f), CSpectrumNoiseAxis(t.e)));
  cat->Add(tp);
  cat->InitContinuumRemoval(std::shared_ptr<const CParameterStore>(&store, [](auto *) {}));
  auto got = cat->GetTemplateByName({"galaxy"}, "t");
  views(c, *got, t.lam, t.f, t.e, q, {}, "template");
}
VH_MAIN
