// C08: the line model's merit, amplitudes and reported lines against an independent evaluation of the model.
#include "lmworld.h"
#include "RedshiftLibrary/operator/templatefitting.h"
#include "RedshiftLibrary/method/linemodelsolve.h"
#include "RedshiftLibrary/linemodel/linemodelextremaresult.h"
#include "RedshiftLibrary/operator/modelspectrumresult.h"
using namespace NSEpic;
using namespace lm;

static const char *EM[] = {"Halpha", "Hbeta", "Hgamma", "Hdelta", "H8", "H9", "[OII]3726", "[OII]3729", "[OIII]a", "[OIII]b", "[NII]a", "[NII]b", "[CIII]1907", "[CIII]1909"};
static const char *AB[] = {"HalphaA", "HbetaA", "HgammaA", "HdeltaA", "H8A", "H9A"};

static World mk(vh::Case &c, int nobs, const std::string &cont, bool groups, bool real) {
  vh::Rng &r = c.r;
  World w;
  w.cont = cont;
  w.zlo = r.d(0.05, 1.2), w.zhi = w.zlo + r.d(0.02, 0.15);
  double a = r.d(4000, 6000), b = a + r.d(800, 4000), end = 0;
  for (int k = 0; k < nobs; ++k) {
    Obs o;
    int n = r.i(150, 500) + k;
    double lo = k == 0 || r.b() ? a * r.d(1, 1.02) : end * r.d(0.9, 1.05), span = b - a;
    o.lam = gen::axis(r, n, 0, 1);
    double u0 = o.lam.front(), u1 = o.lam.back();
    for (auto &x : o.lam)
      x = lo + span * (x - u0) / (u1 - u0);
    end = o.lam.back();
    o.lo = r.b() ? lo - 10 : lo + span * r.d(0, 0.2);
    o.hi = r.b() ? end + 10 : end - span * r.d(0, 0.2);
    o.id = nobs > 1 ? vh::fmt("o%d", k) : "";
    w.obs.push_back(o);
  }
  double step = (b - a) / 300;
  if (r.b(0.7))
    w.lsfw = step * r.d(0.8, 3), w.res = 0;
  else
    w.lsfw = 0, w.res = a / (2.35 * step * r.d(0.8, 3));
  w.vem = r.d(80, 600), w.vabs = r.d(100, 900);
  w.width = r.pick(std::vector<std::string>{"combined", "combined", "instrumentDriven", "velocityDriven"});
  if (w.width == "velocityDriven") // keep the lines sampled
    w.vem = 3e5 * step * r.d(0.8, 3) / a, w.vabs = 3e5 * step * r.d(0.8, 3) / a;
  w.nsig = r.pick(std::vector<double>{8, 8, 6, 10, 4});
  w.method = "individual", w.ratioType = "rules", w.rules = "no";
  int nl = r.i(1, 10);
  double amax = std::max(w.obs[0].lam.back(), end), r0 = a / (1 + w.zhi), r1 = amax / (1 + w.zlo);
  std::vector<double> ps;
  std::set<std::string> used;
  for (int k = 0; k < nl; ++k) {
    Line l;
    l.em = r.b(0.65);
    l.strong = r.b();
    l.pos = !ps.empty() && r.b(0.3) ? ps[r.i(0, ps.size() - 1)] * (1 + r.d(-1, 1) * 0.01) : r0 + (r1 - r0) * r.d(-0.05, 1.05);
    l.profile = r.b(0.75) ? "SYM" : "LOR";
    l.nominal = 1;
    l.group = undefStr;
    l.id = k * 3 + 1;
    l.offset = r.b(0.8) ? 0 : r.d(-300, 300);
    l.name = vh::fmt("L%d", k);
    if (real) {
      if (l.em)
        l.name = EM[r.b() ? r.i(0, 13) : r.pick(std::vector<int>{0, 10, 11, 6, 7})];
      else
        l.name = AB[r.i(0, 5)];
      if (used.count(l.name))
        continue;
      used.insert(l.name);
    }
    if (groups && r.b(0.5)) {
      l.group = vh::fmt("%c%d", l.em ? 'e' : 'a', r.i(0, 1));
      l.nominal = r.d(0.1, 1);
    }
    ps.push_back(l.pos);
    w.lines.push_back(l);
  }
  // data: continuum, lines at a redshift of the range, noise
  double z = r.d(w.zlo, w.zhi), lev = r.logd(0.1, 10), sl = r.d(-0.5, 0.5);
  for (auto &o : w.obs) {
    int n = o.lam.size();
    o.err = gen::noise(r, n, lev * 0.05);
    for (int i = 0; i < n; ++i)
      o.flux.push_back(lev * (1 + sl * (o.lam[i] - a) / (b - a) + 0.1 * std::sin(o.lam[i] / 700)));
  }
  for (auto &l : w.lines) {
    double A = r.b(0.8) ? r.d(0.1, l.em ? 3 : 0.9) : -r.d(0, 0.3), mu = l.pos * (1 + z), s = std::max(step, 1.2 * mu * w.vem / C);
    for (auto &o : w.obs)
      for (size_t i = 0; i < o.lam.size(); ++i) {
        double t = (o.lam[i] - mu) / s;
        o.flux[i] *= l.em ? 1 : 1 - A * std::exp(-0.5 * t * t);
        o.flux[i] += l.em ? lev * A * std::exp(-0.5 * t * t) : 0;
      }
  }
  for (auto &o : w.obs)
    for (size_t i = 0; i < o.lam.size(); ++i)
      o.flux[i] += o.err[i] * r.g();
  w.contMethod = r.b() ? "irregularSamplingMedian" : "zero";
  if (cont == "fromSpectrum")
    w.contMethod = "irregularSamplingMedian";
  return w;
}
// a template covering the rest frame of every observation
static std::shared_ptr<CTemplate> addTemplate(World &w, const std::string &name, const std::function<double(double)> &f, int n = 400) {
  double a = INFINITY, b = 0;
  for (auto &o : w.obs)
    a = std::min(a, o.lam.front()), b = std::max(b, o.lam.back());
  a = a / (1 + w.zhi) * 0.95, b = b / (1 + w.zlo) * 1.05;
  V x, y;
  for (int i = 0; i < n; ++i)
    x.push_back(a + (b - a) * i / (n - 1.)), y.push_back(f(x.back()));
  if (!w.cat)
    w.cat = std::make_shared<CTemplateCatalog>(0);
  auto t = std::make_shared<CTemplate>(name, "galaxy", CSpectrumSpectralAxis(x), CSpectrumFluxAxis(y));
  w.cat->Add(t);
  return t;
}
// lines kept by the catalogue filters, grouped as the elements of the model
static std::vector<std::vector<int>> elements(const World &w, bool two) {
  std::map<std::string, std::vector<int>> g;
  for (size_t k = 0; k < w.lines.size(); ++k) {
    auto &l = w.lines[k];
    if ((w.typeFilter == "E" && !l.em) || (w.typeFilter == "A" && l.em) || (w.forceFilter == "S" && !l.strong) || (w.forceFilter == "W" && l.strong))
      continue;
    g[two ? (l.em ? "1" : "0") : l.group == undefStr ? "single_" + l.name : l.group].push_back(k);
  }
  std::vector<std::vector<int>> e;
  for (auto &q : g)
    e.push_back(q.second);
  return e;
}
struct Fitted {
  double z, merit;
  CLineModelSolution sol;
  CTplModelSolution cont;
};
static Fitted fit(CLineModelFitting &f, double z, int reest = 0) {
  Fitted q;
  q.z = z;
  q.merit = f.fit(z, q.sol, q.cont, reest, true);
  return q;
}
static bool same(double a, double b, double rel = 1e-12) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)); }
// index of a line in the reported lists
static int idx(const Fitted &q, int id) {
  auto it = std::find(q.sol.lineId.begin(), q.sol.lineId.end(), id);
  return it == q.sol.lineId.end() ? -1 : it - q.sol.lineId.begin();
}
static V amps(const World &w, const Ref &R, const Fitted &q) {
  V a(w.lines.size(), NAN);
  for (size_t k = 0; k < w.lines.size(); ++k)
    if (R.eltOf[k] >= 0)
      a[k] = q.sol.Amplitudes[idx(q, w.lines[k].id)];
  return a;
}
// the reported description of the lines agrees with the model's definition
static void reported(vh::Case &c, const World &w, const Ref &R, const Fitted &q, const char *what) {
  c.check(q.sol.lineId.size() == size_t(std::count_if(R.eltOf.begin(), R.eltOf.end(), [](int e) { return e >= 0; })), "the-model-holds-the-lines-of-the-filtered-catalogue",
          vh::str(what, " lines ", q.sol.lineId.size()));
  for (size_t k = 0; k < w.lines.size(); ++k) {
    int i = idx(q, w.lines[k].id);
    if (R.eltOf[k] < 0 || i < 0)
      continue;
    auto &l = w.lines[k];
    double A = q.sol.Amplitudes[i];
    std::string at = vh::fmt("%s z=%.9g line %d (%s at %.6g) ", what, R.z, l.id, l.em ? "emission" : "absorption", l.pos);
    if (R.outAll(k)) {
      c.check(std::isnan(A), "a-line-outside-every-range-is-not-fitted", at + vh::fmt("amplitude %.9g", A));
      continue;
    }
    double mu = l.pos * (1 + R.z) * (1 + R.off[k] / C);
    c.close(q.sol.LambdaObs[i], mu, 1e-12, 0, "reported-line-position", at);
    c.check(std::isnan(A) || A >= 0, "amplitudes-are-not-negative", at + vh::fmt("amplitude %.9g", A));
    if (std::isnan(A))
      continue;
    double sig = R.width(l, mu);
    c.close(q.sol.Sigmas[i], sig, 1e-12, 0, "reported-line-width", at);
    c.close(q.sol.Velocity[i], l.em ? R.vem : R.vabs, 1e-12, 0, "reported-line-velocity", at);
    if (l.em && l.profile == "SYM") {
      double f = sig * std::sqrt(2 * M_PI);
      c.close(q.sol.Flux[i], A * f, 1e-9, 0, "reported-line-flux-is-the-integral-of-the-profile", at);
      if (std::isfinite(q.sol.AmplitudesUncertainties[i]))
        c.close(q.sol.FluxUncertainty[i], q.sol.AmplitudesUncertainties[i] * f, 1e-9, 0, "reported-line-flux-uncertainty", at);
    }
  }
}
static void revisit(vh::Case &c, const World &w, const Fitted &a, const Fitted &b, const char *what) {
  c.check(same(a.merit, b.merit), "same-merit-when-the-redshift-is-visited-again", vh::fmt("%s z=%.9g first %.17g then %.17g", what, a.z, a.merit, b.merit));
  for (size_t i = 0; i < a.sol.Amplitudes.size(); ++i)
    if (!c.check(same(a.sol.Amplitudes[i], b.sol.Amplitudes[i]) && same(a.sol.AmplitudesUncertainties[i], b.sol.AmplitudesUncertainties[i]) && same(a.sol.Flux[i], b.sol.Flux[i]),
                 "same-lines-when-the-redshift-is-visited-again", vh::fmt("%s z=%.9g line %d amplitude %.17g then %.17g", what, a.z, a.sol.lineId[i], a.sol.Amplitudes[i], b.sol.Amplitudes[i])))
      break;
}
struct Model {
  std::unique_ptr<Scope> scope;
  std::shared_ptr<CLineModelFitting> f;
  CLineModelFitting &operator*() { return *f; }
  CLineModelFitting *operator->() { return f.get(); }
};
static Model start(World &w, vh::Case &c) {
  context(w);
  Model m;
  m.scope = std::make_unique<Scope>();
  auto op = std::make_shared<COperatorTemplateFitting>(TFloat64List{w.zlo, w.zhi});
  auto f = m.f = std::make_shared<CLineModelFitting>(op);
  f->setPassMode(2);
  f->setContinuumComponent(w.cont);
  f->SetAbsLinesLimit(w.absLimit);
  return m;
}
// fluxes, continuum and complexes reported with the lines; one observation, no offset of the amplitudes
static void derived(vh::Case &c, const World &w, const Ref &R, const Fitted &q, const char *what) {
  if (w.obs.size() != 1 || !R.poly.empty() || R.edge)
    return;
  auto &O = w.obs[0];
  int n = O.lam.size();
  auto at = [&](double x) { return std::min(n - 1, int(std::lower_bound(O.lam.begin(), O.lam.end(), x) - O.lam.begin())); };
  std::map<std::string, int> em;
  for (size_t l = 0; l < w.lines.size(); ++l) {
    if (R.eltOf[l] < 0)
      continue;
    auto &L = w.lines[l];
    int i = idx(q, L.id);
    if (i < 0)
      continue;
    if (L.em && !R.outAll(l))
      em[L.name] = l;
    auto &S = R.sup[0][l];
    if (S.out || L.profile != "SYM")
      continue;
    std::string ctx = vh::fmt("%s z=%.9g line %d (%s %s at %.6g)", what, R.z, L.id, L.name.c_str(), L.em ? "emission" : "absorption", S.mu);
    // continuum at the line: mean weighted by the profile, over the window
    double win = R.prof[l]->GetNSigmaSupport() * S.sig;
    int a = at(std::max(S.mu - win / 2, O.lam.front())), b = at(std::min(S.mu + win / 2, O.lam.back()));
    LD sw = 0, swc = 0, mag = 0;
    for (int k = a; k <= b; ++k) {
      LD p = R.p(l, S.mu, S.sig, O.lam[k]);
      sw += p, swc += p * R.cont[0][k], mag += p * std::fabs(R.cont[0][k]);
    }
    bool cont = sw > 1e-3 && b > a;
    if (cont)
      c.close(q.sol.CenterContinuumFlux[i], double(swc / sw), 1e-9, 1e-5 * double(mag / sw), "reported-continuum-is-the-mean-under-the-line", ctx);
    double A = q.sol.Amplitudes[i], f = S.sig * std::sqrt(2 * M_PI);
    if (!L.em && A >= 0 && cont)
      c.close(q.sol.Flux[i], -A * std::max(0., q.sol.CenterContinuumFlux[i]) * f, 1e-9, 0, "flux-of-an-absorption-line", ctx);
    // integral of the data over the continuum, within three widths of the line
    a = at(std::max(S.mu - 3 * S.sig, O.clo)), b = at(std::min(S.mu + 3 * S.sig, O.chi_));
    if (O.lam[b] > O.chi_)
      --b;
    bool close = false;
    for (double x : {S.mu - 3 * S.sig, S.mu + 3 * S.sig})
      for (int k : {at(x) - 1, at(x), at(x) + 1})
        close = close || (k >= 0 && k < n && O.lam[k] != x && std::fabs(O.lam[k] - x) < 1e-9 * x);
    for (size_t m = 0; m < w.lines.size() && L.em; ++m) // whether absorption lines under the line belong to its continuum is not stated
      close = close || (!w.lines[m].em && R.eltOf[m] >= 0 && !R.sup[0][m].out && R.sup[0][m].b <= b && R.sup[0][m].e >= a);
    if (close || a < S.b || b > S.e)
      continue;
    LD sum = 0, big = 0, lo = 0;
    std::vector<LD> wt(std::max(0, b - a + 1), 0);
    for (int k = a; k < b; ++k) {
      LD d = (LD(O.lam[k + 1]) - O.lam[k]) / 2, u = LD(R.y[0][k]) - R.cont[0][k], v = LD(R.y[0][k + 1]) - R.cont[0][k + 1];
      sum += d * (u + v), big += d * (std::fabs(double(u)) + std::fabs(double(v)) + std::fabs(R.cont[0][k]));
      wt[k - a] += d, wt[k + 1 - a] += d;
    }
    for (int k = a; k <= b; ++k)
      lo += wt[k - a] * wt[k - a] * O.err[k] * O.err[k];
    if (b <= a || !(lo > 0)) {
      c.check(std::isnan(q.sol.FluxDirectIntegration[i]), "no-direct-flux-without-samples", ctx + vh::fmt(" %.9g", q.sol.FluxDirectIntegration[i]));
      continue;
    }
    c.close(q.sol.FluxDirectIntegration[i], double(sum), 1e-9, 1e-11 * double(big), "direct-flux-is-the-integral-of-the-data-over-the-continuum", ctx);
    double u = q.sol.FluxDirectIntegrationUncertainty[i], hi = double(std::sqrt(lo));
    if (sum != 0 && std::fabs(double(sum)) > 1e-9 * double(big))
      c.check(u <= hi * (1 + 1e-6) && u >= hi * std::sqrt(0.5) * (1 - 1e-6), "direct-flux-uncertainty", ctx + vh::fmt(" %.9g for the propagated %.9g", u, hi));
  }
  auto complex = [&](const std::vector<std::string> &names, double lf, double snr, const char *key) {
    LD F = 0, V2 = 0;
    for (auto &nm : names) {
      if (!em.count(nm))
        return;
      int i = idx(q, w.lines[em[nm]].id);
      if (q.sol.Flux[i] > 0)
        F += q.sol.Flux[i];
      if (q.sol.FluxUncertainty[i] > 0)
        V2 += LD(q.sol.FluxUncertainty[i]) * q.sol.FluxUncertainty[i];
    }
    std::string ctx = vh::fmt("%s z=%.9g %s", what, R.z, key);
    if (F > 0)
      c.close(lf, double(std::log10(F)), 1e-9, 1e-9, "flux-of-a-complex-is-the-sum-of-its-lines", ctx);
    else
      c.check(lf == -INFINITY, "flux-of-a-complex-is-the-sum-of-its-lines", ctx + vh::fmt(" %.9g for a null flux", lf));
    if (V2 > 0 && std::isfinite(double(V2)))
      c.close(snr, double(F / std::sqrt(V2)), 1e-9, 0, "snr-of-a-complex", ctx);
  };
  complex({"Halpha", "[NII]a", "[NII]b"}, q.sol.lfHa, q.sol.snrHa, "Ha complex");
  complex({"[OII]3726", "[OII]3729"}, q.sol.lfOII, q.sol.snrOII, "OII doublet");
}
static void meritCheck(vh::Case &c, const World &w, const Ref &R, const Fitted &q, const char *what) {
  V A = amps(w, R, q);
  std::vector<V> mod;
  for (size_t o = 0; o < w.obs.size(); ++o)
    mod.push_back(R.model(o, A));
  LD m = R.merit(mod);
  std::string at = vh::fmt("%s %s/%s z=%.9g obs=%d lines=%d", what, w.cont.c_str(), w.contMethod.c_str(), R.z, int(w.obs.size()), int(w.lines.size()));
  c.close(q.merit, double(m), 1e-8, 1e-9, "merit-is-the-squared-difference-with-the-model-of-the-reported-lines", at);
  double big = 0;
  for (auto &O : w.obs)
    for (double v : O.flux)
      big = std::max(big, std::fabs(v));
  for (size_t e = 0; e < R.elts.size(); ++e) { // residual under the element of a line
    if (R.eltOut(e))
      continue;
    LD s = 0, n = 0;
    for (size_t o = 0; o < w.obs.size(); ++o)
      for (int i : R.samples({int(e)}, o)) {
        LD r = (LD(R.y[o][i]) - mod[o][i]) / w.obs[o].err[i];
        s += r * r, n += 1 / (LD(w.obs[o].err[i]) * w.obs[o].err[i]);
      }
    for (int l : R.elts[e])
      if (!R.outAll(l) && n > 0 && s > 1e-15) // a perfect fit has no residual to report
        c.close(q.sol.ResidualRMS[idx(q, w.lines[l].id)], double(std::sqrt(s / n)), 1e-7, 1e-9 * big, "reported-residual-under-the-lines", at + vh::fmt(" line %d", w.lines[l].id));
  }
}
static std::vector<double> visits(vh::Case &c, const World &w) {
  std::vector<double> z;
  int n = c.r.i(2, 4);
  for (int i = 0; i < n; ++i)
    z.push_back(c.r.d(w.zlo, w.zhi));
  z.push_back(z[0]);
  return z;
}
// ---------------------------------------------------------------- individual fits, no rules
VH_CASE(lm_individual, 400, 6000) {
  World w = mk(c, c.r.b(0.5) ? 1 : c.r.i(2, 3), c.r.b() ? "noContinuum" : "fromSpectrum", true, false);
  if (w.lines.empty())
    c.skip();
  if (c.r.b(0.3))
    w.typeFilter = c.r.pick(std::vector<std::string>{"E", "A"});
  if (c.r.b(0.3))
    w.forceFilter = "S";
  if (c.r.b(0.4))
    w.absLimit = 1;
  auto e = elements(w, false);
  if (e.empty())
    c.skip();
  c.sig(int(w.obs.size())), c.sig(int(w.lines.size())), c.sig(int(w.cont == "noContinuum")), c.sig(int(e.size()));
  auto f = start(w, c);
  auto zs = visits(c, w);
  std::vector<Fitted> qs;
  for (double z : zs) {
    Ref R(w, z, e, {}, w.vem, w.vabs);
    R.data();
    qs.push_back(fit(*f, z));
    auto &q = qs.back();
    if (R.edge)
      continue;
    reported(c, w, R, q, "individual");
    meritCheck(c, w, R, q, "individual");
    derived(c, w, R, q, "individual");
    V nom;
    for (auto &l : w.lines)
      nom.push_back(l.nominal);
    if (R.touching)
      continue;
    for (size_t k = 0; k < e.size(); ++k) {
      if (R.eltOut(k))
        continue;
      auto t = R.alone(k, nom);
      for (int l : e[k]) {
        if (R.outAll(l))
          continue;
        double A = q.sol.Amplitudes[idx(q, w.lines[l].id)], s = q.sol.AmplitudesUncertainties[idx(q, w.lines[l].id)];
        std::string at = vh::fmt("z=%.9g line %d of an element of %d", z, w.lines[l].id, int(e[k].size()));
        if (!t.ok()) {
          c.check(std::isnan(A), "no-amplitude-without-constraint", at);
          continue;
        }
        double want = std::max(0., double(t.t / t.s)) * w.lines[l].nominal, ws = w.lines[l].nominal / std::sqrt(double(t.s));
        if (!w.lines[l].em && w.absLimit > 0)
          want = std::min(want, w.absLimit);
        c.close(A, want, 1e-8, 1e-8 * ws, "least-squares-amplitude-of-an-element", at);
        c.close(s, ws, 1e-8, 0, "amplitude-uncertainty-of-an-element", at);
        c.nontrivial = true;
      }
    }
  }
  revisit(c, w, qs.front(), qs.back(), "individual");
}
// ---------------------------------------------------------------- rules
VH_CASE(lm_rules, 400, 6000) {
  std::string m = c.r.pick(std::vector<std::string>{"individual", "hybrid", "svd"});
  World w = mk(c, m == "individual" && c.r.b(0.4) ? 2 : 1, c.r.b() ? "noContinuum" : "fromSpectrum", c.r.b(0.3), true);
  if (w.lines.empty())
    c.skip();
  w.method = m;
  w.rules = c.r.pick(std::vector<std::string>{"all", "all", "all", "balmer", "ratioRange", "strongWeak", "no"});
  w.balmer = m == "hybrid" && c.r.b();
  if (w.balmer && c.r.b(0.7)) { // coincident Balmer lines, the absorption wider
    for (auto &a : w.lines)
      for (auto &b : w.lines)
        if (!a.em && b.em && a.name == b.name + "A")
          a.pos = b.pos;
    w.vabs = c.r.d(2, 5) * w.vem;
  }
  auto e = elements(w, false);
  c.sig(int(w.obs.size())), c.sig(int(w.lines.size())), c.sig(m), c.sig(w.rules), c.sig(int(w.balmer));
  auto f = start(w, c);
  std::vector<Fitted> qs;
  std::string what = m + "/" + w.rules + (w.balmer ? "/balmer" : "");
  for (double z : visits(c, w)) {
    Ref R(w, z, e, {}, w.vem, w.vabs);
    R.data();
    qs.push_back(fit(*f, z));
    if (R.edge)
      continue;
    reported(c, w, R, qs.back(), what.c_str());
    meritCheck(c, w, R, qs.back(), what.c_str());
    derived(c, w, R, qs.back(), what.c_str());
    c.nontrivial = true;
  }
  revisit(c, w, qs.front(), qs.back(), what.c_str());
}
// ---------------------------------------------------------------- joint fits, no rules
static void jointCheck(vh::Case &c, const World &w, const Ref &R, const Fitted &q, const std::vector<int> &g, bool single, const char *what, bool poly = false, const V &got = {}) {
  Ref::Group G;
  if (single) {
    V nom;
    for (auto &l : w.lines)
      nom.push_back(l.nominal);
    auto t = R.alone(g[0], nom);
    if (R.touching || !t.ok())
      return;
    G.a = {std::max(0., double(t.t / t.s))}, G.sd = {1 / std::sqrt(double(t.s))};
  } else
    G = R.positive(g, poly);
  if (!G.ok) {
    c.count("joint/ambiguous");
    return;
  }
  c.count(single ? "joint/single" : G.negative ? "joint/negative" : "joint/positive");
  if (poly) {
    double big = 0, bad = 0;
    for (int i : R.samples(g)) {
      LD x = w.obs[0].lam[i];
      big = std::max(big, std::fabs(w.obs[0].flux[i]));
      bad = std::max(bad, double(std::fabs(LD(got[0]) - G.poly[0] + x * (LD(got[1]) - G.poly[1] + x * (LD(got[2]) - G.poly[2])))));
    }
    c.check(bad <= 1e-6 * big, "joint-least-squares-offset", vh::fmt("%s z=%.9g offset of a group of %d elements: difference %.6g flux %.6g", what, R.z, int(g.size()), bad, big));
  }
  for (size_t k = 0; k < g.size(); ++k)
    for (int l : R.elts[g[k]]) {
      if (R.outAll(l))
        continue;
      double A = q.sol.Amplitudes[idx(q, w.lines[l].id)], s = q.sol.AmplitudesUncertainties[idx(q, w.lines[l].id)];
      double want = G.a[k] * w.lines[l].nominal, ws = G.sd[k] * w.lines[l].nominal;
      if (!w.lines[l].em && w.absLimit > 0)
        want = std::min(want, w.absLimit);
      std::string at = vh::fmt("%s z=%.9g line %d in a group of %d elements (%d negative)", what, R.z, w.lines[l].id, int(g.size()), G.negative);
      if (G.sd[k] == 0) // nothing constrains it
        continue;
      if (std::isinf(G.sd[k])) {
        c.check(A == 0, "no-amplitude-with-fewer-samples-than-lines", at + vh::fmt(" amplitude %.9g", A));
        continue;
      }
      c.close(A, want, 1e-6, 1e-6 * ws, single ? "least-squares-amplitude-of-an-element" : "joint-least-squares-amplitudes", at);
      c.close(s, ws, 1e-6, 0, single ? "amplitude-uncertainty-of-an-element" : "joint-least-squares-uncertainties", at);
      c.nontrivial = true;
    }
}
VH_CASE(lm_joint, 500, 8000) {
  std::string m = c.r.pick(std::vector<std::string>{"hybrid", "svd"});
  World w = mk(c, 1, c.r.b() ? "noContinuum" : "fromSpectrum", c.r.b(0.5), false);
  if (w.lines.empty())
    c.skip();
  w.method = m;
  if (c.r.b(0.4))
    w.absLimit = 1;
  auto e = elements(w, false);
  c.sig(int(w.lines.size())), c.sig(m), c.sig(int(e.size())), c.sig(int(w.cont == "noContinuum"));
  auto f = start(w, c);
  std::vector<Fitted> qs;
  for (double z : visits(c, w)) {
    Ref R(w, z, e, {}, w.vem, w.vabs);
    R.data();
    qs.push_back(fit(*f, z));
    auto &q = qs.back();
    if (R.edge)
      continue;
    reported(c, w, R, q, m.c_str());
    meritCheck(c, w, R, q, m.c_str());
    derived(c, w, R, q, m.c_str());
    bool amb = false;
    std::vector<std::vector<int>> gs;
    if (m == "hybrid")
      gs = R.groups(amb);
    else {
      gs.emplace_back();
      for (size_t k = 0; k < e.size(); ++k)
        if (!R.eltOut(k))
          gs[0].push_back(k);
    }
    if (amb)
      continue;
    for (auto &g : gs)
      if (!g.empty())
        jointCheck(c, w, R, q, g, m == "hybrid" && g.size() == 1, m.c_str());
  }
  revisit(c, w, qs.front(), qs.back(), m.c_str());
}
// ---------------------------------------------------------------- wavelength offsets
VH_CASE(lm_offset, 150, 2500) {
  std::string m = c.r.pick(std::vector<std::string>{"hybrid", "svd"});
  World w = mk(c, 1, c.r.b() ? "noContinuum" : "fromSpectrum", c.r.b(0.5), false);
  if (w.lines.empty())
    c.skip();
  w.method = m, w.lbdaOffset = true;
  for (auto &l : w.lines)
    l.offsetFit = c.r.b(0.6);
  auto e = elements(w, false);
  c.sig(int(w.lines.size())), c.sig(m), c.sig(int(e.size())), c.sig(int(w.cont == "noContinuum"));
  auto f = start(w, c);
  std::vector<Fitted> qs;
  V base;
  for (auto &l : w.lines)
    base.push_back(l.offset);
  for (double z : visits(c, w)) {
    Ref R(w, z, e, {}, w.vem, w.vabs);
    R.data();
    qs.push_back(fit(*f, z));
    auto &q = qs.back();
    bool amb = R.edge;
    std::vector<std::vector<int>> gs;
    if (m == "hybrid")
      gs = R.groups(amb);
    else {
      gs.emplace_back();
      for (size_t k = 0; k < e.size(); ++k)
        if (!R.eltOut(k))
          gs[0].push_back(k);
    }
    if (amb)
      continue;
    V off = base;
    for (size_t k = 0; k < w.lines.size(); ++k)
      if (!R.outAll(k))
        off[k] = q.sol.Offset[idx(q, w.lines[k].id)];
    R.shift(off);
    reported(c, w, R, q, "offset");
    meritCheck(c, w, R, q, "offset");
    derived(c, w, R, q, "offset");
    for (auto &g : gs) {
      bool any = false;
      double v = NAN;
      for (int k : g)
        for (int l : e[k]) {
          if (R.outAll(l))
            continue;
          if (!w.lines[l].offsetFit) {
            c.check(off[l] == base[l], "offset-of-a-fixed-line", vh::fmt("line %d offset %.9g catalogue %.9g", w.lines[l].id, off[l], base[l]));
            continue;
          }
          double st = (off[l] + 400) / 25;
          c.check(off[l] >= -400 && off[l] <= 400 && std::fabs(st - std::round(st)) < 1e-9, "fitted-offset-is-on-the-grid", vh::fmt("line %d offset %.9g", w.lines[l].id, off[l]));
          c.check(std::isnan(v) || v == off[l], "lines-fitted-together-share-the-offset", vh::fmt("line %d offset %.9g other %.9g", w.lines[l].id, off[l], v));
          v = off[l], any = true;
        }
      bool single = m == "hybrid" && g.size() == 1;
      if (g.empty())
        continue;
      jointCheck(c, w, R, q, g, single, (m + " with offsets").c_str());
      if (!any || R.touching)
        continue;
      auto value = [&](double o, bool &ok) { // residual with the amplitudes of this offset
        V t = off;
        for (int k : g)
          for (int l : e[k])
            if (w.lines[l].offsetFit && !R.outAll(l))
              t[l] = o;
        R.shift(t);
        V amp(w.lines.size(), NAN);
        if (single) {
          V nom;
          for (auto &l : w.lines)
            nom.push_back(l.nominal);
          auto a = R.alone(g[0], nom);
          ok = ok && a.ok();
          for (int l : e[g[0]])
            amp[l] = w.lines[l].nominal * std::max(0., double(a.t / a.s));
        } else {
          auto G = R.positive(g, false);
          ok = ok && G.ok;
          for (size_t k = 0; k < g.size(); ++k)
            for (int l : e[g[k]])
              amp[l] = w.lines[l].nominal * G.a[k];
        }
        auto mod = R.model(0, amp);
        LD s = 0;
        for (int i : R.samples(g))
          s += (LD(R.y[0][i]) - mod[i]) * (LD(R.y[0][i]) - mod[i]) / (LD(w.obs[0].err[i]) * w.obs[0].err[i]);
        return double(s);
      };
      bool ok = true;
      double got = value(v, ok), best = INFINITY, at = 0;
      for (int k = 0; k < 32 && ok; ++k) {
        double x = value(-400 + 25 * k, ok);
        if (x < best)
          best = x, at = -400 + 25 * k;
      }
      R.shift(off);
      if (!ok)
        continue;
      c.nontrivial = true;
      c.check(got <= best * (1 + 1e-9) + 1e-9, "fitted-offset-is-the-best-of-the-grid",
              vh::fmt("%s %s z=%.9g group of %d offset %.6g residual %.12g, at %.6g %.12g", m.c_str(), w.cont.c_str(), z, int(g.size()), v, got, at, best));
    }
  }
  revisit(c, w, qs.front(), qs.back(), "offset");
}
// ---------------------------------------------------------------- polynomial offsets under the lines
VH_CASE(lm_polynomial, 250, 4000) {
  std::string m = c.r.pick(std::vector<std::string>{"hybrid", "svd"});
  World w = mk(c, 1, c.r.b() ? "noContinuum" : "fromSpectrum", c.r.b(0.5), false);
  if (w.lines.empty())
    c.skip();
  w.method = m, w.ampOffset = true;
  auto e = elements(w, false);
  c.sig(int(w.lines.size())), c.sig(m), c.sig(int(e.size())), c.sig(int(w.cont == "noContinuum"));
  auto f = start(w, c);
  std::vector<Fitted> qs;
  for (double z : visits(c, w)) {
    Ref R(w, z, e, {}, w.vem, w.vabs);
    R.data();
    qs.push_back(fit(*f, z));
    auto &q = qs.back();
    bool amb = R.edge;
    std::vector<std::vector<int>> gs;
    if (m == "hybrid")
      gs = R.groups(amb);
    else {
      gs.emplace_back();
      for (size_t k = 0; k < e.size(); ++k)
        if (!R.eltOut(k))
          gs[0].push_back(k);
    }
    if (amb)
      continue;
    std::sort(gs.begin(), gs.end(), [](auto &a, auto &b) { return (a.empty() ? "" : std::to_string(a[0])) < (b.empty() ? "" : std::to_string(b[0])); });
    for (auto &g : gs) {
      V p;
      for (int k : g)
        for (int l : e[k])
          if (!R.outAll(l)) {
            int i = idx(q, w.lines[l].id);
            V v{q.sol.continuum_pCoeff0[i], q.sol.continuum_pCoeff1[i], q.sol.continuum_pCoeff2[i]};
            c.check(p.empty() || p == v, "lines-fitted-together-share-the-polynomial", vh::fmt("line %d %.9g other %.9g", w.lines[l].id, v[0], p.empty() ? 0. : p[0]));
            p = v;
          }
      if (p.empty())
        continue;
      R.poly.push_back({g, p});
    }
    reported(c, w, R, q, "polynomial");
    meritCheck(c, w, R, q, "polynomial");
    for (auto &g : R.poly)
      jointCheck(c, w, R, q, g.first, false, (m + " with polynomial").c_str(), true, g.second);
  }
  revisit(c, w, qs.front(), qs.back(), "polynomial");
}
// ---------------------------------------------------------------- catalogues of line ratios
VH_CASE(lm_ratios, 300, 5000) {
  std::string m = c.r.pick(std::vector<std::string>{"individual", "individual", "hybrid", "svd"});
  World w = mk(c, m == "individual" && c.r.b(0.4) ? 2 : 1, c.r.b() ? "noContinuum" : "fromSpectrum", false, false);
  if (w.lines.empty())
    c.skip();
  w.method = m, w.ratioType = "tplRatio", w.ratioIsm = c.r.b();
  addTemplate(w, "flat", [](double) { return 1.; });
  int nr = c.r.i(1, 5);
  for (int k = 0; k < nr; ++k) {
    Ratio q;
    q.name = vh::fmt("ratio%d", k);
    q.ism = c.r.i(0, 9);
    for (size_t l = 0; l < w.lines.size(); ++l)
      q.amp.push_back(c.r.b(0.15) ? 0 : c.r.d(0.05, 1));
    w.ratios.push_back(q);
  }
  if (c.r.b(0.5))
    w.absLimit = 1;
  auto e = elements(w, true);
  c.sig(int(w.obs.size())), c.sig(int(w.lines.size())), c.sig(m), c.sig(nr), c.sig(int(w.ratioIsm)), c.sig(int(w.cont == "noContinuum"));
  auto f = start(w, c);
  std::vector<V> nom;
  for (auto &q : w.ratios) {
    V v = q.amp;
    for (size_t l = 0; l < w.lines.size(); ++l)
      if (w.ratioIsm && w.lines[l].em)
        v[l] *= tables().dust->GetDustCoeff(q.ism, w.lines[l].pos);
    nom.push_back(v);
  }
  std::vector<Fitted> qs;
  auto ratios = std::dynamic_pointer_cast<CTplratioManager>(f->m_lineRatioManager);
  for (double z : visits(c, w)) {
    Ref R(w, z, e, {}, w.vem, w.vabs);
    R.data();
    qs.push_back(fit(*f, z));
    auto &q = qs.back();
    if (R.edge)
      continue;
    reported(c, w, R, q, "ratios");
    meritCheck(c, w, R, q, "ratios");
    derived(c, w, R, q, "ratios");
    auto ms = ratios->GetChisquareTplratio();
    int best = ratios->m_savedIdxFitted;
    c.check(ms.size() == size_t(nr) && best >= 0 && best < nr && ms[best] == q.merit && *std::min_element(ms.begin(), ms.end()) == ms[best],
            "merit-is-the-smallest-of-the-ratios", vh::fmt("z=%.9g best %d merit %.12g smallest %.12g", z, best, q.merit, *std::min_element(ms.begin(), ms.end())));
    // lines of an element keep the proportions of the best catalogue
    for (size_t k = 0; k < e.size(); ++k)
      for (int a : e[k])
        for (int b : e[k]) {
          double A = q.sol.Amplitudes[idx(q, w.lines[a].id)], B = q.sol.Amplitudes[idx(q, w.lines[b].id)];
          if (a < b && !std::isnan(A) && !std::isnan(B) && !(w.absLimit > 0 && !w.lines[a].em && std::max(A, B) >= w.absLimit))
            c.close(A * nom[best][b], B * nom[best][a], 1e-9, 1e-12 * (A + B), "lines-keep-the-ratios-of-the-best-catalogue", vh::fmt("z=%.9g lines %d %d catalogue %d", z, w.lines[a].id, w.lines[b].id, best));
        }
    if (R.touching || m == "svd")
      continue;
    bool ok = true;
    for (int k = 0; k < nr && ok; ++k) {
      V amp(w.lines.size(), NAN);
      for (size_t x = 0; x < e.size(); ++x) {
        if (R.eltOut(x))
          continue;
        auto t = R.alone(x, nom[k]);
        if (!t.ok())
          continue;
        for (int l : e[x])
          if (!R.outAll(l)) {
            amp[l] = std::max(0., double(t.t / t.s)) * nom[k][l];
            if (!w.lines[l].em && w.absLimit > 0)
              amp[l] = std::min(amp[l], w.absLimit);
            if (k == best) {
              double s = nom[k][l] / std::sqrt(double(t.s));
              c.close(q.sol.Amplitudes[idx(q, w.lines[l].id)], amp[l], 1e-8, 1e-8 * s, "least-squares-amplitude-of-the-best-ratio", vh::fmt("z=%.9g line %d catalogue %d", z, w.lines[l].id, k));
            }
          }
      }
      c.close(ms[k], double(R.merit(amp)), 1e-8, 1e-9, "merit-of-a-catalogue-of-ratios", vh::fmt("z=%.9g catalogue %d of %d ism %d", z, k, nr, int(w.ratioIsm)));
      c.nontrivial = true;
    }
  }
  revisit(c, w, qs.front(), qs.back(), "ratios");
}
// ---------------------------------------------------------------- the whole method
VH_CASE(lm_solve, 150, 2500) {
  std::string m = c.r.pick(std::vector<std::string>{"individual", "individual", "hybrid", "svd"});
  std::string cont = c.r.pick(std::vector<std::string>{"noContinuum", "fromSpectrum", "tplFit", "tplFit"});
  bool ratios = c.r.b(0.3);
  World w = mk(c, m == "individual" && c.r.b(0.3) ? 2 : 1, cont, !ratios && c.r.b(0.3), !ratios);
  if (w.lines.empty())
    c.skip();
  w.method = m;
  w.cont = cont;
  if (cont == "tplFit")
    w.contMethod = "irregularSamplingMedian";
  w.fpMethod = m == "individual" || c.r.b() ? "individual" : m;
  w.absLimit = 1;
  w.zhi = w.zlo + c.r.d(0.02, 0.08), w.zstep = c.r.logd(3e-4, 3e-3), w.lgs = c.r.i(1, 6), w.halfWin = w.zstep * c.r.d(2, 10);
  w.zsampling = c.r.b() ? "log" : "lin";
  w.nExt = c.r.i(1, 4);
  w.skip2 = c.r.b(0.2) ? "true" : "false";
  if (c.r.b(0.3)) {
    w.velfit = "true";
    w.vmin = 100, w.vmax = 100 + c.r.i(1, 4) * 100, w.vstep = 100;
  }
  w.reest = cont == "fromSpectrum" ? c.r.pick(std::vector<std::string>{"no", "no", "always", "onlyextrema"}) : "no";
  w.contFit2 = c.r.pick(std::vector<std::string>{"reFitFirstPass", "fromFirstPass", "retryAll"});
  w.pdfcomb = c.r.pick(std::vector<std::string>{"marg", "bestChi2"});
  w.contIsm = c.r.b(), w.contIgm = c.r.b();
  int nt = c.r.i(1, 3);
  w.nCont = c.r.i(1, nt), w.single = c.r.b();
  for (int k = 0; k < (cont == "tplFit" ? nt : 1); ++k) {
    double s = c.r.d(-1, 1), ph = c.r.d(0, 6), per = c.r.logd(150, 1500);
    addTemplate(w, vh::fmt("cont%d", k), [=](double x) { return 1 + s * x / 20000 + 0.2 * std::sin(x / per + ph); });
  }
  if (ratios) {
    w.ratioType = "tplRatio", w.ratioIsm = c.r.b();
    int nr = c.r.i(1, 4);
    for (int k = 0; k < nr; ++k) {
      Ratio q;
      q.name = vh::fmt("ratio%d", k);
      q.ism = c.r.i(0, 9), q.prior = 1. / nr;
      for (size_t l = 0; l < w.lines.size(); ++l)
        q.amp.push_back(c.r.d(0.05, 1));
      w.ratios.push_back(q);
    }
  } else
    w.rules = c.r.pick(std::vector<std::string>{"no", "no", "all", "balmer", "strongWeak"});
  auto e = elements(w, ratios);
  c.sig(cont), c.sig(m), c.sig(w.ratioType), c.sig(w.reest), c.sig(w.skip2), c.sig(w.velfit), c.sig(w.contFit2), c.sig(w.pdfcomb), c.sig(w.rules), c.sig(int(w.obs.size()));
  context(w);
  {
    CAutoScope a(Context.m_ScopeStack, "galaxy", ScopeType::SPECTRUMMODEL), b(Context.m_ScopeStack, "redshiftSolver", ScopeType::STAGE);
    CLineModelSolve s;
    try {
      s.Compute();
    } catch (const AmzException &x) {
      std::string why = x.what(); // no peak away from the ends of the range; no line in the range
      if (why.find("Failed to identify pdf candidates") == std::string::npos && why != "PDF is flat")
        throw;
      c.count("no-candidate");
      return;
    }
  }
  auto store = Context.GetResultStore();
  auto ext = std::dynamic_pointer_cast<const LineModelExtremaResult>(store->GetGlobalResult("galaxy", "redshiftSolver", "lineModelSolve", "extrema_results").lock());
  auto res = std::dynamic_pointer_cast<const CLineModelResult>(store->GetGlobalResult("galaxy", "redshiftSolver", "lineModelSolve", "lineModel").lock());
  if (!c.check(ext && res && ext->m_ranked_candidates.size() >= 1 && int(ext->m_ranked_candidates.size()) <= w.nExt, "the-method-reports-its-candidates", "results"))
    return;
  auto &ty = ext->m_ranked_candidates;
  for (size_t k = 0; k < ty.size(); ++k) {
    auto &cd = *ty[k].second;
    std::string at = vh::fmt("candidate %d of %d z=%.9g cont=%s method=%s ratio=%s rules=%s reest=%s skip=%s vel=%s", int(k), int(ty.size()), cd.Redshift, cont.c_str(), m.c_str(), w.ratioType.c_str(), w.rules.c_str(),
                             w.reest.c_str(), w.skip2.c_str(), w.velfit.c_str());
    auto sol = ext->m_savedModelFittingResults[k];
    auto mo = ext->m_savedModelSpectrumResults[k], co = ext->m_savedModelContinuumSpectrumResults[k];
    if (!c.check(sol && mo && co, "every-candidate-has-its-model", at))
      continue;
    c.check(same(sol->Redshift, cd.Redshift), "model-at-the-redshift-of-the-candidate", at + vh::fmt(" model at %.12g", sol->Redshift));
    auto it = std::find(res->Redshifts.begin(), res->Redshifts.end(), cd.Redshift);
    if (c.check(it != res->Redshifts.end(), "candidates-are-on-the-redshift-grid", at))
      c.check(res->ChiSquare[it - res->Redshifts.begin()] == cd.Merit, "candidate-merit-is-the-merit-of-the-grid", at + vh::fmt(" %.17g %.17g", res->ChiSquare[it - res->Redshifts.begin()], cd.Merit));
    Ref R(w, cd.Redshift, e, {}, sol->EmissionVelocity, sol->AbsorptionVelocity);
    R.data();
    std::vector<V> mod;
    bool sizes = true;
    for (size_t o = 0; o < w.obs.size(); ++o) {
      auto id = w.obs[o].id;
      if (!(sizes = sizes && mo->ModelFlux.count(id) && co->ModelFlux.count(id) && mo->ModelFlux.at(id).size() == w.obs[o].lam.size() && mo->ModelLambda.at(id) == w.obs[o].lam))
        break;
      R.cont[o] = co->ModelFlux.at(id);
      mod.push_back(mo->ModelFlux.at(id));
    }
    if (!c.check(sizes, "saved-model-is-sampled-like-the-observations", at))
      continue;
    c.nontrivial = true;
    c.close(cd.Merit, double(R.merit(mod)), 1e-8, 1e-9, "merit-is-the-squared-difference-with-the-saved-model", at);
    c.check(same(cd.Elv, sol->EmissionVelocity) && same(cd.Alv, sol->AbsorptionVelocity), "candidate-velocities-are-those-of-its-model", at);
    if (R.edge)
      continue;
    Fitted q{cd.Redshift, cd.Merit, *sol, {}};
    reported(c, w, R, q, "solve");
    derived(c, w, R, q, "solve");
    int over = 0;
    std::string why;
    std::set<int> seen;
    for (size_t l = 0; l < w.lines.size(); ++l) {
      int i = idx(q, w.lines[l].id);
      if (i < 0 || !w.lines[l].em || !w.lines[l].strong || seen.count(R.eltOf[l]))
        continue;
      double A = sol->Amplitudes[i], sd = sol->AmplitudesUncertainties[i];
      if (sd > 0 && A / sd >= 3 && A / sol->ResidualRMS[i] >= 3)
        ++over, seen.insert(R.eltOf[l]), why += vh::fmt(" [line %d elt %d A %.5g sd %.5g rms %.5g]", w.lines[l].id, R.eltOf[l], A, sd, sol->ResidualRMS[i]);
    }
    if (!ratios)
      c.check(cd.NLinesOverThreshold == over, "number-of-strong-lines-over-the-threshold", at + vh::fmt(" %d for %d", cd.NLinesOverThreshold, over) + why);
    if (w.obs.size() == 1) { // cumulated signal to noise of the emission lines
      std::vector<std::array<int, 3>> iv;
      for (size_t l = 0; l < w.lines.size(); ++l)
        if (R.eltOf[l] >= 0 && w.lines[l].em && !R.sup[0][l].out)
          iv.push_back({R.sup[0][l].b, R.sup[0][l].e, int(w.lines[l].strong)});
      for (size_t a = 0; a < iv.size(); ++a)
        for (size_t b = a + 1; b < iv.size(); ++b)
          if (std::min(iv[a][1], iv[b][1]) > std::max(iv[a][0], iv[b][0])) {
            iv[a] = {std::min(iv[a][0], iv[b][0]), std::max(iv[a][1], iv[b][1]), iv[a][2] | iv[b][2]};
            iv.erase(iv.begin() + b), b = a, a = a;
          }
      LD F[2] = {0, 0}, E[2] = {0, 0}, big = 0;
      for (auto &s : iv)
        if (s[1] > s[0]) {
          LD f = 0, v = 0;
          for (int t = s[0]; t <= s[1]; ++t)
            f += LD(mod[0][t]) - co->ModelFlux.at(w.obs[0].id)[t], v += LD(w.obs[0].err[t]) * w.obs[0].err[t], big += std::fabs(mod[0][t]);
          for (int k = 0; k < 2; ++k)
            if (!k || s[2])
              F[k] += std::fabs(double(f)), E[k] += v;
        }
      if (E[0] > 0)
        c.close(cd.ELSNR, double(F[0] / std::sqrt(E[0])), 1e-8, 1e-11 * double(big / std::sqrt(E[0])), "signal-to-noise-of-the-emission-lines", at);
      if (E[1] > 0)
        c.close(cd.StrongELSNR, double(F[1] / std::sqrt(E[1])), 1e-8, 1e-11 * double(big / std::sqrt(E[1])), "signal-to-noise-of-the-strong-emission-lines", at);
    }
    V A = amps(w, R, q);
    double big = 0;
    for (auto &O : w.obs)
      for (double v : O.flux)
        big = std::max(big, std::fabs(v));
    bool ok = true;
    for (size_t o = 0; o < w.obs.size() && ok; ++o) {
      V want = R.model(o, A);
      for (size_t i = 0; i < want.size() && ok; ++i)
        ok = c.close(mod[o][i], want[i], 1e-8, 1e-10 * big, "saved-model-is-the-continuum-plus-the-reported-lines", at + vh::fmt(" obs %d sample %d (%.6g)", int(o), int(i), w.obs[o].lam[i]));
    }
  }
}
VH_MAIN
