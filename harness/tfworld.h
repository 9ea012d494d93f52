// Random template-fitting worlds and their weighted least-squares reference (C05, C15).
#ifndef TFWORLD_H
#define TFWORLD_H
#include "tf.h"
#include "RedshiftLibrary/operator/modelspectrumresult.h"
using namespace NSEpic;
using namespace tf;

struct Masker : CMaskBuilder {
  std::map<int, std::vector<int>> m; // by number of samples: keeps the observations apart
  CMask getMask(const CSpectrumSpectralAxis &ax, const TFloat64Range &, const Float64 &z) override {
    int n = ax.GetSamplesCount();
    CMask k(n, 1);
    auto it = m.find(n);
    if (it != m.end())
      for (int i = 0; i < n; ++i)
        k[i] = it->second[i];
    return k;
  }
};
struct World {
  std::vector<Obs> obs;
  V tl, tf_;
  Att att;
  std::shared_ptr<CTemplate> tpl;
  std::shared_ptr<Masker> mask;
  bool ism, igm, useMask, free;
  double thr;
  int fe, fm, ne, nm;
  V zs;
  std::string interp;
  std::vector<Band> bands;
  double weight = 1;
};
static World mk(vh::Case &c, bool phot) {
  World w;
  vh::Rng &r = c.r;
  int nobs = phot || r.b(0.6) ? 1 : r.i(2, 3);
  bool farUv = r.b(0.5);
  double zlo = farUv ? r.d(1.8, 4) : r.d(0, 1.5);
  double lam0 = farUv ? 1216 * (1 + zlo) * r.d(0.8, 1.15) : r.d(3500, 6000);
  double end = 0;
  for (int k = 0; k < nobs; ++k) {
    Obs o;
    int n = 11 * r.i(1, 12) + k; // distinct sizes
    double a = k == 0 || r.b() ? lam0 * r.d(1, 1.05) : end * r.d(0.95, 1.1), span = a * (farUv && r.b(0.4) ? r.d(0.01, 0.2) : r.d(0.05, 0.6));
    o.lam = gen::axis(r, n, 0, 1);
    double u0 = o.lam.front(), u1 = o.lam.back();
    if (n == 1)
      u1 = u0 + 1;
    for (auto &x : o.lam)
      x = a + span * (x - u0) / (u1 - u0);
    end = o.lam.back();
    o.flux = gen::flux(r, o.lam, r.logd(0.1, 10));
    o.err = gen::noise(r, n, 0.2);
    o.id = nobs > 1 ? vh::fmt("o%d", k) : "";
    o.lo = r.b(0.5) ? a - 10 : r.b() ? o.lam[r.i(0, n / 4)] : a + span * r.d(0, 0.3);
    o.hi = r.b(0.5) ? end + 10 : r.b() ? o.lam[r.i(n - 1 - n / 4, n - 1)] : end - span * r.d(0, 0.3);
    if (!(std::max(o.lo, o.lam.front()) < std::min(o.hi, o.lam.back())))
      o.lo = a - 10, o.hi = end + 10; // an empty range is refused at set-up
    w.obs.push_back(o);
  }
  double maxl = 0, minl = 1e9;
  for (auto &o : w.obs)
    maxl = std::max(maxl, o.lam.back()), minl = std::min(minl, o.lam.front());
  int nz = r.i(1, 6);
  for (int k = 0; k < nz; ++k)
    w.zs.push_back(farUv && r.b(0.5) ? std::max(1.8, std::min(6., (r.b() ? minl : maxl) / 1216 - 1 + r.d(-0.05, 0.05))) : zlo + r.d(0, 0.4));
  double zmin = *std::min_element(w.zs.begin(), w.zs.end()), zmax = *std::max_element(w.zs.begin(), w.zs.end());
  if (phot) {
    w.weight = r.b() ? 1 : r.logd(0.1, 10);
    int nb = r.i(1, 4);
    for (int k = 0; k < nb; ++k) {
      Band b;
      b.name = std::string(1, "dbca"[k]) + (r.b() ? "" : "x"); // names not in wavelength order
      int n = r.i(2, 15);
      double a = minl * r.d(0.7, 1.3), s = a * r.d(0.02, 0.3);
      b.lam = gen::axis(r, n, 0, 1);
      double u0 = b.lam.front(), u1 = b.lam.back();
      for (auto &x : b.lam)
        x = a + s * (x - u0) / (u1 - u0);
      for (int i = 0; i < n; ++i)
        b.trans.push_back(r.b(0.1) ? 0 : r.d(0, 1));
      b.trans[r.i(0, n - 1)] = 1;
      b.d = r.d(-1, 10) * a * a / 2.99792458e18, b.e = r.logd(0.05, 3) * a * a / 2.99792458e18;
      w.bands.push_back(b);
    }
    if (r.b(0.9)) // usually covered by the template
      for (auto &b : w.bands)
        minl = std::min(minl, b.lam.front()), maxl = std::max(maxl, b.lam.back());
  }
  int nt = r.i(20, 400);
  double ta = minl / (1 + zmax) - 20, tb = maxl / (1 + zmin) + 20;
  w.thr = r.b(0.7) ? 1 : r.d(0.2, 0.95);
  if (r.b(0.25))
    (r.b() ? ta : tb) = ta + (tb - ta) * (r.b() ? r.d(0, 0.15) : r.d(0.85, 1));
  w.tl = gen::axis(r, nt, 0, 1);
  double u0 = w.tl.front(), u1 = w.tl.back();
  for (auto &x : w.tl)
    x = ta + (tb - ta) * (x - u0) / (u1 - u0);
  w.tl.back() = tb;
  w.tf_ = gen::flux(r, w.tl);
  for (auto &v : w.tf_)
    v = r.b(0.9) ? v + 3 : v;
  w.ne = r.i(1, 5), w.nm = r.i(1, 5);
  w.att.dust = cx::dust(r, 500, 20000, 30, r.b(0.7) ? 0 : r.d(0, 0.1), r.d(0.05, 0.2), w.ne);
  w.att.igm = cx::igm(r, 6000, 3, w.nm, 1.5, 1.6); // 915.67 .. 1215.67, up to z = 6.3
  w.ism = r.b(), w.igm = farUv && r.b(0.8);
  w.fe = w.ism && r.b(0.2) ? r.i(0, w.ne - 1) : -1, w.fm = w.igm && r.b(0.2) ? r.i(0, w.nm - 1) : -1;
  w.free = r.b(0.5);
  w.useMask = r.b(0.4);
  w.mask = std::make_shared<Masker>();
  if (w.useMask)
    for (auto &o : w.obs) {
      std::vector<int> m(o.lam.size());
      double p = r.b() ? r.d(0.3, 0.95) : 0.98;
      for (auto &x : m)
        x = r.b(p);
      w.mask->m[o.lam.size()] = m;
    }
  w.interp = r.b(0.8) ? "lin" : r.b() ? "ngp" : "spline";
  w.tpl = std::make_shared<CTemplate>("t", "galaxy", CSpectrumSpectralAxis(w.tl), CSpectrumFluxAxis(w.tf_));
  auto cat = std::make_shared<CTemplateCatalog>(0);
  cat->Add(w.tpl);
  context(w.obs, cat, w.att.dust, w.att.igm, cx::lsfWidth(2.), w.bands);
  w.tpl->m_ismCorrectionCalzetti = w.att.dust, w.tpl->m_igmCorrectionMeiksin = w.att.igm;
  w.tpl->setRebinInterpMethod(w.interp);
  for (auto &o : w.obs)
    c.sigv(o.lam), c.sigv(o.flux);
  c.sigv(w.zs);
  std::string os;
  for (auto &o : w.obs)
    os += vh::fmt(" obs n=%zu [%.9g,%.9g] range [%.9g,%.9g]", o.lam.size(), o.lam.front(), o.lam.back(), o.lo, o.hi);
  c.note(vh::fmt("ism=%d(%d of %d) igm=%d(%d of %d) mask=%d free=%d thr=%g %s tpl n=%d [%.9g,%.9g] z=", w.ism, w.fe, w.ne, w.igm, w.fm, w.nm, w.useMask, w.free, w.thr,
                 w.interp.c_str(), nt, ta, tb) +
         vh::vec(w.zs) + os);
  return w;
}
// template values of the used samples at one redshift, without attenuation
static V rebinned(const World &w, const Use &u) {
  V f;
  if (w.interp == "lin") {
    for (double r : u.rest)
      f.push_back(linear(w.tl, w.tf_, r));
    return f;
  }
  CTemplate t("x", "galaxy", CSpectrumSpectralAxis(w.tl), CSpectrumFluxAxis(w.tf_));
  t.setRebinInterpMethod(w.interp);
  CTemplate o;
  CMask m;
  t.Rebin(TFloat64Range(u.rest.front(), u.rest.back()), CSpectrumSpectralAxis(u.rest), o, m);
  return o.GetFluxAxis().GetSamplesVector();
}
struct Fit {
  double chi2, a, e, sig, prior, scale;
  Sums s;
};
// null = smallest amplitude significance that is kept
static Fit fit(const Sums &s, double null, const CPriorHelper::SPriorTZE *p) {
  Fit f;
  f.s = s, f.prior = 0;
  LD a = s.c / s.t, e = 1 / std::sqrt(s.t);
  bool ap = p && p->A_sigma > 0 && p->betaA > 0;
  if (ap) {
    LD b = LD(p->betaA) / p->A_sigma / p->A_sigma;
    a = (s.c + p->A_mean * b) / (s.t + b), e = std::sqrt(s.t) / (s.t + b);
  }
  f.sig = double(a / e);
  if (a / e < null)
    a = 0;
  LD chi = s.s + s.t * a * a - 2 * a * s.c;
  if (ap) {
    LD q = a - p->A_mean;
    f.prior = double(-2 * (LD(p->betaTE) * p->logprior_precompTE + LD(p->betaA) * p->logprior_precompA + LD(p->betaZ) * p->logprior_precompZ) + p->betaA * q * q / p->A_sigma / p->A_sigma);
    chi += f.prior;
  }
  f.chi2 = double(chi), f.a = double(a), f.e = double(e), f.scale = double(s.s + s.t * a * a);
  return f;
}
static std::unique_ptr<COperatorTemplateFitting> mkop(const World &w, const V &zs) {
  if (!w.bands.empty())
    return std::make_unique<COperatorTemplateFittingPhot>(Context.GetPhotBandCatalog(), w.weight, zs);
  return std::make_unique<COperatorTemplateFitting>(zs);
}
// template values on one axis, without attenuation
static V rebinnedOn(const World &w, const V &rest) {
  Use u;
  u.rest = rest;
  return rebinned(w, u);
}
static std::shared_ptr<CTemplateFittingResult> run(COperatorTemplateFitting &op, World &w, const CPriorHelper::TPriorZEList &pr) {
  return std::dynamic_pointer_cast<CTemplateFittingResult>(
      op.Compute(w.tpl, w.thr, "unused", w.igm, w.ism, w.free ? -INFINITY : 0., pr, w.fe == -1 ? undefIdx : w.fe, w.fm == -1 ? undefIdx : w.fm));
}
static bool same(const CTemplateFittingResult &a, int i, const CTemplateFittingResult &b, int j) {
  auto q = [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); };
  return q(a.ChiSquare[i], b.ChiSquare[j]) && q(a.FitAmplitude[i], b.FitAmplitude[j]) && q(a.FitAmplitudeError[i], b.FitAmplitudeError[j]) &&
         q(a.FitAmplitudeSigma[i], b.FitAmplitudeSigma[j]) && q(a.FitEbmvCoeff[i], b.FitEbmvCoeff[j]) && a.FitMeiksinIdx[i] == b.FitMeiksinIdx[j] && q(a.FitDtM[i], b.FitDtM[j]) &&
         q(a.FitMtM[i], b.FitMtM[j]) && q(a.LogPrior[i], b.LogPrior[j]) && a.ChiSquareIntermediate[i] == b.ChiSquareIntermediate[j] && a.Overlap[i] == b.Overlap[j];
}
static void fitCase(vh::Case &c, bool phot) {
  World w = mk(c, phot);
  const int nobs = w.obs.size();
  // priors on the amplitude, one per redshift and dust coefficient
  CPriorHelper::TPriorZEList prior;
  bool usePrior = c.r.b(0.2);
  if (usePrior)
    for (size_t k = 0; k < w.zs.size(); ++k) {
      CPriorHelper::TPriorEList l;
      for (int e = 0; e < w.ne; ++e) {
        CPriorHelper::SPriorTZE p;
        p.priorTZE = c.r.d(0.01, 1), p.A_sigma = c.r.b(0.1) ? 0 : c.r.d(0.01, 3), p.A_mean = c.r.d(-1, 3), p.betaA = c.r.b(0.1) ? 0 : c.r.d(0.1, 2);
        p.betaTE = c.r.d(0, 2), p.betaZ = c.r.d(0, 2);
        p.logprior_precompA = c.r.d(-3, 3), p.logprior_precompTE = c.r.d(-5, 0), p.logprior_precompZ = c.r.d(-5, 0);
        l.push_back(p);
      }
      prior.push_back(l);
    }
  auto opp = mkop(w, w.zs);
  COperatorTemplateFitting &op = *opp;
  op.setMaskBuilder(w.mask);
  // expectations, redshift by redshift
  bool refused = false, amb = false, degenerate = false;
  std::vector<std::vector<Use>> use(w.zs.size(), std::vector<Use>(nobs));
  for (size_t k = 0; k < w.zs.size(); ++k)
    for (int q = 0; q < nobs; ++q) {
      use[k][q] = samples(w.obs[q], w.tl, w.zs[k]);
      Use &u = use[k][q];
      amb = amb || u.ambiguous || std::fabs(u.overlap() - w.thr) < 1e-9 && u.overlap() != w.thr;
      refused = refused || u.idx.empty() || u.overlap() < w.thr;
      int used = 0;
      for (int i : u.idx)
        used += !w.useMask || w.mask->m[w.obs[q].lam.size()][i];
      degenerate = degenerate || !used;
      if (w.interp != "lin" && u.idx.size() < 4)
        c.skip();
    }
  for (double z : w.zs)
    for (auto &b : w.bands) {
      double f = b.lam.front() / (1 + z), l = b.lam.back() / (1 + z);
      refused = refused || f < w.tl.front() || l > w.tl.back();
      for (double e : {w.tl.front(), w.tl.back(), w.att.igm->getLambdaMax()})
        for (double x : b.lam)
          amb = amb || std::fabs(x / (1 + z) - e) < 1e-11 * e;
    }
  // attenuated samples below Lyman alpha need transmission curves for their redshift
  for (size_t k = 0; k < w.zs.size() && (w.ism || w.igm); ++k)
    if (w.zs[k] < 1.5) {
      double lm = w.att.igm->getLambdaMax();
      bool blue = false;
      for (auto &u : use[k])
        blue = blue || (!u.rest.empty() && u.rest.front() <= lm);
      for (auto &b : w.bands)
        blue = blue || b.lam.front() / (1 + w.zs[k]) <= lm;
      refused = refused || blue;
    }
  if (amb)
    c.skip();
  if (refused || degenerate) {
    c.check(vh::throwsAmz([&] { run(op, w, prior); }), refused ? "overlap-refused" : "all-masked-refused", "fit without enough template coverage accepted");
    return;
  }
  auto res = run(op, w, prior);
  c.nontrivial = true;
  // reference
  double null = w.free ? -INFINITY : 0;
  std::vector<int> le, lm;
  for (int e = 0; e < w.ne; ++e)
    if (w.fe == -1 || w.fe == e)
      le.push_back(e);
  for (int m = 0; m < w.nm; ++m)
    if (w.fm == -1 || w.fm == m)
      lm.push_back(m);
  if (!w.ism)
    le = {-1};
  if (!w.igm)
    lm = {-1};
  for (size_t k = 0; k < w.zs.size(); ++k) {
    double z = w.zs[k], best = INFINITY;
    bool inIgm = false;
    std::vector<V> base(nobs);
    for (int q = 0; q < nobs; ++q) {
      base[q] = rebinned(w, use[k][q]);
      inIgm = inIgm || (w.igm && use[k][q].rest.front() <= w.att.igm->getLambdaMax());
      for (double rr : use[k][q].rest)
        if (w.igm && std::fabs(rr - w.att.igm->getLambdaMax()) < 1e-9)
          c.skip();
    }
    std::vector<V> bbase, brest;
    for (auto &b : w.bands) {
      brest.push_back(b.lam);
      for (auto &x : brest.back())
        x /= 1 + z;
      bbase.push_back(rebinnedOn(w, brest.back()));
      inIgm = inIgm || (w.igm && brest.back().front() <= w.att.igm->getLambdaMax());
    }
    std::string at = vh::fmt("z=%.17g (%zu of %zu)", z, k, w.zs.size());
    std::map<std::pair<double, int>, Fit> all;
    std::map<std::pair<double, int>, std::map<std::string, double>> photFlux;
    std::vector<std::vector<double>> grid;
    for (size_t ie = 0; ie < le.size(); ++ie) {
      int e = le[ie];
      const CPriorHelper::SPriorTZE *p = usePrior ? &prior[k][e == -1 ? 0 : e] : nullptr;
      for (size_t im = 0; im < lm.size(); ++im) {
        int m = lm[im];
        Sums s;
        for (int q = 0; q < nobs; ++q) {
          const Obs &o = w.obs[q];
          for (size_t j = 0; j < use[k][q].idx.size(); ++j) {
            int i = use[k][q].idx[j];
            if (w.useMask && !w.mask->m[o.lam.size()][i])
              continue;
            LD t = base[q][j] * LD(w.att.factor(use[k][q].rest[j], z, e, m)), iv = 1 / (LD(o.err[i]) * o.err[i]);
            s.c += o.flux[i] * t * iv, s.t += t * t * iv, s.s += LD(o.flux[i]) * o.flux[i] * iv;
          }
        }
        for (size_t b = 0; b < w.bands.size(); ++b) {
          V f = bbase[b];
          for (size_t i = 0; i < f.size(); ++i)
            f[i] *= w.att.factor(brest[b][i], z, e, m);
          LD t = bandFlux(w.bands[b], f), iv = LD(w.weight) * w.weight / (LD(w.bands[b].e) * w.bands[b].e), d = w.bands[b].d;
          s.c += d * t * iv, s.t += t * t * iv, s.s += d * d * iv;
          s.pc += d * t * iv, s.pt += t * t * iv, s.ps += d * d * iv;
          photFlux[{e == -1 ? -1 : w.att.dust->GetEbmvValue(e), m}][w.bands[b].name] = double(t);
        }
        if (s.t == 0)
          c.skip();
        Fit f = fit(s, null, p);
        if (!w.free && std::fabs(f.sig) < 1e-9)
          c.skip();
        best = std::min(best, f.chi2);
        double eb = e == -1 ? -1 : w.att.dust->GetEbmvValue(e);
        all[{eb, m}] = f;
        double got = res->ChiSquareIntermediate[k][ie][im];
        c.close(got, f.chi2, 1e-9, 1e-10 * f.scale, "intermediate-chi2", at + vh::fmt(" dust %d igm %d of %d (in range %d)", e, m, w.nm, inIgm));
        c.eq(res->IsmEbmvCoeffIntermediate[k][ie][im], eb, "intermediate-dust", at);
        if (inIgm)
          c.eq(res->IgmMeiksinIdxIntermediate[k][ie][im], m, "intermediate-igm", at);
      }
    }
    // reported optimum
    int rm = res->FitMeiksinIdx[k];
    double re = res->FitEbmvCoeff[k];
    if (w.igm && !inIgm)
      c.eq(rm, undefIdx, "igm-not-applied", at);
    auto it = all.find({re, w.igm && !inIgm ? lm[0] : rm == undefIdx ? -1 : rm});
    if (!c.check(it != all.end(), "reported-attenuation", at + vh::fmt(" dust %g igm %d not on the grid", re, rm)))
      continue;
    const Fit &f = it->second;
    double tol = 1e-10 * f.scale;
    c.check(f.chi2 <= best + 1e-9 * std::fabs(best) + tol, "optimum", at + vh::fmt(" best %.17g chosen %.17g", best, f.chi2));
    c.close(res->ChiSquare[k], f.chi2, 1e-9, tol, "chi2", at);
    double ae = f.e * 1e-7;
    c.close(res->FitAmplitude[k], f.a, 1e-9, ae, "amplitude", at);
    c.close(res->FitAmplitudeError[k], f.e, 1e-9, 0, "amplitude-error", at);
    c.close(res->FitAmplitudeSigma[k], f.sig, 1e-9, 1e-7, "amplitude-sigma", at);
    c.close(res->FitDtM[k], double(f.s.c), 1e-9, 1e-9 * std::sqrt(double(f.s.s * f.s.t)), "dtm", at);
    c.close(res->FitMtM[k], double(f.s.t), 1e-9, 0, "mtm", at);
    c.close(res->LogPrior[k], f.prior, 1e-9, 1e-9, "log-prior", at);
    c.close(res->SNR[k], f.s.c <= 0 ? 0 : double(f.s.c / std::sqrt(f.s.t)), 1e-8, 1e-7, "snr", at);
    if (!w.free)
      c.check(res->FitAmplitude[k] >= 0, "positive", at + " negative amplitude");
    c.check(int(res->Overlap[k].size()) == nobs, "overlap", at);
    for (int q = 0; q < nobs; ++q)
      c.close(res->Overlap[k][q], use[k][q].overlap(), 1e-12, 0, "overlap", at + vh::fmt(" obs %d", q));
    if (phot)
      c.close(res->ChiSquarePhot[k], double(f.s.ps + f.s.pt * f.a * f.a - 2 * f.a * f.s.pc), 1e-9, 1e-9 * (f.s.ps + f.s.pt * f.a * f.a), "photometric-chi2", at);
    // the model rebuilt from the reported parameters reproduces the chi-square
    if (k == 0 && (res->FitEbmvCoeff[k] == -1 || res->FitEbmvCoeff[k] >= 0)) {
      auto ms = std::make_shared<CModelSpectrumResult>();
      LD chi = 0;
      TPhotVal pv;
      for (int q = 0; q < nobs; ++q) {
        TPhotVal p1 = op.ComputeSpectrumModel(w.tpl, z, res->FitEbmvCoeff[k], res->FitMeiksinIdx[k], res->FitAmplitude[k], w.thr, q, ms);
        pv.insert(p1.begin(), p1.end());
        const Obs &o = w.obs[q];
        const V &l = ms->ModelLambda.at(o.id), &fl = ms->ModelFlux.at(o.id);
        c.check(l.size() == o.lam.size() && fl.size() == o.lam.size(), "model-axis", "size of the model");
        bool ax = l.size() == o.lam.size();
        for (size_t i = 0; ax && i < l.size(); ++i)
          ax = std::fabs(l[i] - o.lam[i]) < 1e-10 * l[i];
        c.check(ax, "model-axis", "axis of the model");
        for (int i : use[k][q].idx)
          if (!w.useMask || w.mask->m[o.lam.size()][i]) {
            LD d = (LD(o.flux[i]) - fl[i]) / o.err[i];
            chi += d * d;
          }
      }
      for (auto &b : w.bands) {
        LD d = (b.d - LD(pv[b.name])) * w.weight / b.e;
        chi += d * d;
        double bf = photFlux[it->first][b.name] * f.a;
        c.close(pv[b.name], bf, 1e-9, 1e-7 * f.e * std::fabs(photFlux[it->first][b.name]), "model-photometry", at + " band " + b.name);
      }
      if (phot)
        c.eq(pv.size(), w.bands.size(), "model-photometry", at + " bands");
      c.close(double(chi + res->LogPrior[k]), res->ChiSquare[k], 1e-8, 10 * tol, "model-chi2", at);
    }
  }
  // constant term over the whole range
  LD cst = 0;
  for (auto &o : w.obs)
    for (size_t i = 0; i < o.lam.size(); ++i)
      if (o.lam[i] >= o.clo && o.lam[i] <= o.chi_)
        cst -= 0.5L * std::log(2 * M_PIl) + std::log(LD(o.err[i]));
  for (auto &b : w.bands)
    cst -= 0.5L * std::log(2 * M_PIl) + std::log(LD(b.e) / w.weight);
  c.close(res->CstLog, double(cst), 1e-10, 1e-9, "constant-term", "log constant of the likelihood");
  // independence of the other redshifts: same operator, another subset in another order
  World w2 = w;
  std::vector<int> ord;
  for (size_t k = 0; k < w.zs.size(); ++k)
    if (c.r.b(0.7))
      ord.push_back(k);
  if (ord.empty())
    ord = {0};
  c.r.shuffle(ord);
  w2.zs.clear();
  CPriorHelper::TPriorZEList pr2;
  for (int k : ord) {
    w2.zs.push_back(w.zs[k]);
    if (usePrior)
      pr2.push_back(prior[k]);
  }
  op.SetRedshifts(w2.zs);
  auto r2 = run(op, w2, pr2);
  for (size_t j = 0; j < ord.size(); ++j)
    c.check(same(*res, ord[j], *r2, j), "history-independent", vh::fmt("z=%.17g chi2 %.17g then %.17g", w2.zs[j], res->ChiSquare[ord[j]], r2->ChiSquare[j]));
  // samples outside the range or masked have no influence: corrupt them
  std::vector<Obs> saved = w.obs;
  bool any = false;
  for (auto &o : w.obs)
    for (size_t i = 0; i < o.lam.size(); ++i)
      if (o.lam[i] < o.clo || o.lam[i] > o.chi_ || (w.useMask && !w.mask->m[o.lam.size()][i])) {
        o.flux[i] = c.r.d(-1e5, 1e5);
        if (!(o.lam[i] < o.clo || o.lam[i] > o.chi_))
          continue; // the noise of masked samples is part of the constant term
        o.err[i] = c.r.logd(1e-6, 1e3), any = true;
      }
  auto cat = std::make_shared<CTemplateCatalog>(0);
  cat->Add(w.tpl);
  auto igm2 = std::make_shared<CSpectrumFluxCorrectionMeiksin>(*w.att.igm);
  context(w.obs, cat, w.att.dust, igm2, cx::lsfWidth(2.), w.bands);
  w.tpl->m_ismCorrectionCalzetti = w.att.dust, w.tpl->m_igmCorrectionMeiksin = w.att.igm;
  auto op3p = mkop(w, w.zs);
  COperatorTemplateFitting &op3 = *op3p;
  op3.setMaskBuilder(w.mask);
  auto r3 = run(op3, w, prior);
  for (size_t k = 0; k < w.zs.size(); ++k)
    c.check(same(*res, k, *r3, k), "unused-samples", vh::fmt("z=%.17g chi2 %.17g then %.17g", w.zs[k], res->ChiSquare[k], r3->ChiSquare[k]));
  c.eq(r3->CstLog, res->CstLog, "unused-samples", "constant term");
}
#endif
