// C07: template combination against a direct joint weighted least-squares solution.
#include "tf.h"
#include "RedshiftLibrary/operator/modelspectrumresult.h"
#include "RedshiftLibrary/operator/tplcombination.h"
#include "RedshiftLibrary/operator/tplcombinationresult.h"
using namespace NSEpic;
using namespace tf;

struct World {
  Obs o;
  std::vector<V> tl, tv;
  TTemplateConstRefList tpls;
  Att att;
  bool ism, igm;
  int fe = -1, fm = -1, ne, nm;
  double thr;
  V zs;
  std::vector<CMask> masks; // one per redshift, in the order of zs
};
static World mk(vh::Case &c) {
  World w;
  vh::Rng &r = c.r;
  bool farUv = r.b(0.5);
  double zlo = farUv ? r.d(1.8, 4) : r.d(0.3, 1.4);
  double a = farUv ? 1216 * (1 + zlo) * r.d(0.8, 1.15) : r.d(3600, 6000) * (1 + zlo) / 1.3;
  Obs &o = w.o;
  int n = r.i(12, 130);
  double span = a * (farUv && r.b(0.4) ? r.d(0.03, 0.2) : r.d(0.05, 0.6));
  o.lam = gen::axis(r, n, 0, 1);
  double u0 = o.lam.front(), u1 = o.lam.back();
  for (auto &x : o.lam)
    x = a + span * (x - u0) / (u1 - u0);
  o.flux = gen::flux(r, o.lam, r.logd(1e-18, 10));
  double fs = 0;
  for (double v : o.flux)
    fs = std::max(fs, std::fabs(v));
  o.err = gen::noise(r, n, 0.2);
  for (auto &v : o.err)
    v *= fs;
  o.lo = r.b(0.5) ? a - 10 : r.b() ? o.lam[r.i(0, n / 4)] : a + span * r.d(0, 0.3);
  o.hi = r.b(0.5) ? o.lam.back() + 10 : r.b() ? o.lam[r.i(n - 1 - n / 4, n - 1)] : o.lam.back() - span * r.d(0, 0.3);
  int nz = r.i(1, 5);
  for (int k = 0; k < nz; ++k)
    w.zs.push_back(farUv && r.b(0.5) ? std::max(1.8, std::min(6., (r.b() ? a : o.lam.back()) / 1216 - 1 + r.d(-0.05, 0.05))) : zlo + r.d(0, 0.3));
  double zmin = *std::min_element(w.zs.begin(), w.zs.end()), zmax = *std::max_element(w.zs.begin(), w.zs.end());
  w.ne = r.i(1, 5), w.nm = r.i(1, 5);
  w.att.dust = cx::dust(r, 500, 20000, 30, r.b(0.7) ? 0 : r.d(0, 0.1), r.d(0.05, 0.2), w.ne);
  w.att.igm = cx::igm(r, 6000, 3, w.nm, 1.5, 1.6);
  w.ism = r.b(), w.igm = farUv && r.b(0.8);
  w.fe = w.ism && r.b(0.2) ? r.i(0, w.ne - 1) : -1, w.fm = w.igm && r.b(0.2) ? r.i(0, w.nm - 1) : -1;
  w.thr = r.b(0.7) ? 1 : r.d(0.2, 0.95);
  bool one = r.b(0.6);
  int nt = r.b(0.15) ? 1 : r.i(2, 4);
  auto cat = std::make_shared<CTemplateCatalog>(0);
  std::vector<std::shared_ptr<CTemplate>> ts;
  for (int t = 0; t < nt; ++t) {
    double ta = a / (1 + zmax) - 20, tb = o.lam.back() / (1 + zmin) + 20;
    V tl;
    if (one && t)
      tl = w.tl[0];
    else {
      if (!one)
        ta -= r.d(0, 50), tb += r.d(0, 50);
      if (r.b(0.15))
        (r.b() ? ta : tb) = ta + (tb - ta) * (r.b() ? r.d(0, 0.15) : r.d(0.85, 1));
      tl = gen::axis(r, r.i(20, 300), 0, 1);
      double v0 = tl.front(), v1 = tl.back();
      for (auto &x : tl)
        x = ta + (tb - ta) * (x - v0) / (v1 - v0);
      tl.back() = tb;
    }
    V f = gen::flux(r, tl);
    double p = r.d(1, 12), s = r.d(1e-3, 1e3);
    for (size_t i = 0; i < f.size(); ++i)
      f[i] = s * (f[i] + 1 + std::sin(p * (tl[i] - ta) / (tb - ta) + t));
    w.tl.push_back(tl), w.tv.push_back(f);
    ts.push_back(std::make_shared<CTemplate>(vh::fmt("t%d", t), "galaxy", CSpectrumSpectralAxis(tl), CSpectrumFluxAxis(f)));
    cat->Add(ts.back());
  }
  std::vector<Obs> obs{o};
  context(obs, cat, w.att.dust, w.att.igm, cx::lsfWidth(2.));
  o = obs[0];
  for (auto &t : ts) {
    t->m_ismCorrectionCalzetti = w.att.dust, t->m_igmCorrectionMeiksin = w.att.igm;
    t->setRebinInterpMethod("lin");
    w.tpls.push_back(t);
  }
  if (r.b(0.4))
    for (int k = 0; k < nz; ++k) {
      CMask m(n, 1);
      double p = r.b() ? r.d(0.3, 0.95) : 0.98;
      for (int i = 0; i < n; ++i)
        m[i] = r.b(p);
      w.masks.push_back(m);
    }
  c.sigv(o.lam), c.sigv(o.flux), c.sigv(w.zs);
  c.note(vh::fmt("ntpl=%d%s ism=%d(%d of %d) igm=%d(%d of %d) masks=%zu thr=%g n=%d [%.9g,%.9g] range [%.9g,%.9g] z=", nt, one ? " same axis" : "", w.ism, w.fe, w.ne, w.igm,
                 w.fm, w.nm, w.masks.size(), w.thr, n, o.lam.front(), o.lam.back(), o.lo, o.hi) +
         vh::vec(w.zs));
  return w;
}
struct Sol {
  bool ok = false;
  double chi2 = 0, S = 0;
  std::vector<LD> a;
  std::vector<std::vector<LD>> cov;
};
// joint weighted least squares: Cholesky on the normalised matrix in long double
static Sol solve(const std::vector<std::vector<LD>> &t, const std::vector<LD> &y, const std::vector<LD> &iv) {
  int p = t.size(), n = y.size();
  Sol s;
  std::vector<std::vector<LD>> A(p, std::vector<LD>(p, 0)), L = A, inv = A;
  std::vector<LD> b(p, 0), d(p);
  LD S = 0;
  for (int i = 0; i < n; ++i) {
    S += y[i] * y[i] * iv[i];
    for (int j = 0; j < p; ++j) {
      b[j] += t[j][i] * y[i] * iv[i];
      for (int k = 0; k < p; ++k)
        A[j][k] += t[j][i] * t[k][i] * iv[i];
    }
  }
  for (int j = 0; j < p; ++j) {
    d[j] = std::sqrt(A[j][j]);
    if (!(d[j] > 0))
      return s;
  }
  for (int j = 0; j < p; ++j)
    for (int k = 0; k <= j; ++k) {
      LD v = A[j][k] / d[j] / d[k];
      for (int m = 0; m < k; ++m)
        v -= L[j][m] * L[k][m];
      if (j == k) {
        if (v < 1e-4)
          return s;
        L[j][j] = std::sqrt(v);
      } else
        L[j][k] = v / L[k][k];
    }
  auto back = [&](std::vector<LD> v) {
    for (int j = 0; j < p; ++j) {
      for (int m = 0; m < j; ++m)
        v[j] -= L[j][m] * v[m];
      v[j] /= L[j][j];
    }
    for (int j = p - 1; j >= 0; --j) {
      for (int m = j + 1; m < p; ++m)
        v[j] -= L[m][j] * v[m];
      v[j] /= L[j][j];
    }
    return v;
  };
  std::vector<LD> bn(p);
  for (int j = 0; j < p; ++j)
    bn[j] = b[j] / d[j];
  s.a = back(bn);
  for (int j = 0; j < p; ++j)
    s.a[j] /= d[j];
  for (int j = 0; j < p; ++j) {
    std::vector<LD> e(p, 0);
    e[j] = 1;
    auto col = back(e);
    for (int k = 0; k < p; ++k)
      inv[k][j] = col[k] / d[j] / d[k];
  }
  s.cov = inv;
  LD chi = 0;
  for (int i = 0; i < n; ++i) {
    LD m = y[i];
    for (int j = 0; j < p; ++j)
      m -= s.a[j] * t[j][i];
    chi += m * m * iv[i];
  }
  s.chi2 = double(chi), s.S = double(S), s.ok = true;
  return s;
}
static std::shared_ptr<CTplCombinationResult> run(COperatorTplcombination &op, const World &w, const TTemplateConstRefList &t, const V &zs, const std::vector<CMask> &m) {
  return std::dynamic_pointer_cast<CTplCombinationResult>(op.Compute(*Context.getSpectra()[0], t, TFloat64Range(w.o.lo, w.o.hi), zs, w.thr, m, "lin", w.igm, w.ism, {},
                                                                     w.fe == -1 ? undefIdx : w.fe, w.fm == -1 ? undefIdx : w.fm));
}
VH_CASE(fit, 3000, 60000) {
  World w = mk(c);
  const int nt = w.tpls.size(), nz = w.zs.size();
  COperatorTplcombination op;
  std::vector<int> ord(nz); // results come sorted by redshift
  for (int i = 0; i < nz; ++i)
    ord[i] = i;
  std::stable_sort(ord.begin(), ord.end(), [&](int i, int j) { return w.zs[i] < w.zs[j]; });
  bool refused = false;
  std::vector<Use> use(nz);
  for (int k = 0; k < nz; ++k) {
    double z = w.zs[k];
    int nUsed = 0;
    for (int t = 0; t < nt; ++t) {
      Use u = samples(w.o, w.tl[t], z);
      if (u.ambiguous || std::fabs(u.overlap() - w.thr) < 1e-9 && u.overlap() != w.thr)
        c.skip();
      refused = refused || u.idx.empty() || u.overlap() < w.thr;
      if (!t)
        use[k] = u;
      else {
        Use v;
        for (size_t j = 0; j < use[k].idx.size(); ++j)
          if (std::find(u.idx.begin(), u.idx.end(), use[k].idx[j]) != u.idx.end())
            v.idx.push_back(use[k].idx[j]), v.rest.push_back(use[k].rest[j]);
        use[k] = v;
      }
    }
    refused = refused || use[k].idx.size() < size_t(nt); // fewer samples than unknowns
    if ((w.ism || w.igm) && z < 1.5 && !use[k].idx.empty() && use[k].rest.front() <= w.att.igm->getLambdaMax())
      refused = true;
    for (double x : use[k].rest)
      if (std::fabs(x - w.att.igm->getLambdaMax()) < 1e-9)
        c.skip();
  }
  if (refused) {
    c.check(vh::throwsAmz([&] { run(op, w, w.tpls, w.zs, w.masks); }), "overlap-refused", "fit without enough template coverage accepted");
    return;
  }
  std::vector<int> le, lm;
  for (int e = 0; e < w.ne; ++e)
    if (w.fe == -1 || w.fe == e)
      le.push_back(e);
  for (int m = 0; m < w.nm; ++m)
    if (w.fm == -1 || w.fm == m)
      lm.push_back(m);
  if (!w.ism)
    le = {-1};
  if (!w.igm)
    lm = {-1};
  // reference first: a degenerate set of templates is not judged
  std::vector<std::map<std::pair<double, int>, Sol>> ref(nz);
  std::vector<double> best(nz, INFINITY);
  for (int k = 0; k < nz; ++k) {
    const Use &u = use[k];
    for (int e : le)
      for (int m : lm) {
        std::vector<std::vector<LD>> t(nt);
        std::vector<LD> y, iv;
        for (size_t j = 0; j < u.idx.size(); ++j) {
          int i = u.idx[j];
          if (!w.masks.empty() && !w.masks[k][i])
            continue;
          y.push_back(w.o.flux[i]), iv.push_back(1 / (LD(w.o.err[i]) * w.o.err[i]));
          LD f = w.att.factor(u.rest[j], w.zs[k], e, m);
          for (int q = 0; q < nt; ++q)
            t[q].push_back(linear(w.tl[q], w.tv[q], u.rest[j]) * f);
        }
        Sol s = solve(t, y, iv);
        if (!s.ok || int(y.size()) < nt)
          c.skip();
        ref[k][{e == -1 ? -1 : w.att.dust->GetEbmvValue(e), m}] = s;
        best[k] = std::min(best[k], s.chi2);
      }
  }
  auto res = run(op, w, w.tpls, w.zs, w.masks);
  c.nontrivial = true;
  c.eq(int(res->Redshifts.size()), nz, "redshifts", "number of results");
  for (int q = 0; q < nz; ++q) {
    int k = ord[q];
    double z = w.zs[k];
    std::string at = vh::fmt("z=%.17g (%d of %d)", z, k, nz);
    c.eq(res->Redshifts[q], z, "redshifts", at);
    if (q && z == w.zs[ord[q - 1]])
      c.skip();
    bool inIgm = w.igm && use[k].rest.front() <= w.att.igm->getLambdaMax();
    for (size_t ie = 0; ie < le.size(); ++ie)
      for (size_t im = 0; im < lm.size(); ++im) {
        double eb = le[ie] == -1 ? -1 : w.att.dust->GetEbmvValue(le[ie]);
        const Sol &s = ref[k][{eb, lm[im]}];
        c.close(res->ChiSquareIntermediate[q][ie][im], s.chi2, 1e-8, 1e-9 * s.S, "intermediate-chi2", at + vh::fmt(" dust %d igm %d in range %d", le[ie], lm[im], inIgm));
        c.eq(res->IsmEbmvCoeffIntermediate[q][ie][im], eb, "intermediate-dust", at);
        c.eq(res->IgmMeiksinIdxIntermediate[q][ie][im], inIgm ? lm[im] : undefIdx, "intermediate-igm", at);
      }
    int rm = res->FitMeiksinIdx[q];
    if (!inIgm)
      c.eq(rm, undefIdx, "igm-not-applied", at);
    auto it = ref[k].find({res->FitEbmvCoeff[q], inIgm ? rm : lm[0]});
    if (!c.check(it != ref[k].end(), "reported-attenuation", at + vh::fmt(" dust %g igm %d", res->FitEbmvCoeff[q], rm)))
      continue;
    const Sol &s = it->second;
    double tol = 1e-9 * s.S;
    c.check(s.chi2 <= best[k] * (1 + 1e-8) + tol, "optimum", at + vh::fmt(" best %.17g chosen %.17g", best[k], s.chi2));
    c.close(res->ChiSquare[q], s.chi2, 1e-8, tol, "chi2", at);
    LD sa = 0, se = 0;
    for (int t = 0; t < nt; ++t) {
      double er = double(std::sqrt(s.cov[t][t]));
      c.close(res->FitAmplitude[q][t], double(s.a[t]), 1e-8, 1e-6 * er, "amplitude", at + vh::fmt(" template %d of %d", t, nt));
      c.close(res->FitAmplitudeError[q][t], er, 1e-8, 0, "amplitude-error", at + vh::fmt(" template %d", t));
      c.close(res->FitAmplitudeSigma[q][t], double(s.a[t]) / er, 1e-8, 1e-6, "amplitude-sigma", at + vh::fmt(" template %d", t));
      for (int t2 = 0; t2 < nt; ++t2)
        c.close(res->FitCOV[q][t][t2], double(s.cov[t][t2]), 1e-7, 1e-7 * er * double(std::sqrt(s.cov[t2][t2])), "covariance", at + vh::fmt(" templates %d %d", t, t2));
      sa += s.a[t] * s.a[t], se += s.cov[t][t];
    }
    c.close(res->SNR[q], double(std::sqrt(sa / se)), 1e-7, 1e-5, "snr", at);
    // the model rebuilt from the reported parameters
    if (c.r.b(0.5)) {
      auto ms = op.ComputeSpectrumModel(*Context.getSpectra()[0], w.tpls, z, res->FitEbmvCoeff[q], rm, res->FitAmplitude[q], TFloat64Range(w.o.clo, w.o.chi_), w.thr);
      const V &l = ms->ModelLambda.at(""), &f = ms->ModelFlux.at("");
      c.check(l.size() == w.o.lam.size() && f.size() == l.size(), "model-axis", at + " size of the model");
      bool ax = l.size() == w.o.lam.size();
      for (size_t i = 0; ax && i < l.size(); ++i)
        ax = std::fabs(l[i] - w.o.lam[i]) < 1e-10 * l[i];
      c.check(ax, "model-axis", at + " axis of the model");
      LD chi = 0;
      for (int i : use[k].idx)
        if (w.masks.empty() || w.masks[k][i]) {
          LD d = (LD(w.o.flux[i]) - f[i]) / w.o.err[i];
          chi += d * d;
        }
      c.close(double(chi), res->ChiSquare[q], 1e-7, 10 * tol, "model-chi2", at);
    }
  }
  LD cst = 0;
  for (size_t i = 0; i < w.o.lam.size(); ++i)
    if (w.o.lam[i] >= w.o.clo && w.o.lam[i] <= w.o.chi_)
      cst -= 0.5L * std::log(2 * M_PIl) + std::log(LD(w.o.err[i]));
  c.close(res->CstLog, double(cst), 1e-10, 1e-9, "constant-term", "log constant of the likelihood");
  // another order of the templates and of the redshifts
  std::vector<int> pt(nt), pz(nz);
  for (int i = 0; i < nt; ++i)
    pt[i] = i;
  for (int i = 0; i < nz; ++i)
    pz[i] = i;
  c.r.shuffle(pt), c.r.shuffle(pz);
  TTemplateConstRefList t2;
  V z2;
  std::vector<CMask> m2;
  for (int i : pt)
    t2.push_back(w.tpls[i]);
  for (int i : pz) {
    z2.push_back(w.zs[i]);
    if (!w.masks.empty())
      m2.push_back(w.masks[i]);
  }
  auto r2 = run(op, w, t2, z2, m2);
  for (int q = 0; q < nz; ++q) {
    double S = ref[ord[q]].begin()->second.S;
    c.close(r2->ChiSquare[q], res->ChiSquare[q], 1e-8, 1e-9 * S, "template-order", vh::fmt("chi2 at z=%.17g", res->Redshifts[q]));
    if (r2->FitEbmvCoeff[q] == res->FitEbmvCoeff[q] && r2->FitMeiksinIdx[q] == res->FitMeiksinIdx[q])
      for (int t = 0; t < nt; ++t)
        c.close(r2->FitAmplitude[q][t], res->FitAmplitude[q][pt[t]], 1e-7, 1e-5 * res->FitAmplitudeError[q][pt[t]], "template-order",
                vh::fmt("amplitude of template %d at z=%.17g", pt[t], res->Redshifts[q]));
  }
}
VH_CASE(bad_options, 60, 600) {
  World w = mk(c);
  c.nontrivial = true;
  COperatorTplcombination op;
  w.masks.assign(w.zs.size() + c.r.i(1, 3), CMask(w.o.lam.size(), 1));
  c.check(vh::throwsAmz([&] { run(op, w, w.tpls, w.zs, w.masks); }), "masks-refused", "another number of masks accepted");
  w.masks.assign(w.zs.size(), CMask(w.o.lam.size() + c.r.i(1, 3), 1));
  c.check(vh::throwsAmz([&] { run(op, w, w.tpls, w.zs, w.masks); }), "masks-refused", "mask of another size accepted");
  w.masks.clear();
  auto u = std::make_shared<CTemplate>("u", "galaxy", CSpectrumSpectralAxis(w.tl[0]), CSpectrumFluxAxis(w.tv[0]));
  TTemplateConstRefList t = w.tpls;
  t.push_back(u);
  w.ism = true, w.igm = false, w.fm = w.fe = -1;
  c.check(vh::throwsAmz([&] { run(op, w, t, w.zs, {}); }), "missing-table-refused", "dust without table accepted");
  w.ism = false, w.igm = true;
  c.check(vh::throwsAmz([&] { run(op, w, t, w.zs, {}); }), "missing-table-refused", "IGM without table accepted");
}
VH_MAIN
