// C06: FFT template fitting against the direct fit of the log-sampled template at every redshift.
#include "tf.h"
#include "RedshiftLibrary/operator/templatefittinglog.h"
using namespace NSEpic;
using namespace tf;

static std::string galaxy(double z0, double z1, double step, int ratio) {
  return vh::fmt("{\"redshiftRange\":[%.17g,%.17g],\"redshiftStep\":%.17g,\"redshiftSampling\":\"log\",\"stages\":[\"redshiftSolver\"],"
                 "\"redshiftSolver\":{\"method\":\"%s\",\"templateFittingSolve\":{\"fftProcessing\":true},"
                 "\"lineModelSolve\":{\"lineModel\":{\"continuumComponent\":\"noContinuum\",\"continuumFit\":{\"fftProcessing\":true},\"firstPass\":{\"largeGridStepRatio\":%d}}}}}",
                 z0, z1, step, ratio > 1 ? "lineModelSolve" : "templateFittingSolve", ratio);
}
struct World {
  Att att;
  std::shared_ptr<const CTemplate> tpl;
  V w, f, e;   // log-sampled spectrum of the fit
  V tw, tf_;   // log-sampled template
  double step; // of the spectrum and template
  bool ism, igm, free;
  int fe, fm, ne, nm;
};
struct Exp {
  LD d, m, s, dTol, mTol;
};
static std::shared_ptr<CTemplateFittingResult> run(COperatorTemplateFittingLog &op, const World &w) {
  return std::dynamic_pointer_cast<CTemplateFittingResult>(
      op.Compute(w.tpl, 1., "unused", w.igm, w.ism, w.free ? -INFINITY : 0., {}, w.fe == -1 ? undefIdx : w.fe, w.fm == -1 ? undefIdx : w.fm));
}
// compares one result with the direct fit on the spectrum samples kept for this grid step
static void verify(vh::Case &c, const World &w, const V &zs, int ratio, const CTemplateFittingResult &res, const std::string &what) {
  std::vector<int> keep; // samples of the subsampled spectrum: from the last one
  for (int i = int(w.w.size()) - 1; i >= 0; i -= ratio)
    keep.push_back(i);
  std::vector<int> le, lm;
  for (int e = 0; e < w.ne; ++e)
    if (w.fe == -1 || w.fe == e)
      le.push_back(e);
  for (int m = 0; m < w.nm; ++m)
    if (w.fm == -1 || w.fm == m)
      lm.push_back(m);
  if (!w.ism)
    le = {-1};
  if (!w.igm)
    lm = {-1};
  c.eq(res.Redshifts == zs, true, "redshifts", what + ": redshifts of the result");
  for (size_t v : {res.ChiSquare.size(), res.FitAmplitude.size(), res.FitAmplitudeError.size(), res.FitAmplitudeSigma.size(), res.FitEbmvCoeff.size(), res.FitMeiksinIdx.size(),
                   res.FitDtM.size(), res.FitMtM.size(), res.ChiSquareIntermediate.size(), res.Overlap.size()})
    c.eq(v, zs.size(), "one-result-per-redshift", what + ": size of a result list");
  LD xn = 0, in = 0, tn = 0, t2n = 0, S = 0;
  for (int i : keep) {
    LD iv = LD(ratio) / (LD(w.e[i]) * w.e[i]);
    xn += (w.f[i] * iv) * (w.f[i] * iv), in += iv * iv, S += LD(w.f[i]) * w.f[i] * iv;
  }
  for (double t : w.tf_)
    tn += LD(t) * t, t2n += LD(t) * t * t * t;
  const double dTol = 2e-14 * double(std::sqrt(xn * tn)), mTol = 2e-14 * double(std::sqrt(in * t2n)), lmax = w.att.igm->getLambdaMax();
  for (size_t k = 0; k < zs.size(); ++k) {
    double z = zs[k];
    int off = int(std::lround(std::log(w.w[0] / (1 + z) / w.tw[0]) / w.step));
    std::string at = what + vh::fmt(" z=%.17g (%zu of %zu)", z, k, zs.size());
    if (off < 0 || off + int(w.w.size()) > int(w.tw.size())) {
      c.fail("harness", at + " outside the template");
      return;
    }
    bool inIgm = w.igm && w.tw[off + keep.back()] <= lmax, amb = false;
    int zi = w.att.igm->getRedshiftIndex(z);
    for (double q : w.att.igm->getRedshiftBins())
      amb = amb || std::fabs(q - z) < 1e-9;
    for (int i : keep) // next to the end of the table: rounding of the rest wavelength
      amb = amb || std::fabs(w.tw[off + i] - lmax) < 1e-6;
    if (amb)
      continue;
    std::map<std::pair<double, int>, Exp> all;
    double best = INFINITY, btol = 0;
    for (size_t ie = 0; ie < le.size(); ++ie)
      for (size_t im = 0; im < lm.size(); ++im) {
        LD d = 0, m = 0;
        for (int i : keep) {
          LD iv = LD(ratio) / (LD(w.e[i]) * w.e[i]), t = w.tf_[off + i];
          if (le[ie] >= 0)
            t *= w.att.dust->GetDustCoeff(le[ie], w.tw[off + i]);
          if (inIgm && w.tw[off + i] <= lmax)
            t *= w.att.igm->getCorrection(zi, lm[im], w.tw[off + i] < w.att.igm->getLambdaMin() ? 0 : w.att.igm->getWaveIndex(w.tw[off + i]));
          d += w.f[i] * t * iv, m += t * t * iv;
        }
        if (m < 1e5 * mTol)
          c.skip();
        LD a = d / m;
        if (!w.free && std::fabs(d) < 10 * dTol)
          c.skip(); // sign undecided
        if (!w.free && d < 0)
          a = 0;
        double chi = double(S - 2 * a * d + a * a * m), tol = double(2 * std::fabs(a) * dTol + a * a * mTol + 1e-12 * S);
        double eb = le[ie] == -1 ? -1 : w.att.dust->GetEbmvValue(le[ie]);
        all[{eb, lm[im]}] = {d, m, a, dTol, mTol};
        if (chi < best)
          best = chi, btol = tol;
        c.close(res.ChiSquareIntermediate[k][ie][im], chi, 1e-9, tol, "intermediate-chi2", at + vh::fmt(" dust %d igm %d in range %d", le[ie], lm[im], inIgm));
      }
    double eb = res.FitEbmvCoeff[k];
    int rm = res.FitMeiksinIdx[k];
    if (inIgm)
      c.check(rm >= 0, "reported-attenuation", at + " no IGM reported");
    auto it = all.find({eb, inIgm ? rm : lm[0]});
    if (!c.check(it != all.end(), "reported-attenuation", at + vh::fmt(" dust %g igm %d", eb, rm)))
      continue;
    const Exp &x = it->second;
    LD a = x.s;
    double chi = double(S - 2 * a * x.d + a * a * x.m), tol = double(2 * std::fabs(a) * dTol + a * a * mTol + 1e-12 * S), at0 = double((dTol + std::fabs(a) * mTol) / x.m) * 3;
    c.check(chi <= best + 1e-9 * std::fabs(best) + tol + btol, "optimum", at + vh::fmt(" best %.17g chosen %.17g", best, chi));
    c.close(res.ChiSquare[k], chi, 1e-9, tol, "chi2", at);
    c.close(res.FitAmplitude[k], double(a), 1e-9, at0, "amplitude", at);
    double er = double(1 / std::sqrt(x.m)), re = double(mTol / x.m);
    c.close(res.FitAmplitudeError[k], er, 1e-9 + re, 0, "amplitude-error", at);
    c.close(res.FitAmplitudeSigma[k], double(x.d / x.m) / er, 1e-8 + 2 * re, 3 * double(dTol / std::sqrt(x.m)), "amplitude-sigma", at);
    c.close(res.FitDtM[k], double(x.d), 1e-9, dTol, "dtm", at);
    c.close(res.FitMtM[k], double(x.m), 1e-9, mTol, "mtm", at);
    c.check(res.Overlap[k].size() == 1 && res.Overlap[k][0] == 1, "overlap", at);
  }
}
VH_CASE(fft, 700, 15000) {
  vh::Rng &r = c.r;
  World w;
  double step = r.pick(V{1e-4, 2e-4, 5e-4, 1e-3, 4e-3});
  int ratio = r.b(0.6) ? 1 : r.i(2, 5);
  bool farUv = r.b(0.6);
  int nb = r.i(2, 90);
  double z0 = farUv ? r.d(1.8, 4) : r.b(0.3) ? 0 : r.d(0, 1.5), z1 = (1 + z0) * std::exp(step * ratio * (r.b(0.4) ? nb : nb + r.d(0, 1))) - 1;
  double lo = farUv ? 1216 * (1 + r.d(z0, z1)) * (r.b(0.3) ? 1 : r.d(0.93, 1.05)) : r.d(4000 * (1 + z0), 9000 * (1 + z0)), hi = lo * std::exp(step * r.d(6, 200));
  double tl = lo / (1 + z1) * std::exp(-step * 12) - 5, th = hi / (1 + z0) * std::exp(step * 8) + 5;
  auto cat = std::make_shared<CTemplateCatalog>(0);
  int n = r.i(30, 400);
  V l(n);
  double a = tl - r.d(0, 50), b = th + r.d(0, 50);
  for (int j = 0; j < n; ++j)
    l[j] = a + (b - a) * (j + (j && j + 1 < n ? r.d(-0.3, 0.3) : 0)) / (n - 1);
  V f = gen::flux(r, l);
  for (auto &v : f)
    v = std::fabs(v) + 0.1;
  cat->Add(std::make_shared<CTemplate>("t", "galaxy", CSpectrumSpectralAxis(l), CSpectrumFluxAxis(f)));
  w.ne = r.i(1, 4), w.nm = r.i(1, 4);
  int nzb = r.i(2, 30);
  double zb = 1.5, dz = r.b(0.3) ? r.d(0.01, 0.05) : r.d(0.1, 1.6);
  if (zb + dz * nzb < 2.5)
    zb = std::max(1.5, z0 - r.d(0, 1) * dz * nzb);
  w.att.dust = cx::dust(r, 500, 20000, 30, r.b(0.7) ? 0 : r.d(0, 0.1), r.d(0.05, 0.2), w.ne);
  w.att.igm = cx::igm(r, 6000, nzb, w.nm, zb, dz);
  bool logIn = r.b(0.3);
  V x;
  if (logIn) {
    double p = lo * std::exp(-step * r.d(-1.5, 3));
    int m = int(std::log(hi / p) / step) + r.i(-1, 4), lead = std::max(0, 320 - m);
    p *= std::exp(-step * lead), m += lead;
    for (int i = 0; i < m; ++i)
      x.push_back(p * std::exp(step * i));
  } else {
    int m = r.i(20, 300);
    double p = lo + (hi - lo) * r.d(-0.1, 0.1), q = hi + (hi - lo) * r.d(-0.1, 0.1);
    for (int i = 0; i < m; ++i)
      x.push_back(p + (q - p) * (i + (i && i + 1 < m ? r.d(-0.3, 0.3) : 0)) / (m - 1));
  }
  Obs o;
  o.lam = x, o.flux = gen::flux(r, x, 3), o.err = gen::noise(r, x.size(), 0.1);
  for (auto &v : o.flux)
    v += r.b(0.9) ? 20 : 0;
  o.lo = lo, o.hi = hi;
  std::vector<Obs> obs{o};
  w.ism = r.b(), w.igm = farUv && r.b(0.8), w.free = r.b();
  w.fe = w.ism && r.b(0.2) ? r.i(0, w.ne - 1) : -1, w.fm = w.igm && r.b(0.2) ? r.i(0, w.nm - 1) : -1;
  c.note(vh::fmt("step %g ratio %d z [%.9g,%.9g] range [%.9g,%.9g] %s n=%zu ism=%d(%d of %d) igm=%d(%d of %d) bins from %g by %g x%d free=%d", step, ratio, z0, z1, lo, hi,
                 logIn ? "log" : "linear", x.size(), w.ism, w.fe, w.ne, w.igm, w.fm, w.nm, zb, dz, nzb, w.free));
  c.sigv(x), c.sigv(o.flux), c.sig(z0);
  context(obs, cat, w.att.dust, w.att.igm, cx::lsfWidth(2.), {}, galaxy(z0, z1, step, ratio));
  auto rs = Context.GetRebinnedSpectrum();
  w.w = rs->GetSpectralAxis().GetSamplesVector(), w.f = rs->GetFluxAxis().GetSamplesVector(), w.e = rs->GetErrorAxis().GetSamplesVector();
  if (int(w.w.size()) < 2 * ratio + 1)
    c.skip();
  cat->m_logsampling = true;
  w.tpl = std::const_pointer_cast<const CTemplateCatalog>(cat)->GetTemplate("galaxy", 0);
  auto mt = std::const_pointer_cast<CTemplate>(w.tpl);
  mt->m_ismCorrectionCalzetti = w.att.dust, mt->m_igmCorrectionMeiksin = w.att.igm;
  w.tw = w.tpl->GetSpectralAxis().GetSamplesVector(), w.tf_ = w.tpl->GetFluxAxis().GetSamplesVector();
  w.step = Context.GetInputContext()->m_logGridStep;
  // IGM curves are needed at every redshift that shows them
  TFloat64Range zr = Context.GetInputContext()->m_logRebin.at("galaxy").zrange;
  double ls = w.step * ratio, span = std::log((1 + z1) / (1 + z0)) / ls;
  c.close(zr.GetBegin(), z0, 0, 0, "redshift-range", "start of the rebinned redshift range");
  if (std::fabs(span - std::round(span)) > 1e-9)
    c.close(zr.GetEnd(), (1 + z0) * std::exp(std::ceil(span) * ls) - 1, 1e-11, 1e-12, "redshift-range", "end of the rebinned redshift range");
  int nz = int(std::lround(std::log((1 + zr.GetEnd()) / (1 + zr.GetBegin())) / w.step / ratio)) + 1;
  V zs;
  for (int k = 0; k < nz; ++k)
    zs.push_back((1 + zr.GetBegin()) * std::exp(w.step * ratio * k) - 1);
  if (zs.size() < 2)
    c.skip();
  if ((w.igm || w.ism) && zs.front() < w.att.igm->getRedshiftBins().front() && w.tw.front() < w.att.igm->getLambdaMax() + 10)
    c.skip(); // refused: no curve for the lowest redshifts
  COperatorTemplateFittingLog op(zs);
  auto res = run(op, w);
  c.nontrivial = true;
  verify(c, w, zs, ratio, *res, "full grid");
  LD cst = 0;
  for (int i = int(w.w.size()) - 1; i >= 0; i -= ratio)
    cst -= 0.5L * std::log(2 * M_PIl) + std::log(LD(w.e[i]) / std::sqrt(LD(ratio)));
  c.close(res->CstLog, double(cst), 1e-9, 1e-9, "constant-term", "log constant of the likelihood");
  // any sub-range of the grid, on the same operator, then on the fine grid
  for (int t = 0; t < 2; ++t) {
    int a0 = r.i(0, zs.size() - 2), a1 = r.i(a0 + 1, zs.size() - 1);
    V sub(zs.begin() + a0, zs.begin() + a1 + 1);
    int rr = ratio;
    if (t && ratio > 1) { // second pass on the step of the spectrum
      V fine;
      for (int k = 0; k <= (a1 - a0) * ratio; ++k)
        fine.push_back((1 + sub[0]) * std::exp(w.step * k) - 1);
      sub = fine, rr = 1;
    }
    op.SetRedshifts(sub);
    auto r2 = run(op, w);
    verify(c, w, sub, rr, *r2, rr == ratio ? "sub-range" : "fine sub-range");
  }
}
VH_MAIN
