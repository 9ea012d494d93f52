// C15: band integration against its definition, joint fit of spectrum and bands against direct least squares.
#include "tfworld.h"

VH_CASE(joint_fit, 2500, 50000) { fitCase(c, true); }

static Band mkBand(vh::Rng &r, bool allowZero) {
  Band b;
  int n = r.b(0.3) ? r.i(2, 4) : r.i(2, 200);
  double a = r.logd(1000, 20000);
  b.lam = gen::axis(r, n, 0, 1);
  double u0 = b.lam.front(), u1 = b.lam.back(), s = a * r.logd(1e-3, 1);
  for (auto &x : b.lam)
    x = a + s * (x - u0) / (u1 - u0);
  for (int i = 0; i < n; ++i)
    b.trans.push_back(allowZero && r.b(0.2) ? 0 : r.logd(1e-3, 1));
  b.trans[r.i(0, n - 1)] = 1;
  if (r.b(0.15))
    std::reverse(b.lam.begin(), b.lam.end()), std::reverse(b.trans.begin(), b.trans.end());
  return b;
}
VH_CASE(band, 4000, 60000) {
  vh::Rng &r = c.r;
  Band b = mkBand(r, true);
  int n = b.lam.size();
  c.sigv(b.lam), c.nontrivial = true;
  CPhotometricBand p(b.trans, b.lam);
  c.check(p.GetWavelength() == b.lam && p.GetTransmission() == b.trans, "band-content", "stored band");
  c.eq(p.GetMinLambda(), *std::min_element(b.lam.begin(), b.lam.end()), "band-content", "lowest wavelength");
  V f, g, k, sum;
  const double cl = 2.99792458e18, K = r.logd(1e-20, 1e5), al = r.d(-3, 3);
  double lo = INFINITY, hi = -INFINITY, sc = 0;
  for (int i = 0; i < n; ++i) {
    f.push_back(r.d(-1, 5)), g.push_back(r.logd(1e-3, 1e3)), k.push_back(K * cl / (b.lam[i] * b.lam[i])), sum.push_back(f[i] + al * g[i]);
    double nu = g[i] * b.lam[i] * b.lam[i] / cl;
    if (b.trans[i] > 0)
      lo = std::min(lo, nu), hi = std::max(hi, nu);
    sc = std::max(sc, (std::fabs(f[i]) + std::fabs(al) * g[i]) * b.lam[i] * b.lam[i] / cl);
  }
  c.close(p.IntegrateFlux(f), bandFlux(b, f), 1e-10, 1e-11 * sc, "band-definition", vh::fmt("n=%d [%g,%g]", n, b.lam.front(), b.lam.back()));
  double ig = p.IntegrateFlux(g);
  c.close(ig, bandFlux(b, g), 1e-10, 0, "band-definition", vh::fmt("positive flux n=%d", n));
  c.close(p.IntegrateFlux(k), K, 1e-10, 0, "constant-density", vh::fmt("n=%d", n));
  c.check(ig >= lo * (1 - 1e-10) && ig <= hi * (1 + 1e-10), "weighted-mean", vh::fmt("%.17g not within [%.17g,%.17g]", ig, lo, hi));
  c.close(p.IntegrateFlux(sum), p.IntegrateFlux(f) + al * ig, 1e-9, 1e-10 * sc, "linear", "");
  CPhotometricBand q(V(b.trans.rbegin(), b.trans.rend()), V(b.lam.rbegin(), b.lam.rend()));
  c.close(q.IntegrateFlux(V(f.rbegin(), f.rend())), p.IntegrateFlux(f), 1e-9, 1e-10 * sc, "band-orientation", "");
  V s = f;
  if (r.b())
    s.push_back(1);
  else
    s.pop_back();
  c.check(vh::throwsAmz([&] { p.IntegrateFlux(s); }), "size-refused", "flux of another size accepted");
  V t2 = b.trans;
  t2.push_back(1);
  c.check(vh::throwsAmz([&] { CPhotometricBand x(t2, b.lam); }), "size-refused", "transmission of another size accepted");
}
VH_CASE(catalog, 500, 5000) {
  vh::Rng &r = c.r;
  CPhotBandCatalog cat;
  std::map<std::string, double> ref;
  TStringList names;
  V fl, er;
  int n = r.i(1, 8);
  for (int k = 0; k < n; ++k) {
    Band b = mkBand(r, false);
    b.name = vh::fmt("b%d", r.i(0, 1000000));
    if (ref.count(b.name))
      continue;
    cat.Add(b.name, CPhotometricBand(b.trans, b.lam));
    ref[b.name] = std::min(b.lam.front(), b.lam.back());
    names.push_back(b.name), fl.push_back(r.d(-1, 3)), er.push_back(r.logd(0.01, 2));
    c.sigv(b.lam);
  }
  c.nontrivial = names.size() > 1;
  TStringList l = cat.GetNameListSortedByLambda();
  std::set<std::string> a(l.begin(), l.end()), b(names.begin(), names.end());
  c.check(a == b && l.size() == names.size(), "band-order", "names of the sorted list");
  for (size_t i = 1; i < l.size(); ++i)
    c.check(ref[l[i - 1]] <= ref[l[i]], "band-order", vh::fmt("band %zu starts before band %zu", i, i - 1));
  CPhotometricData d(names, fl, er);
  for (size_t i = 0; i < names.size(); ++i) {
    c.eq(d.GetFlux(names[i]), fl[i], "phot-data", "flux");
    c.eq(d.GetFluxErr(names[i]), er[i], "phot-data", "error");
    c.close(d.GetOneOverErr2(names[i]), 1 / (er[i] * er[i]), 1e-13, 0, "phot-data", "inverse variance");
    c.close(d.GetFluxOverErr2(names[i]), fl[i] * fl[i] / (er[i] * er[i]), 1e-13, 0, "phot-data", "weighted square");
  }
  c.eq(d.GetNameList().size(), names.size(), "phot-data", "names");
  V bad = fl;
  bad.push_back(1);
  c.check(vh::throwsAmz([&] { CPhotometricData x(names, bad, er); }), "size-refused", "fluxes of another size accepted");
}
VH_CASE(bad_input, 100, 1000) {
  World w = mk(c, true);
  c.nontrivial = true;
  auto cat = Context.GetPhotBandCatalog();
  c.check(vh::throwsAmz([&] { COperatorTemplateFittingPhot(nullptr, 1, w.zs); }), "missing-bands-refused", "no catalogue");
  c.check(vh::throwsAmz([&] { COperatorTemplateFittingPhot(std::make_shared<CPhotBandCatalog>(), 1, w.zs); }), "missing-bands-refused", "empty catalogue");
  auto more = std::make_shared<CPhotBandCatalog>(*cat);
  more->Add("zz", more->begin()->second);
  c.check(vh::throwsAmz([&] { COperatorTemplateFittingPhot(more, 1, w.zs); }), "missing-bands-refused", "band without data");
}
VH_MAIN
