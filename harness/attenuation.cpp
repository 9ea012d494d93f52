// C09: dust / intergalactic attenuation of templates, tables and their convolution.
#include "gen.h"
#include "RedshiftLibrary/common/range.h"
#include "RedshiftLibrary/spectrum/LSFFactory.h"
#include "RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h"
#include "RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h"
#include "RedshiftLibrary/spectrum/template/template.h"
using namespace NSEpic;
using gen::V;
typedef long double LD;
static const double LYA = 1216., STEP = 0.05;

struct Dust {
  V lam, k;
  double step, e0, de;
  int n;
  std::shared_ptr<CSpectrumFluxCorrectionCalzetti> p;
  double coef(int kd, double l) const {
    if (l < lam.front() || l >= lam.back())
      return 1;
    int i = int(std::round((l - lam.front()) / step));
    return std::pow(10., -0.4 * k[i] * (e0 + de * kd));
  }
};
static Dust mkDust(vh::Rng &r) {
  Dust d;
  d.step = r.pick(std::vector<double>{1, 10, 0.5, 12.5});
  int n = r.i(2, 400);
  double l0 = std::floor(r.d(900, 3000));
  for (int i = 0; i < n; ++i)
    d.lam.push_back(l0 + i * d.step), d.k.push_back(r.d(0, 20));
  d.e0 = r.b(0.5) ? 0 : r.d(-0.3, 0.3), d.de = r.d(0.01, 0.3), d.n = r.i(1, 10);
  d.p = std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection(d.lam, d.k), d.e0, d.de, d.n);
  return d;
}
struct Lsf {
  std::shared_ptr<CLSF> p;
  int type;
  double v;
  double width(double l) const {
    l = std::min(30000., std::max(200., l));
    return type == 0 ? v : l / v / 2.355;
  }
};
static Lsf mkLsf(vh::Rng &r) {
  Lsf l;
  l.type = r.i(0, 1);
  if (l.type == 0) {
    l.v = r.logd(0.5, 20);
    l.p = LSFFactory.Create("gaussianConstantWidth", std::make_shared<TLSFGaussianConstantWidthArgs>(l.v));
  } else {
    l.v = r.logd(200, 5000);
    l.p = LSFFactory.Create("gaussianConstantResolution", std::make_shared<TLSFGaussianConstantResolutionArgs>(l.v));
  }
  return l;
}
struct Igm {
  double lmin;
  int n, nz, nc;
  V zb;
  std::vector<std::vector<V>> raw; // [z][curve][lambda]
  std::vector<std::vector<V>> conv;
  std::shared_ptr<CSpectrumFluxCorrectionMeiksin> p;
  V lam;
  int zIndex(double z) const {
    if (z < zb.front())
      return -1;
    int k = int(std::upper_bound(zb.begin(), zb.end(), z) - zb.begin()) - 1;
    return std::min(k, nz - 1);
  }
  int wIndex(double l) const { return std::min(n - 1, std::max(0, int(std::round((l - lmin) / STEP)))); }
};
static Igm mkIgm(vh::Rng &r) {
  Igm g;
  g.n = r.i(60, 500);
  // the table may stop before, at or after Lyman alpha
  double lmax = r.b(0.5) ? LYA : LYA + r.i(-40, 40) * STEP;
  g.lmin = std::round((lmax - (g.n - 1) * STEP) * 20) / 20;
  g.nz = r.i(1, 4), g.nc = r.i(1, 4);
  double z = r.b() ? 0 : r.d(0.5, 2);
  for (int k = 0; k <= g.nz; ++k)
    g.zb.push_back(z), z += r.b() ? 0.5 : r.d(0.1, 1);
  for (int i = 0; i < g.n; ++i)
    g.lam.push_back(g.lmin + STEP * i);
  std::vector<MeiksinCorrection> m;
  for (int k = 0; k < g.nz; ++k) {
    std::vector<V> cur;
    for (int j = 0; j < g.nc; ++j) {
      V v(g.n);
      double a = r.d(0, 1), b = r.d(0, 1);
      for (int i = 0; i < g.n; ++i)
        v[i] = std::min(1., std::max(0., a + (b - a) * i / g.n + 0.2 * r.d(-1, 1)));
      cur.push_back(v);
    }
    g.raw.push_back(cur);
    m.emplace_back(g.lam, cur);
  }
  g.p = std::make_shared<CSpectrumFluxCorrectionMeiksin>(m, g.zb);
  return g;
}
// definition: each sample is the LSF-weighted mean of the raw curve around it, at the centre of the redshift bin
// returns false when the kernel is too close to an ambiguous sample selection (rounding)
static bool convolve(Igm &g, const Lsf &l, double lo, double hi, std::vector<std::pair<int, int>> &valid) {
  g.conv.assign(g.nz, std::vector<V>(g.nc, V(g.n, 0)));
  valid.assign(g.nz, {1, 0});
  for (int k = 0; k < g.nz; ++k) {
    double zc = (g.zb[k] + g.zb[k + 1]) / 2, a = lo / (1 + g.zb[k + 1]), b = hi / (1 + g.zb[k]);
    a = std::max(a, g.lam.front()), b = std::min(b, g.lam.back());
    if (a > b)
      continue;
    double fa = (a - g.lmin) / STEP, fb = (b - g.lmin) / STEP;
    int ia = int(std::ceil(fa - 1e-7)), ib = int(std::floor(fb + 1e-7));
    if (std::fabs(fa - std::round(fa)) < 1e-7)
      ia++;
    if (std::fabs(fb - std::round(fb)) < 1e-7)
      ib--;
    ia = std::max(ia, 0), ib = std::min(ib, g.n - 1);
    valid[k] = {ia, ib};
    for (int i = ia; i <= ib; ++i) {
      double l0 = g.lam[i], s = l.width(l0 * (1 + zc)), half = s * 8 / 2 / (1 + zc);
      double pa = (l0 - half - g.lmin) / STEP, pb = (l0 + half - g.lmin) / STEP;
      int ja = std::max(0, int(std::ceil(pa))), jb = std::min(g.n - 1, int(std::floor(pb)));
      LD sw = 0;
      std::vector<LD> sv(g.nc, 0);
      for (int j = ja; j <= jb; ++j) {
        LD x = (g.lam[j] - l0) * (1 + zc) / s, w = std::exp(-0.5L * x * x);
        sw += w;
        for (int c = 0; c < g.nc; ++c)
          sv[c] += w * g.raw[k][c][j];
      }
      for (int c = 0; c < g.nc; ++c)
        g.conv[k][c][i] = double(sv[c] / sw);
    }
  }
  return true;
}

VH_CASE(dust_table, 600, 10000) {
  Dust d = mkDust(c.r);
  c.sigv(d.k);
  c.nontrivial = true;
  c.note(vh::fmt("lam0=%g step=%g n=%zu ebv0=%g step=%g n=%d", d.lam[0], d.step, d.lam.size(), d.e0, d.de, d.n));
  c.eq(d.p->GetNPrecomputedEbmvCoeffs(), d.n, "dust-count", "number of reddenings");
  c.check(d.p->getLambdaMin() == d.lam.front() && d.p->getLambdaMax() == d.lam.back(), "dust-range", "table range");
  for (int k = 0; k < d.n; ++k) {
    c.close(d.p->GetEbmvValue(k), d.e0 + k * d.de, 1e-12, 1e-12, "ebv-value", vh::fmt("index %d", k));
    c.eq(d.p->GetEbmvIndex(d.p->GetEbmvValue(k)), k, "ebv-index", "index of a tabulated value");
    for (int q = 0; q < 30; ++q) {
      double l = q < 4 ? (q & 1 ? d.lam.front() : d.lam.back()) + (q & 2 ? 0 : c.r.d(-1, 1)) : c.r.b(0.3) ? c.r.pick(d.lam) : gen::query(c.r, d.lam);
      double f = (l - d.lam.front()) / d.step;
      if (std::fabs(f - std::floor(f) - 0.5) < 1e-6)
        continue;
      c.close(d.p->GetDustCoeff(k, l), d.coef(k, l), 1e-12, 0, "dust-coefficient", vh::fmt("index %d lambda %.17g", k, l));
    }
  }
  c.check(vh::throwsAmz([&] { d.p->GetDustCoeff(d.n + c.r.i(0, 3), 2000); }), "dust-index-refused", "reddening index out of range");
  if (d.lam.size() > 3) {
    V bad = d.lam;
    bad[c.r.i(2, int(bad.size()) - 1)] += d.step * c.r.d(0.001, 0.4);
    c.check(vh::throwsAmz([&] { CalzettiCorrection x(bad, d.k); }), "dust-regular-grid", "irregular table accepted");
  }
}

static void checkIgm(vh::Case &c, Igm &g, const std::vector<std::pair<int, int>> &valid, const char *key) {
  for (int k = 0; k < g.nz; ++k)
    for (int j = 0; j < g.nc; ++j)
      for (int i = 0; i < g.n; ++i) {
        double t = g.p->getCorrection(Int32(k), j, Int32(i));
        if (!(t >= 0 && t <= 1 + 1e-12))
          c.check(false, "transmission-range", vh::fmt("bin %d curve %d sample %d: %.17g", k, j, i, t));
        if (i >= valid[k].first && i <= valid[k].second)
          c.close(t, g.conv[k][j][i], 1e-7, 1e-9, key, vh::fmt("bin %d curve %d sample %d of %d", k, j, i, g.n));
      }
  c.count("monitor/transmission-range");
}
VH_CASE(igm_table, 160, 3000) {
  Igm g = mkIgm(c.r);
  Lsf l = mkLsf(c.r);
  double lo = c.r.b(0.6) ? 200 : c.r.d(900, 3000), hi = c.r.b(0.6) ? 30000 : lo + c.r.d(10, 3000);
  for (double z : g.zb)
    c.sig(z);
  c.sig(l.v);
  c.sigv(g.raw[0][0]);
  c.nontrivial = true;
  c.note(vh::fmt("lmin=%g n=%d zbins=%s curves=%d lsf type %d %g range [%g,%g]", g.lmin, g.n, vh::vec(g.zb).c_str(), g.nc, l.type, l.v, lo, hi));
  std::vector<std::pair<int, int>> valid;
  c.check(!g.p->isConvolved(), "convolved-flag", "convolved before");
  g.p->convolveByLSF(l.p, TFloat64Range(lo, hi));
  convolve(g, l, lo, hi, valid);
  c.check(g.p->isConvolved(), "convolved-flag", "not convolved after");
  c.eq(g.p->getIdxCount(), g.nc, "igm-count", "number of curves");
  checkIgm(c, g, valid, "igm-convolution");
  // lookups by redshift and wavelength
  for (int q = 0; q < 60; ++q) {
    double z = c.r.b(0.3) ? c.r.pick(g.zb) : c.r.d(0, g.zb.back() + 1), lam = c.r.b(0.2) ? c.r.pick(g.lam) : c.r.b(0.2) ? c.r.d(LYA - 1, LYA + 1) : c.r.d(g.lmin - 3, g.lam.back() + 3);
    int k = g.zIndex(z), j = c.r.i(0, g.nc - 1);
    c.eq(g.p->getRedshiftIndex(z), k, "igm-redshift-bin", vh::fmt("z=%.17g bins %s", z, vh::vec(g.zb).c_str()));
    double f = (lam - g.lmin) / STEP;
    if (std::fabs(f - std::floor(f) - 0.5) < 1e-6)
      continue;
    double want = 1, wd = 0;
    if (lam <= LYA && k >= 0) {
      int i = g.wIndex(lam);
      want = g.p->getCorrection(Int32(k), j, Int32(i)); // values themselves checked above
      int i0 = std::max(0, i - 1), i1 = std::min(g.n - 1, i + 1);
      wd = (g.p->getCorrection(Int32(k), j, Int32(i1)) - g.p->getCorrection(Int32(k), j, Int32(i0))) / (g.lam[i1] - g.lam[i0]);
    }
    c.eq(g.p->getCorrection(z, j, lam), want, "igm-lookup", vh::fmt("z=%.17g lambda=%.17g curve %d", z, lam, j));
    auto t = g.p->getCorrectionAndDerivLbdaRest(z, j, lam);
    c.eq(std::get<0>(t), want, "igm-lookup", "value with derivative");
    c.close(std::get<1>(t), wd, 1e-9, 1e-12, "igm-derivative", vh::fmt("z=%.17g lambda=%.17g curve %d", z, lam, j));
    double a = c.r.d(g.lmin - 1, g.lam.back()), b = c.r.d(a + 0.2, a + 10);
    double fa = (a - g.lmin) / STEP, fb = (b - g.lmin) / STEP;
    if (a < g.lam.back() - 1 && b > g.lmin + 1 && std::fabs(fa - std::round(fa)) > 1e-6 && std::fabs(fb - std::round(fb)) > 1e-6) {
      auto wc = g.p->getWaveAndCorrectionVector(TFloat64Range(a, b), z, j);
      int ia = std::max(0, int(std::ceil(fa))), ib = std::min(g.n - 1, int(std::floor(fb)));
      bool ok = int(wc.first.size()) == ib - ia + 1 && wc.second.size() == wc.first.size();
      for (int i = ia; ok && i <= ib; ++i)
        ok = std::fabs(wc.first[i - ia] - g.lam[i]) < 1e-9 && wc.second[i - ia] == (k < 0 ? 1. : g.p->getCorrection(Int32(k), j, Int32(i)));
      c.check(ok, "igm-vector", vh::fmt("curve over [%.17g,%.17g] at z=%.17g", a, b, z));
    }
  }
  // another spectrograph resolution: nothing of the first one remains
  if (c.r.b(0.6)) {
    Lsf l2 = mkLsf(c.r);
    double lo2 = c.r.b(0.6) ? 200 : c.r.d(900, 3000), hi2 = c.r.b(0.6) ? 30000 : lo2 + c.r.d(10, 3000);
    c.note(c.desc + vh::fmt(" then lsf type %d %g [%g,%g]", l2.type, l2.v, lo2, hi2));
    std::vector<double> before;
    auto dump = [&](std::vector<double> &o) {
      for (int k = 0; k < g.nz; ++k)
        for (int j = 0; j < g.nc; ++j)
          for (int i = 0; i < g.n; ++i)
            o.push_back(g.p->getCorrection(Int32(k), j, Int32(i)));
    };
    dump(before);
    g.p->convolveByLSF(l2.p, TFloat64Range(lo2, hi2));
    std::vector<double> after;
    dump(after);
    convolve(g, l2, lo2, hi2, valid);
    c.eq(g.p->getIdxCount(), g.nc, "igm-count", "number of curves");
    double worst = 0;
    for (int k = 0; k < g.nz; ++k)
      for (int j = 0; j < g.nc; ++j)
        for (int i = valid[k].first; i <= valid[k].second; ++i)
          worst = std::max(worst, std::fabs(g.conv[k][j][i] - before[(k * g.nc + j) * g.n + i]));
    if (after == before && worst > 1e-6) // distinct failure: every curve is bit for bit the one of the first convolution
      c.check(false, "igm-second-convolution:all-curves-of-the-first-convolution-kept", vh::fmt("expected curves differ by up to %g", worst));
    else
      checkIgm(c, g, valid, "igm-second-convolution");
  }
}

// history of operations on a template against a model of its state
struct Model {
  V lam;
  V comp[3]; // raw, continuum, without
  int type = 0;
  bool on = false;
  int k0 = 0, k1 = 0, kd = -1, km = -1, kz = -1, kend = -1;
};
VH_CASE(template_history, 2500, 50000) {
  Dust d = mkDust(c.r);
  Igm g = mkIgm(c.r);
  std::vector<std::pair<int, int>> valid;
  Lsf l = mkLsf(c.r);
  g.p->convolveByLSF(l.p, TFloat64Range(200, 30000));
  bool useIsm = c.r.b(0.85), useIgm = !useIsm || c.r.b(0.8);
  Model m;
  int n = c.r.i(2, 60);
  int where = c.r.i(0, 2);
  m.lam = where == 0 ? gen::axis(c.r, n, g.lmin - 10, LYA + 30) : where == 1 ? gen::axis(c.r, n, d.lam.front() - 50, d.lam.back() + 50) : gen::axis(c.r, n, 1000, 6000);
  if (c.r.b(0.2))
    m.lam[n / 2] = n / 2 > 0 && m.lam[n / 2 - 1] < LYA && (n / 2 + 1 >= n || m.lam[n / 2 + 1] > LYA) ? LYA : m.lam[n / 2];
  for (double x : m.lam) { // ambiguous nearest sample: not a definition
    double f = (x - d.lam.front()) / d.step, h = (x - g.lmin) / STEP;
    if (std::fabs(f - std::floor(f) - 0.5) < 1e-6 || std::fabs(h - std::floor(h) - 0.5) < 1e-6)
      c.skip();
  }
  m.comp[0] = gen::flux(c.r, m.lam, c.r.logd(1e-3, 1e3));
  bool manual = c.r.b(0.5);
  m.comp[1].assign(n, 0), m.comp[2] = m.comp[0];
  CTemplate t("name", "cat", CSpectrumSpectralAxis(m.lam), CSpectrumFluxAxis(m.comp[0]));
  if (manual) {
    m.comp[1] = gen::flux(c.r, m.lam);
    for (int i = 0; i < n; ++i)
      m.comp[2][i] = m.comp[0][i] - m.comp[1][i];
    t.SetContinuumEstimationMethod(CSpectrumFluxAxis(m.comp[1]));
    t.GetContinuumFluxAxis();
  } else {
    t.SetContinuumEstimationMethod("zero");
    t.GetContinuumFluxAxis();
  }
  c.sigv(m.lam);
  c.sigv(m.comp[0]);
  std::string trace;
  int applied = 0;
  auto verify = [&](const CTemplate &x, const Model &q, const char *key) {
    if (!c.check(x.GetSampleCount() == int(q.lam.size()) && x.GetFluxAxis().GetSamplesCount() == int(q.lam.size()), "template-size", trace))
      return false;
    c.check(x.CheckIsmIgmEnabled() == q.on, "attenuation-enabled", trace);
    const auto &f = x.GetFluxAxis();
    for (size_t i = 0; i < q.lam.size(); ++i) {
      double want = q.comp[q.type][i], fd = 1, fm = 1;
      if (q.on && int(i) >= q.k0 && int(i) <= q.k1) {
        if (q.kd >= 0)
          fd = d.coef(q.kd, q.lam[i]);
        if (q.km >= 0 && useIgm && q.lam[i] <= LYA)
          fm = g.p->getCorrection(Int32(q.kz), q.km, Int32(g.wIndex(q.lam[i])));
      }
      bool pure = fd == 1 && fm == 1;
      double w = want * fd * fm;
      if (!c.check(pure ? f[i] == w : std::fabs(f[i] - w) <= 1e-11 * std::fabs(w), pure ? "unattenuated-exact" : key,
                   vh::fmt("sample %zu lambda %.17g: got %.17g want %.17g (%.17g x dust %.17g x igm %.17g) after%s", i, q.lam[i], f[i], w, want, fd, fm, trace.c_str())))
        return false;
      if (q.on) {
        if (!c.check(std::fabs(x.GetcomputedDustCoeffs()[i] - fd) <= 1e-12 * fd && std::fabs(x.GetcomputedMeiksinCoeffs()[i] - fm) <= 1e-12, "reported-coefficients",
                     vh::fmt("sample %zu: dust %.17g (want %.17g) igm %.17g (want %.17g) after%s", i, x.GetcomputedDustCoeffs()[i], fd, x.GetcomputedMeiksinCoeffs()[i], fm, trace.c_str())))
          return false;
      }
    }
    if (q.on) {
      c.check(x.GetIsmCoeff() == q.kd && x.GetIgmCoeff() == q.km, "reported-indices", trace);
      auto rg = x.GetIsmIgmRangeIndex();
      c.check(rg.first == q.k0 && rg.second == q.k1, "attenuation-range", trace);
      if (useIgm)
        c.check(x.GetIgmEndIndex() == q.kend, "igm-end", vh::fmt("end %d want %d;", x.GetIgmEndIndex(), q.kend) + trace);
    }
    return true;
  };
  int steps = c.r.i(2, 14);
  for (int s = 0; s < steps; ++s) {
    int op = m.on ? c.r.pick(std::vector<int>{0, 1, 1, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10}) : c.r.pick(std::vector<int>{0, 0, 0, 0, 3, 4, 7, 8, 9});
    int N = m.lam.size();
    if (op == 0) { // (re)initialise on a range at a redshift
      double z = c.r.b(0.9) ? c.r.d(g.zb.front(), g.zb.back() + 1) : c.r.d(-0.1, g.zb.back());
      int a = c.r.i(0, N - 1), b = c.r.i(a, N - 1), how = c.r.i(0, 2);
      if (how == 0)
        a = 0, b = N - 1;
      int kz = g.zIndex(z), kend = -1;
      if (useIgm)
        for (int i = a; i <= b; ++i)
          if (m.lam[i] <= LYA)
            kend = i;
      bool refuse = useIgm && kz < 0 && kend >= 0;
      trace += vh::fmt(" init(z=%g,[%d,%d]/%d)", z, a, b, how);
      std::shared_ptr<const CSpectrumFluxCorrectionCalzetti> pd = useIsm ? d.p : nullptr;
      std::shared_ptr<const CSpectrumFluxCorrectionMeiksin> pg = useIgm ? g.p : nullptr;
      auto run = [&] {
        if (how == 0)
          t.InitIsmIgmConfig(z, pd, pg);
        else if (how == 1)
          t.InitIsmIgmConfig(a, b, z, pd, pg);
        else {
          double la = m.lam[a], lb = m.lam[b];
          if (c.r.b() && a > 0)
            la = 0.5 * (m.lam[a - 1] + la);
          if (c.r.b() && b + 1 < N)
            lb = 0.5 * (m.lam[b + 1] + lb);
          t.InitIsmIgmConfig(TFloat64Range(la, lb), z, pd, pg);
        }
      };
      if (refuse) {
        c.check(vh::throwsAmz(run), "missing-curve-refused", "redshift without curve accepted;" + trace);
        return; // state after an error is not specified
      }
      run();
      m.on = true, m.k0 = a, m.k1 = b, m.kd = m.km = -1, m.kz = kz, m.kend = kend;
    } else if (op == 1) {
      int k = c.r.i(-1, d.n - 1);
      trace += vh::fmt(" dust(%d)", k);
      if (!useIsm) {
        c.check(vh::throwsAmz([&] { t.ApplyDustCoeff(k); }), "missing-table-refused", "dust without table;" + trace);
        continue;
      }
      c.check(t.ApplyDustCoeff(k), "apply-status", trace);
      m.kd = k;
      applied++;
    } else if (op == 2) {
      int k = c.r.i(-1, g.nc - 1);
      trace += vh::fmt(" igm(%d)", k);
      if (!useIgm) {
        c.check(vh::throwsAmz([&] { t.ApplyMeiksinCoeff(k); }), "missing-table-refused", "igm without table;" + trace);
        continue;
      }
      c.check(t.ApplyMeiksinCoeff(k) == (m.kend >= 0), "apply-status", trace);
      m.km = k;
      applied++;
    } else if (op == 3) {
      double a = c.r.b(0.2) ? -1 : c.r.logd(0.01, 100);
      trace += vh::fmt(" scale(%g)", a);
      t.ApplyAmplitude(a);
      for (auto &v : m.comp)
        for (auto &x : v)
          x *= a;
    } else if (op == 4) {
      trace += " copy";
      CTemplate u(t);
      if (!verify(u, m, "attenuated-flux"))
        return;
      if (c.r.b() && m.on && useIsm)
        u.ApplyDustCoeff(c.r.i(-1, d.n - 1)); // the original must not follow
      if (!verify(t, m, "copy-independent"))
        return;
      if (c.r.b()) {
        CTemplate v;
        v = t;
        t = std::move(v);
      } else {
        CTemplate v(std::move(t));
        t = v;
      }
    } else if (op == 5) { // sub-sampling
      V mask(N, 0);
      Model q = m;
      q.lam.clear();
      for (auto &v : q.comp)
        v.clear();
      q.k0 = q.k1 = q.kend = -1;
      double p = c.r.pick(std::vector<double>{0.9, 0.5, 0.2});
      for (int i = 0; i < N; ++i)
        if (c.r.b(p)) {
          mask[i] = 1;
          int k = q.lam.size();
          if (i >= m.k0 && i <= m.k1) {
            if (q.k0 < 0)
              q.k0 = k;
            q.k1 = k;
            if (useIgm && m.lam[i] <= LYA)
              q.kend = k;
          }
          q.lam.push_back(m.lam[i]);
          for (int f = 0; f < 3; ++f)
            q.comp[f].push_back(m.comp[f][i]);
        }
      trace += " mask";
      if (q.lam.empty())
        continue;
      CTemplate u(t, mask);
      if (q.k0 < 0) { // the attenuated range is gone: plain template
        q.on = false;
      }
      if (!verify(u, q, "masked-attenuation"))
        return;
      if (c.r.b(0.7)) {
        t = u;
        m = q;
      }
    } else if (op == 6) {
      trace += " disable";
      t.DisableIsmIgm();
      m.on = false;
    } else if (op == 7) {
      int ty = c.r.i(0, 2);
      trace += vh::fmt(" type(%d)", ty);
      static const CSpectrum::EType T[3] = {CSpectrum::nType_raw, CSpectrum::nType_continuumOnly, CSpectrum::nType_noContinuum};
      const CTemplate &ct = t;
      if (m.on && ty != m.type && c.r.b(0.3)) {
        c.check(vh::throwsAmz([&] { ct.SetType(T[ty]); }), "const-type-change-refused", trace);
        continue;
      }
      t.SetType(T[ty]);
      if (ty != m.type)
        m.on = false;
      m.type = ty;
    } else if (op == 8) {
      int bad = c.r.i(0, 1), a = bad ? c.r.i(0, N - 1) : (c.r.b() ? -1 : N), b = bad ? (c.r.b() ? -1 : N + c.r.i(0, 2)) : c.r.i(0, N - 1);
      trace += vh::fmt(" badinit([%d,%d])", a, b);
      c.check(vh::throwsAmz([&] { t.InitIsmIgmConfig(a, b, g.zb[0], d.p, g.p); }), "bad-range-refused", trace);
      if (!useIsm || !useIgm)
        return; // the tables of the refused call may stay registered
    } else if (op == 9) {
      if (m.type != 0)
        continue;
      trace += " setflux";
      m.comp[0] = gen::flux(c.r, m.lam);
      if (c.r.b())
        t.SetFluxAxis(CSpectrumFluxAxis(m.comp[0]));
      else {
        CSpectrumFluxAxis fa(m.comp[0]);
        t.SetFluxAxis(fa);
      }
      m.on = false;
      // only the raw view is followed from here on
      t.SetContinuumEstimationMethod("raw");
      t.SetContinuumEstimationMethod("zero");
      m.comp[1].assign(N, 0), m.comp[2] = m.comp[0];
      t.GetContinuumFluxAxis();
    } else {
      trace += " again";
      if (useIsm)
        t.ApplyDustCoeff(m.kd);
      if (useIgm)
        t.ApplyMeiksinCoeff(m.km);
    }
    if (!verify(t, m, "attenuated-flux"))
      return;
  }
  c.nontrivial = applied > 0;
  c.note(trace);
  // index lists
  if (useIsm && useIgm && m.on) {
    TInt32List em, eb;
    int fe = c.r.b() ? undefIdx : c.r.i(0, d.n - 1), fm = c.r.b() ? undefIdx : c.r.i(0, g.nc - 1);
    bool oe = c.r.b(), om = c.r.b();
    t.GetIsmIgmIdxList(om, oe, em, eb, fe, fm);
    TInt32List we, wm;
    if (!oe)
      we = {-1};
    else if (fe != undefIdx)
      we = {fe};
    else
      for (int k = 0; k < d.n; ++k)
        we.push_back(k);
    if (!om)
      wm = {-1};
    else if (fm != undefIdx)
      wm = {fm};
    else
      for (int k = 0; k < g.nc; ++k)
        wm.push_back(k);
    c.check(eb == we, "offered-dust-indices", vh::vec(eb));
    c.check(em == wm, "offered-igm-indices", vh::vec(em));
  }
}
VH_MAIN
