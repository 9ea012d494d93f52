// Global context set-up and brute-force reference of the template fits, shared by the fitting harnesses.
#ifndef TF_H
#define TF_H
#include "ctx.h"
#include "RedshiftLibrary/operator/templatefitting.h"
#include "RedshiftLibrary/operator/templatefittingwithphot.h"
#include "RedshiftLibrary/photometry/photometricband.h"
#include "RedshiftLibrary/photometry/photometricdata.h"
#include "RedshiftLibrary/processflow/context.h"
#include "RedshiftLibrary/spectrum/maskBuilder.h"
namespace tf {
using namespace NSEpic;
using V = std::vector<double>;
using LD = long double;

struct Obs {
  V lam, flux, err;
  double lo, hi;    // requested range
  double clo, chi_; // clamped range
  std::string id;
};
struct Band {
  std::string name;
  V lam, trans;
  double d, e;
};
inline std::string rangeJson(const std::vector<Obs> &o) {
  if (o.size() == 1)
    return vh::fmt("[%.17g,%.17g]", o[0].lo, o[0].hi);
  std::string s = "{";
  for (auto &x : o)
    s += vh::fmt("%s\"%s\":[%.17g,%.17g]", s.size() > 1 ? "," : "", x.id.c_str(), x.lo, x.hi);
  return s + "}";
}
// fills the global context; galaxy template fitting without FFT unless given
inline void context(std::vector<Obs> &obs, const std::shared_ptr<CTemplateCatalog> &cat, const std::shared_ptr<CSpectrumFluxCorrectionCalzetti> &dust,
                    const std::shared_ptr<CSpectrumFluxCorrectionMeiksin> &igm, const std::shared_ptr<CLSF> &lsf, const std::vector<Band> &bands = {},
                    const std::string &galaxy = "{\"stages\":[\"redshiftSolver\"],\"redshiftSolver\":{\"method\":\"templateFittingSolve\",\"templateFittingSolve\":{\"fftProcessing\":false}}}") {
  Context.reset();
  Context.LoadParameterStore("{\"lambdaRange\":" + rangeJson(obs) +
                             ",\"smoothWidth\":0.0,\"templateCatalog\":{\"continuumRemoval\":{\"method\":\"zero\",\"medianKernelWidth\":75,\"medianEvenReflection\":true}},"
                             "\"continuumRemoval\":{\"method\":\"zero\",\"medianKernelWidth\":75,\"medianEvenReflection\":true},"
                             "\"lsf\":{\"lsfType\":\"gaussianConstantWidth\",\"width\":2.0},\"autoCorrectInput\":false,\"multiObsMethod\":\"full\",\"spectrumModels\":[\"galaxy\"],\"galaxy\":" +
                             galaxy + "}");
  Context.setTemplateCatalog(cat);
  Context.setfluxCorrectionCalzetti(dust);
  Context.setfluxCorrectionMeiksin(igm);
  for (auto &o : obs) {
    auto s = cx::spectrum(o.lam, o.flux, o.err);
    s->SetLSF(lsf);
    s->setObsID(o.id);
    if (!bands.empty()) {
      TStringList n;
      V f, e;
      for (auto &b : bands)
        n.push_back(b.name), f.push_back(b.d), e.push_back(b.e);
      s->SetPhotData(std::make_shared<CPhotometricData>(n, f, e));
    }
    Context.addSpectrum(s);
    o.clo = std::max(o.lo, o.lam.front()), o.chi_ = std::min(o.hi, o.lam.back());
  }
  if (!bands.empty()) {
    auto pc = std::make_shared<CPhotBandCatalog>();
    for (auto &b : bands)
      pc->Add(b.name, CPhotometricBand(b.trans, b.lam));
    Context.setPhotBandCatalog(pc);
  }
  Context.Init();
}
inline double linear(const V &x, const V &y, double v) {
  int k = int(std::upper_bound(x.begin(), x.end(), v) - x.begin()) - 1;
  k = std::max(0, std::min(k, int(x.size()) - 2));
  return double(y[k] + (LD(y[k + 1]) - y[k]) * (LD(v) - x[k]) / (LD(x[k + 1]) - x[k]));
}
struct Att {
  std::shared_ptr<CSpectrumFluxCorrectionCalzetti> dust;
  std::shared_ptr<CSpectrumFluxCorrectionMeiksin> igm;
  double factor(double rest, double z, int kd, int km) const {
    double f = 1;
    if (kd >= 0)
      f *= dust->GetDustCoeff(kd, rest);
    if (km >= 0 && rest <= igm->getLambdaMax())
      f *= igm->getCorrection(igm->getRedshiftIndex(z), km, rest < igm->getLambdaMin() ? 0 : igm->getWaveIndex(rest));
    return f;
  }
};
// samples of an observation used at a redshift: inside the clamped range and inside the template, in the rest frame
struct Use {
  std::vector<int> idx;
  V rest;
  int inRange = 0;
  bool ambiguous = false;
  double overlap() const { return inRange ? double(idx.size()) / inRange : 0; }
};
inline Use samples(const Obs &o, const V &tl, double z) {
  Use u;
  double a = o.clo / (1 + z), b = o.chi_ / (1 + z);
  for (size_t i = 0; i < o.lam.size(); ++i) {
    double r = o.lam[i] / (1 + z);
    for (double e : {a, b, tl.front(), tl.back()})
      if (std::fabs(r - e) < 1e-11 * e && r != e)
        u.ambiguous = true;
    if (r < a || r > b)
      continue;
    u.inRange++;
    if (r < tl.front() || r > tl.back())
      continue;
    u.idx.push_back(i), u.rest.push_back(r);
  }
  return u;
}
struct Sums {
  LD c = 0, t = 0, s = 0;    // cross, template and spectrum products
  LD pc = 0, pt = 0, ps = 0; // part of the photometric bands
};
inline double bandFlux(const Band &b, const V &f) { // mean flux density per Hz, photon counting
  LD num = 0, den = 0, cl = 2.99792458e18L;
  for (size_t i = 1; i < b.lam.size(); ++i) {
    LD dn = cl / b.lam[i - 1] - cl / b.lam[i];
    auto g = [&](size_t k) { return LD(f[k]) * b.lam[k] * b.lam[k] / cl * b.trans[k] * b.lam[k]; };
    num += (g(i) + g(i - 1)) / 2 * dn;
    den += (LD(b.trans[i]) * b.lam[i] + LD(b.trans[i - 1]) * b.lam[i - 1]) / 2 * dn;
  }
  return double(num / den);
}
} // namespace tf
#endif
