// Builders shared by the harnesses that need corrections, line-spread functions, templates or a whole input context.
#ifndef CTX_H
#define CTX_H
#include "gen.h"
#include "RedshiftLibrary/processflow/inputcontext.h"
#include "RedshiftLibrary/processflow/parameterstore.h"
#include "RedshiftLibrary/processflow/scopestack.h"
#include "RedshiftLibrary/spectrum/LSFFactory.h"
#include "RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h"
#include "RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h"
#include "RedshiftLibrary/spectrum/spectrum.h"
#include "RedshiftLibrary/spectrum/template/catalog.h"
#include "RedshiftLibrary/spectrum/template/template.h"
namespace cx {
using namespace NSEpic;
using V = std::vector<double>;
inline std::shared_ptr<CLSF> lsfWidth(double w) {
  return LSFFactory.Create("gaussianConstantWidth", std::make_shared<TLSFGaussianConstantWidthArgs>(w));
}
inline std::shared_ptr<CLSF> lsfResolution(double r) {
  return LSFFactory.Create("gaussianConstantResolution", std::make_shared<TLSFGaussianConstantResolutionArgs>(r));
}
// regular dust table lam0..lam0+step*n, Ebv = e0+k*de
inline std::shared_ptr<CSpectrumFluxCorrectionCalzetti> dust(vh::Rng &r, double lam0, double lam1, int n, double e0, double de, int ne) {
  V l, k;
  double a = r.d(2, 10), b = r.d(0.2, 1.5);
  for (int i = 0; i < n; ++i) {
    l.push_back(lam0 + (lam1 - lam0) * i / (n - 1));
    k.push_back(a * std::pow(l[0] / l[i], b) + 0.3 * r.d());
  }
  return std::make_shared<CSpectrumFluxCorrectionCalzetti>(CalzettiCorrection(l, k), e0, de, ne);
}
// IGM table on the library's 0.05 A grid, from lmin to Lyman alpha, nz redshift bins and nc curves
inline std::shared_ptr<CSpectrumFluxCorrectionMeiksin> igm(vh::Rng &r, int n, int nz, int nc, double z0, double dz) {
  V lam, zb;
  double lmin = std::round((1215.67 - (n - 1) * 0.05) * 20) / 20;
  for (int i = 0; i < n; ++i)
    lam.push_back(lmin + 0.05 * i);
  for (int k = 0; k <= nz; ++k)
    zb.push_back(z0 + dz * k);
  std::vector<MeiksinCorrection> m;
  for (int k = 0; k < nz; ++k) {
    std::vector<V> cur;
    for (int j = 0; j < nc; ++j) {
      V v(n);
      double a = r.d(0.1, 0.9), b = r.d(0.2, 1);
      for (int i = 0; i < n; ++i)
        v[i] = std::min(1., std::max(0., a + (b - a) * i / n + 0.03 * r.d(-1, 1)));
      cur.push_back(v);
    }
    m.emplace_back(lam, cur);
  }
  return std::make_shared<CSpectrumFluxCorrectionMeiksin>(m, zb);
}
inline std::shared_ptr<CSpectrum> spectrum(const V &lam, const V &flux, const V &err) {
  auto s = std::make_shared<CSpectrum>(CSpectrumSpectralAxis(lam), CSpectrumFluxAxis(flux, CSpectrumNoiseAxis(err)));
  return s;
}
} // namespace cx
#endif
