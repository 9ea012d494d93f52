// what the library holds in its context after the calibration files were loaded, as JSON (C27)
#include "RedshiftLibrary/line/catalog.h"
#include "RedshiftLibrary/line/catalogsTplRatio.h"
#include "RedshiftLibrary/photometry/photometricband.h"
#include "RedshiftLibrary/processflow/context.h"
#include "RedshiftLibrary/spectrum/LSF.h"
#include "RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h"
#include "RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h"
#include <sstream>
using namespace NSEpic;
namespace {
struct J {
  std::ostringstream o;
  J() { o.precision(17); }
  J &num(double x) {
    if (x != x) o << "NaN"; else if (x > 1.7976931348623157e308) o << "Infinity"; else if (x < -1.7976931348623157e308) o << "-Infinity"; else o << x;
    return *this;
  }
  J &str(const std::string &s) {
    o << '"';
    for (char c : s) { if (c == '"' || c == '\\') o << '\\'; if ((unsigned char)c < 32) o << ' '; else o << c; }
    o << '"';
    return *this;
  }
  template <class V> J &list(const V &v) {
    o << '[';
    for (size_t i = 0; i < v.size(); i++) { if (i) o << ','; num(v[i]); }
    o << ']';
    return *this;
  }
};
void lines(J &j, const CLineMap &m) {
  j.o << '{';
  bool first = true;
  for (const auto &[id, l] : m) {
    if (!first) j.o << ',';
    first = false;
    j.o << '"' << id << "\":{\"id\":" << l.GetID() << ",\"name\":"; j.str(l.GetName());
    j.o << ",\"strid\":"; j.str(l.GetStrID());
    j.o << ",\"pos\":"; j.num(l.GetPosition());
    j.o << ",\"type\":"; j.str(l.IsEmission() ? "E" : "A");
    j.o << ",\"force\":"; j.str(l.IsStrong() ? "S" : "W");
    j.o << ",\"group\":"; j.str(l.GetGroupName());
    j.o << ",\"amp\":"; j.num(l.GetNominalAmplitude());
    j.o << ",\"velgroup\":"; j.str(l.GetVelGroupName());
    j.o << ",\"offset\":"; j.num(l.GetOffset());
    j.o << ",\"fitoffset\":" << (l.IsOffsetFitEnabled() ? "true" : "false");
    const auto &p = *l.GetProfile();
    auto a = p.GetAsymParams();
    j.o << ",\"profile\":" << int(p.GetName()) << ",\"fixed\":" << (p.isAsymFixed() ? "true" : "false") << ",\"support\":";
    j.num(p.m_nsigmasupport);
    j.o << ",\"asym\":"; j.list(TFloat64List{a.sigma, a.alpha, a.delta});
    j.o << '}';
  }
  j.o << '}';
}
std::string out;
} // namespace
extern "C" const char *vh_calibration() {
  J j;
  const CInputContext &c = *Context.GetInputContext();
  auto sep = [&](bool &first) { if (!first) j.o << ','; first = false; };
  j.o << "{\"templates\":{";
  bool f = true;
  if (c.m_TemplateCatalog) {
    const CTemplateCatalog &t = *c.m_TemplateCatalog;
    for (const auto &cat : t.GetCategoryList()) {
      sep(f); j.str(cat); j.o << ":[";
      bool g = true;
      for (const auto &x : t.GetTemplateList(TStringList{cat})) {
        sep(g);
        if (!x) { j.o << "null"; continue; }
        j.o << '['; j.str(x->GetName()); j.o << ','; j.str(x->GetCategory()); j.o << ',';
        j.list(x->GetSpectralAxis().GetSamplesVector()); j.o << ','; j.list(x->GetFluxAxis().GetSamplesVector()); j.o << ']';
      }
      j.o << ']';
    }
  }
  j.o << "},\"lines\":{"; f = true;
  for (const auto &[m, x] : c.m_lineCatalogs)
    for (const auto &[k, l] : x)
      if (l) { sep(f); j.str(m + "|" + k); j.o << ':'; lines(j, l->GetList()); }
  j.o << "},\"ratios\":{"; f = true;
  for (const auto &[m, x] : c.m_lineRatioCatalogCatalogs)
    if (x) {
      sep(f); j.str(m); j.o << ":[";
      bool g = true;
      for (Int32 i = 0; i < x->GetCatalogsCount(); i++) {
        const auto &r = x->GetCatalog(i);
        sep(g); j.o << "{\"name\":"; j.str(r.getName()); j.o << ",\"prior\":"; j.num(r.getPrior());
        j.o << ",\"ism\":" << r.getIsmIndex() << ",\"velocities\":{";
        bool h = true;
        for (const auto &[n, v] : r.m_Velocities) { sep(h); j.str(n); j.o << ':'; j.num(v); }
        j.o << "},\"lines\":"; lines(j, r.GetList()); j.o << '}';
      }
      j.o << ']';
    }
  j.o << "},\"bands\":{"; f = true;
  if (c.m_photBandCatalog)
    for (const auto &[n, b] : *c.m_photBandCatalog) {
      sep(f); j.str(n); j.o << ":["; j.list(b.GetWavelength()); j.o << ','; j.list(b.GetTransmission()); j.o << ']';
    }
  j.o << "},\"ism\":";
  if (c.m_ismcorrectionCalzetti) {
    const auto &d = *c.m_ismcorrectionCalzetti;
    j.o << "{\"table\":"; j.list(d.m_dataCalzetti); j.o << ",\"lo\":"; j.num(d.getLambdaMin()); j.o << ",\"hi\":"; j.num(d.getLambdaMax());
    TFloat64List v;
    for (Int32 k = 0; k < d.GetNPrecomputedEbmvCoeffs(); k++) v.push_back(d.GetEbmvValue(k));
    j.o << ",\"ebmv\":"; j.list(v); j.o << '}';
  } else j.o << "null";
  j.o << ",\"igm\":";
  if (c.m_igmcorrectionMeiksin) {
    const auto &d = *c.m_igmcorrectionMeiksin;
    j.o << "{\"zbins\":"; j.list(d.getRedshiftBins()); j.o << ",\"curves\":[";
    f = true;
    for (const auto &x : d.m_rawCorrections) {
      sep(f); j.o << "{\"lbda\":"; j.list(x.lbda); j.o << ",\"flux\":[";
      bool g = true;
      for (const auto &y : x.fluxcorr) { sep(g); j.list(y); }
      j.o << "]}";
    }
    j.o << "]}";
  } else j.o << "null";
  j.o << ",\"lsf\":["; f = true;
  for (const auto &s : c.m_spectra) {
    sep(f);
    if (!s || !s->GetLSF()) { j.o << "null"; continue; }
    TFloat64List v;
    for (double w : {4100., 4555., 5005., 5550., 5790.}) v.push_back(s->GetLSF()->GetWidth(w));
    j.list(v);
  }
  j.o << "]}";
  out = j.o.str();
  return out.c_str();
}
