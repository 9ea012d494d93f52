// Random line-model worlds and an independent evaluation of the line model (C08).
#ifndef LMWORLD_H
#define LMWORLD_H
#include "tf.h"
#include "RedshiftLibrary/line/catalog.h"
#include "RedshiftLibrary/line/catalogsTplRatio.h"
#include "RedshiftLibrary/linemodel/linemodelfitting.h"
#include "RedshiftLibrary/linemodel/lineratiomanager.h"
#include "RedshiftLibrary/linemodel/tplratiomanager.h"
#include "RedshiftLibrary/processflow/autoscope.h"
namespace lm {
using namespace NSEpic;
using tf::LD;
using tf::Obs;
using V = std::vector<double>;
constexpr double C = 299792.458;

struct Line {
  std::string name;
  double pos;
  bool em, strong;
  std::string profile;
  TAsymParams asym{0, 0, 0};
  std::string group;
  double nominal, offset = 0;
  bool offsetFit = false;
  int id;
};
struct Ratio { // one catalogue of line ratios
  std::string name;
  V amp; // by line
  double prior = 1, vem = 100, vabs = 100;
  int ism = 0;
};
struct World {
  std::vector<Obs> obs;
  std::vector<Line> lines;
  std::vector<Ratio> ratios;
  double vem, vabs, lsfw, res;
  std::string width, method, ratioType, rules, cont, typeFilter = "no", forceFilter = "no", contMethod = "irregularSamplingMedian";
  bool ampOffset = false, lbdaOffset = false, balmer = false, ratioIsm = false;
  double nsig = 8, absLimit = -1;
  double zlo, zhi, zstep = 1e-3;
  std::string zsampling = "log";
  int nCont = 1;
  bool contIsm = true, contIgm = true, single = true;
  double halfWin = 0.001, cut = -1;
  std::shared_ptr<CTemplateCatalog> cat;
  std::shared_ptr<CLSF> lsf;
  std::string fpMethod = "individual", velfit = "false", pdfcomb = "marg", skip2 = "false", reest = "no", contFit2 = "reFitFirstPass";
  double haPrior = -1, strongPrior = -1, nOfZ = -1;
  int nExt = 3;
  double lgs = 4; // coarse to fine step of the grids
  double vmin = 100, vmax = 400, vstep = 100;
  std::string range() const { return tf::rangeJson(obs); }
};
inline std::string b2s(bool b) { return b ? "true" : "false"; }
inline std::string galaxy(const World &w) {
  std::string s = vh::fmt("{\"redshiftRange\":[%.17g,%.17g],\"redshiftStep\":%.17g,\"redshiftSampling\":\"%s\",\"stages\":[\"redshiftSolver\"],"
                          "\"redshiftSolver\":{\"method\":\"lineModelSolve\",\"lineModelSolve\":{\"lineModel\":{",
                          w.zlo, w.zhi, w.zstep, w.zsampling.c_str());
  s += vh::fmt("\"continuumReestimation\":\"%s\",\"velocityFit\":%s,\"emVelocityFitMin\":%g,\"emVelocityFitMax\":%g,\"emVelocityFitStep\":%g,"
               "\"absVelocityFitMin\":%g,\"absVelocityFitMax\":%g,\"absVelocityFitStep\":%g,\"ampOffsetFit\":%s,\"lbdaOffsetFit\":%s,",
               w.reest.c_str(), w.velfit.c_str(), w.vmin, w.vmax, w.vstep, w.vmin, w.vmax, w.vstep, b2s(w.ampOffset).c_str(), b2s(w.lbdaOffset).c_str());
  s += vh::fmt("\"extremaCount\":%d,\"extremaCountB\":0,\"nSigmaSupport\":%g,\"hAlphaPrior\":%g,\"nOfZPriorStrength\":%g,\"extremaCutProbaThreshold\":%g,"
               "\"skipSecondPass\":%s,\"secondPassLcFittingMethod\":\"-1\",\"useLogLambdaSampling\":false,\"strongLinesPrior\":%g,",
               w.nExt, w.nsig, w.haPrior, w.nOfZ, w.cut, w.skip2.c_str(), w.strongPrior);
  s += vh::fmt("\"fittingMethod\":\"%s\",\"lineWidthType\":\"%s\",\"velocityEmission\":%.17g,\"velocityAbsorption\":%.17g,\"lineTypeFilter\":\"%s\",\"lineForceFilter\":\"%s\",",
               w.method.c_str(), w.width.c_str(), w.vem, w.vabs, w.typeFilter.c_str(), w.forceFilter.c_str());
  s += "\"lya\":{\"profile\":\"asym\",\"asymProfile\":{\"switchFixedToFit\":false,\"switchFitToFixed\":false,\"asymFitMin\":0,\"asymFitMax\":4,\"asymFitStep\":1,"
       "\"widthFitMin\":1,\"widthFitMax\":4,\"widthFitStep\":1,\"deltaFitMin\":0,\"deltaFitMax\":0,\"deltaStepMax\":1}},"
       "\"tplRatio\":{\"priors\":{\"betaA\":1,\"betaTE\":1,\"betaZ\":1,\"catalogDirPath\":\"\"}},";
  s += vh::fmt("\"firstPass\":{\"fittingMethod\":\"%s\",\"tplRatioIsmFit\":true,\"largeGridStepRatio\":%g,\"multipleContinuumFitDisable\":%s,\"extremaCount\":%d},"
               "\"secondPass\":{\"halfWindowSize\":%g,\"continuumFit\":\"%s\"},",
               w.fpMethod.c_str(), w.lgs, b2s(w.single).c_str(), w.nExt, w.halfWin, w.contFit2.c_str());
  s += vh::fmt("\"continuumComponent\":\"%s\",\"pdfCombination\":\"%s\",\"tplRatioIsmFit\":%s,\"rules\":\"%s\",\"improveBalmerFit\":%s,\"lineRatioType\":\"%s\",\"enablePhotometry\":false,",
               w.cont.c_str(), w.pdfcomb.c_str(), b2s(w.ratioIsm).c_str(), w.rules.c_str(), b2s(w.balmer).c_str(), w.ratioType.c_str());
  s += vh::fmt("\"continuumFit\":{\"ignoreLineSupport\":false,\"negativeThreshold\":-5.0,\"count\":%d,\"nullThreshold\":3,\"ismFit\":%s,\"igmFit\":%s,\"fftProcessing\":false,"
               "\"priors\":{\"betaA\":1,\"betaTE\":1,\"betaZ\":1,\"catalogDirPath\":\"\"}}}}}}",
               w.nCont, b2s(w.contIsm).c_str(), b2s(w.contIgm).c_str());
  return s;
}
inline CLineCatalog lineCatalog(const World &w) {
  CLineCatalog c(w.nsig);
  for (auto &l : w.lines)
    c.AddLineFromParams(l.name, l.pos, l.em ? "E" : "A", l.strong ? "S" : "W", l.profile, l.asym, l.group, l.nominal, l.em ? "em_vel" : "abs_vel", l.offset, l.offsetFit, l.id, l.name);
  return c;
}
// attenuation tables shared by all the cases
struct Tables {
  vh::Rng fixed{4711};
  decltype(cx::dust(fixed, 100, 20000, 300, 0, 0.1, 10)) dust = cx::dust(fixed, 100, 20000, 300, 0, 0.1, 10);
  decltype(cx::igm(fixed, 12000, 4, 3, 1.5, 0.5)) igm = cx::igm(fixed, 12000, 4, 3, 1.5, 0.5);
};
inline Tables &tables() {
  static Tables t;
  return t;
}
// fills the global context
inline void context(World &w) {
  Context.reset();
  Context.LoadParameterStore("{\"lambdaRange\":" + w.range() +
                             ",\"smoothWidth\":0.0,\"templateCatalog\":{\"continuumRemoval\":{\"method\":\"zero\",\"medianKernelWidth\":75,\"medianEvenReflection\":true}},"
                             "\"continuumRemoval\":{\"method\":\"" +
                             w.contMethod +
                             "\",\"medianKernelWidth\":400,\"medianEvenReflection\":true,\"decompScales\":9},"
                             "\"ebmv\":{\"start\":0,\"step\":0.1,\"count\":10},\"extremaRedshiftSeparation\":0.01,"
                             "\"lsf\":{\"lsfType\":\"gaussianConstantWidth\",\"width\":2.0},\"autoCorrectInput\":false,\"airVacuumMethod\":\"default\",\"multiObsMethod\":\"full\","
                             "\"spectrumModels\":[\"galaxy\"],\"galaxy\":" +
                             galaxy(w) + "}");
  Context.setTemplateCatalog(w.cat ? w.cat : std::make_shared<CTemplateCatalog>());
  Context.setfluxCorrectionCalzetti(tables().dust);
  Context.setfluxCorrectionMeiksin(tables().igm);
  w.lsf = w.lsfw > 0 ? cx::lsfWidth(w.lsfw) : cx::lsfResolution(w.res);
  for (auto &o : w.obs) {
    auto s = cx::spectrum(o.lam, o.flux, o.err);
    s->SetLSF(w.lsf);
    s->setObsID(o.id);
    Context.addSpectrum(s);
    o.clo = std::max(o.lo, o.lam.front()), o.chi_ = std::min(o.hi, o.lam.back());
  }
  auto cat = std::make_shared<CLineCatalog>(lineCatalog(w));
  Context.setLineCatalog("galaxy", "lineModelSolve", cat);
  auto rc = std::make_shared<CLineCatalogsTplRatio>();
  for (auto &q : w.ratios) {
    CLineRatioCatalog lr(q.name, *cat);
    for (size_t i = 0; i < w.lines.size(); ++i)
      lr.setLineAmplitude(w.lines[i].id, q.amp[i]);
    lr.addVelocity("em_vel", q.vem);
    lr.addVelocity("abs_vel", q.vabs);
    lr.setPrior(q.prior);
    lr.setIsmIndex(q.ism);
    rc->addLineRatioCatalog(lr);
  }
  Context.setLineRatioCatalogCatalog("galaxy", rc);
  Context.Init();
}
struct Scope {
  CAutoScope a{Context.m_ScopeStack, "galaxy", ScopeType::SPECTRUMMODEL}, b{Context.m_ScopeStack, "redshiftSolver", ScopeType::STAGE},
      c{Context.m_ScopeStack, "lineModelSolve", ScopeType::METHOD};
};

// ---- independent evaluation
struct Sup {
  int b = 0, e = -1; // own window
  bool out = true;
  double mu = 0, sig = 0;
  int comp = -1;
};
struct Ref {
  const World &w;
  double z;
  V off;                              // km/s by line
  std::vector<std::vector<int>> elts; // lines of each element
  std::vector<int> eltOf;
  std::vector<std::vector<Sup>> sup;                      // [obs][line]
  std::vector<std::vector<std::pair<int, int>>> comps;    // [obs] ranges
  std::vector<std::vector<int>> compElt;                  // element of each range
  bool touching = false, edge = false;                    // windows of an element sharing one single sample / on the limit of being kept
  std::vector<V> cont, y;                                 // continuum and data, by observation
  double vem, vabs;
  std::vector<CLineProfile_ptr> prof;

  double width(const Line &l, double mu) const {
    double ins = w.lsf->GetWidth(mu);
    double vel = (l.em ? vem : vabs) / C * mu;
    if (w.width == "instrumentDriven")
      vel = 0;
    if (w.width == "velocityDriven")
      ins = 0;
    return std::sqrt(ins * ins + vel * vel);
  }
  double p(int l, double mu, double sig, double x) const {
    if (w.lines[l].profile == "SYM") {
      double t = (x - mu) / sig;
      return std::exp(-0.5 * t * t);
    }
    return prof[l]->GetLineProfileVal(x, mu, sig);
  }
  Ref(const World &w_, double z_, std::vector<std::vector<int>> e, const V &offsets, double ve, double va) : w(w_), z(z_), off(offsets), elts(e), vem(ve), vabs(va) {
    if (off.empty())
      for (auto &l : w.lines)
        off.push_back(l.offset);
    eltOf.assign(w.lines.size(), -1);
    for (size_t k = 0; k < elts.size(); ++k)
      for (int l : elts[k])
        eltOf[l] = k;
    auto cat = lineCatalog(w);
    for (auto &l : w.lines)
      prof.push_back(cat.GetList().at(l.id).GetProfile()->Clone());
    for (size_t o = 0; o < w.obs.size(); ++o) {
      auto &O = w.obs[o];
      sup.emplace_back(w.lines.size());
      comps.emplace_back();
      compElt.emplace_back();
      for (size_t k = 0; k < elts.size(); ++k) {
        std::vector<std::pair<int, int>> iv;
        for (int l : elts[k]) {
          Sup &s = sup[o][l];
          s.mu = w.lines[l].pos * (1 + z) * (1 + off[l] / C);
          s.sig = width(w.lines[l], s.mu);
          double win = prof[l]->GetNSigmaSupport() * s.sig;
          auto idx = [&](double x) { return std::min(int(O.lam.size()) - 1, int(std::lower_bound(O.lam.begin(), O.lam.end(), x) - O.lam.begin())); };
          double a = std::max(s.mu - win / 2, O.clo), b = std::min(s.mu + win / 2, O.chi_);
          s.b = idx(a), s.e = idx(b);
          for (double q : {a, b})
            for (int m : {idx(q) - 1, idx(q), idx(q) + 1})
              if (m >= 0 && m < int(O.lam.size()) && O.lam[m] != q && std::fabs(O.lam[m] - q) < 1e-9 * q)
                edge = true;
          if (O.lam[s.e] > O.chi_)
            s.e--;
          if (s.e < s.b) {
            s.out = true;
            continue;
          }
          double m = 0.33 * win, d1 = O.lam[s.b] - (O.chi_ - m), d2 = (O.clo + m) - O.lam[s.e];
          if (std::fabs(d1) < 1e-9 * s.mu || std::fabs(d2) < 1e-9 * s.mu)
            edge = true;
          s.out = d1 >= 0 || d2 >= 0;
          if (!s.out)
            iv.push_back({s.b, s.e});
        }
        bool again = true; // merge the windows sharing more than one sample
        while (again) {
          again = false;
          for (size_t i = 0; i < iv.size() && !again; ++i)
            for (size_t j = i + 1; j < iv.size() && !again; ++j)
              if (std::min(iv[i].second, iv[j].second) > std::max(iv[i].first, iv[j].first)) {
                iv[i] = {std::min(iv[i].first, iv[j].first), std::max(iv[i].second, iv[j].second)};
                iv.erase(iv.begin() + j);
                again = true;
              }
        }
        for (size_t i = 0; i < iv.size(); ++i)
          for (size_t j = i + 1; j < iv.size(); ++j)
            if (std::min(iv[i].second, iv[j].second) == std::max(iv[i].first, iv[j].first)) {
              touching = true;
              if (iv[i].first == iv[i].second || iv[j].first == iv[j].second)
                edge = true; // a window of one sample inside another one
            }
        for (auto &q : iv) {
          int ci = comps[o].size();
          comps[o].push_back(q);
          compElt[o].push_back(k);
          for (int l : elts[k]) {
            Sup &s = sup[o][l];
            if (!s.out && s.b >= q.first && s.e <= q.second && s.comp < 0)
              s.comp = ci;
          }
        }
      }
    }
  }
  // raw data and continuum of the component
  void data() {
    for (size_t o = 0; o < w.obs.size(); ++o) {
      auto sp = Context.getSpectra()[o];
      int n = w.obs[o].lam.size();
      V c(n, 0.), d = w.obs[o].flux;
      if (w.cont == "fromSpectrum")
        c = sp->GetContinuumFluxAxis().GetSamplesVector();
      cont.push_back(c), y.push_back(d);
    }
  }
  // lines moved inside their windows
  void shift(const V &offsets) {
    off = offsets;
    for (auto &so : sup)
      for (size_t l = 0; l < w.lines.size(); ++l)
        if (eltOf[l] >= 0) {
          so[l].mu = w.lines[l].pos * (1 + z) * (1 + off[l] / C);
          so[l].sig = width(w.lines[l], so[l].mu);
        }
  }
  bool outAll(int l) const {
    for (auto &s : sup)
      if (!s[l].out)
        return false;
    return true;
  }
  bool eltOut(int e) const {
    for (int l : elts[e])
      if (!outAll(l))
        return false;
    return true;
  }
  double term(int o, int l, int i) const { // contribution for an amplitude of one
    const Sup &s = sup[o][l];
    double v = p(l, s.mu, s.sig, w.obs[o].lam[i]);
    return w.lines[l].em ? v : -v * cont[o][i];
  }
  std::vector<std::pair<std::vector<int>, V>> poly; // offsets of the amplitudes: elements of a group, coefficients
  V model(int o, const V &amp) const {
    V m = cont[o];
    std::set<int> done; // a sample takes the offset of one group
    for (auto &g : poly)
      for (int i : samples(g.first, o))
        if (done.insert(i).second) {
          LD x = w.obs[o].lam[i];
          m[i] += double(g.second[0] + x * (g.second[1] + x * g.second[2]));
        }
    for (size_t l = 0; l < w.lines.size(); ++l) {
      const Sup &s = sup[o][l];
      if (eltOf[l] < 0 || s.out || s.comp < 0 || std::isnan(amp[l]) || amp[l] < 0)
        continue;
      auto q = comps[o][s.comp];
      for (int i = q.first; i <= q.second; ++i)
        m[i] += amp[l] * term(o, l, i);
    }
    return m;
  }
  std::pair<int, int> range(int o) const {
    auto &O = w.obs[o];
    auto idx = [&](double x) { return int(std::lower_bound(O.lam.begin(), O.lam.end(), x) - O.lam.begin()); };
    return {idx(O.clo), idx(O.chi_)};
  }
  LD merit(const std::vector<V> &m, LD *abs = nullptr) const {
    LD s = 0;
    for (size_t o = 0; o < w.obs.size(); ++o) {
      auto q = range(o);
      for (int i = q.first; i < q.second; ++i) {
        LD d = LD(y[o][i]) - m[o][i];
        s += d * d / (LD(w.obs[o].err[i]) * w.obs[o].err[i]);
      }
    }
    return s;
  }
  LD merit(const V &amp) const {
    std::vector<V> m;
    for (size_t o = 0; o < w.obs.size(); ++o)
      m.push_back(model(o, amp));
    return merit(m);
  }
  struct Fit {
    LD t = 0, s = 0; // cross and self products
    bool ok() const { return s > 0; }
  };
  // one element alone; ratio = amplitudes for an element amplitude of one
  Fit alone(int e, const V &ratio) const {
    Fit f;
    for (size_t o = 0; o < w.obs.size(); ++o)
      for (size_t ci = 0; ci < comps[o].size(); ++ci) {
        if (compElt[o][ci] != e)
          continue;
        for (int i = comps[o][ci].first; i <= comps[o][ci].second; ++i) {
          LD g = 0;
          for (int l : elts[e])
            if (!sup[o][l].out && sup[o][l].comp == int(ci))
              g += LD(ratio[l]) * term(o, l, i);
          LD e2 = LD(w.obs[o].err[i]) * w.obs[o].err[i];
          f.t += g * (LD(y[o][i]) - cont[o][i]) / e2;
          f.s += g * g / e2;
        }
      }
    return f;
  }
  // joint fit on the first observation of the elements `cols` over the samples of the elements `g`
  struct Joint {
    V a, sd;
    bool ok = true, few = false; // conditioned well enough; fewer samples than amplitudes
    int n = 0;
    V poly; // coefficients of the quadratic offset
  };
  std::vector<int> samples(const std::vector<int> &g, int o = 0) const {
    std::set<int> s;
    for (size_t ci = 0; ci < comps[o].size(); ++ci)
      if (std::count(g.begin(), g.end(), compElt[o][ci]))
        for (int i = comps[o][ci].first; i <= comps[o][ci].second; ++i)
          s.insert(i);
    return {s.begin(), s.end()};
  }
  Joint joint(const std::vector<int> &g, const std::vector<int> &cols, bool poly) const {
    Joint J;
    auto sm = samples(g);
    int nc = cols.size(), n = sm.size(), N = nc + (poly ? 3 : 0);
    J.n = n, J.a.assign(nc, 0.), J.sd.assign(nc, 0.), J.poly.assign(3, 0.);
    if (n < N) {
      J.few = true;
      return J;
    }
    std::vector<std::vector<LD>> X(N, std::vector<LD>(n));
    std::vector<LD> Y(n), norm(N, 0);
    double x0 = w.obs[0].lam[sm[n / 2]], xs = std::max(1., std::fabs(w.obs[0].lam[sm[n - 1]] - w.obs[0].lam[sm[0]]));
    for (int i = 0; i < n; ++i) {
      int j = sm[i];
      LD e = w.obs[0].err[j];
      Y[i] = (LD(y[0][j]) - cont[0][j]) / e;
      for (int k = 0; k < nc; ++k) {
        LD v = 0;
        for (int l : elts[cols[k]])
          if (!sup[0][l].out)
            v += LD(w.lines[l].nominal) * term(0, l, j);
        X[k][i] = v / e;
      }
      LD t = (LD(w.obs[0].lam[j]) - x0) / xs;
      for (int k = nc; k < N; ++k)
        X[k][i] = (k == nc ? 1 : k == nc + 1 ? t : t * t) / e;
    }
    std::vector<int> act; // columns with something
    for (int k = 0; k < N; ++k) {
      for (int i = 0; i < n; ++i)
        norm[k] += X[k][i] * X[k][i];
      norm[k] = std::sqrt(norm[k]);
      if (norm[k] > 0)
        act.push_back(k);
    }
    int m = act.size();
    std::vector<std::vector<LD>> G(m, std::vector<LD>(2 * m + 1, 0)); // [gram | rhs | identity]
    for (int p = 0; p < m; ++p) {
      for (int q = 0; q < m; ++q)
        for (int i = 0; i < n; ++i)
          G[p][q] += X[act[p]][i] * X[act[q]][i] / (norm[act[p]] * norm[act[q]]);
      for (int i = 0; i < n; ++i)
        G[p][m] += X[act[p]][i] * Y[i] / norm[act[p]];
      G[p][m + 1 + p] = 1;
    }
    for (int p = 0; p < m; ++p) { // elimination of a positive matrix
      if (G[p][p] < 1e-5L)
        J.ok = false;
      if (!(G[p][p] > 1e-14L))
        return J;
      LD d = G[p][p];
      for (auto &v : G[p])
        v /= d;
      for (int q = 0; q < m; ++q)
        if (q != p) {
          LD f = G[q][p];
          if (f != 0)
            for (int k = 0; k <= 2 * m; ++k)
              G[q][k] -= f * G[p][k];
        }
    }
    std::vector<LD> sol(N, 0);
    for (int p = 0; p < m; ++p) {
      sol[act[p]] = G[p][m] / norm[act[p]];
      if (act[p] < nc) {
        J.a[act[p]] = double(sol[act[p]]);
        J.sd[act[p]] = double(std::sqrt(G[p][m + 1 + p]) / norm[act[p]]);
      }
    }
    if (poly) {
      LD b0 = sol[nc], b1 = sol[nc + 1] / xs, b2 = sol[nc + 2] / (LD(xs) * xs);
      J.poly = {double(b0 - b1 * x0 + b2 * LD(x0) * x0), double(b1 - 2 * b2 * x0), double(b2)};
    }
    return J;
  }
  // amplitudes of a group under the positivity constraint of the joint fits; ok false when the branch taken is ambiguous
  struct Group {
    V a, sd, poly;
    bool ok = true;
    int negative = 0;
  };
  Group positive(const std::vector<int> &g, bool poly) const {
    Group r;
    V nom;
    for (auto &l : w.lines)
      nom.push_back(l.nominal);
    auto single = [&](int e, double &a, double &sd) {
      auto t = alone(e, nom);
      if (!t.ok() || touching) {
        r.ok = false;
        return;
      }
      a = std::max(0., double(t.t / t.s)), sd = 1 / std::sqrt(double(t.s));
    };
    auto sure = [&](const Joint &J) {
      for (size_t k = 0; k < J.a.size(); ++k)
        if (!(J.sd[k] > 0) || std::fabs(J.a[k]) < 1e-7 * J.sd[k])
          return false;
      return J.ok;
    };
    auto J = joint(g, g, poly);
    r.a = J.a, r.sd = J.sd, r.poly = J.poly;
    if (J.few) {
      r.sd.assign(g.size(), INFINITY);
      return r;
    }
    r.ok = sure(J);
    std::vector<int> pos, cols;
    for (size_t k = 0; k < g.size(); ++k)
      if (J.a[k] < 0)
        r.a[k] = 0, r.negative++;
      else
        pos.push_back(k), cols.push_back(g[k]);
    if (pos.size() == g.size() || pos.empty())
      return r;
    if (!poly && pos.size() == 1) {
      single(cols[0], r.a[pos[0]], r.sd[pos[0]]);
      return r;
    }
    auto J2 = joint(g, cols, poly);
    r.poly = J2.poly;
    r.ok = r.ok && sure(J2) && !J2.few;
    bool neg = false;
    for (double v : J2.a)
      neg = neg || v < 0;
    for (size_t k = 0; k < pos.size(); ++k) {
      r.a[pos[k]] = J2.a[k], r.sd[pos[k]] = J2.sd[k];
      if (neg && J2.a[k] > 0)
        single(cols[k], r.a[pos[k]], r.sd[pos[k]]);
      if (J2.a[k] < 0)
        r.a[pos[k]] = 0, r.negative++;
    }
    return r;
  }
  // groups of the hybrid method; ambiguous set when an overlap is at the threshold
  std::vector<std::vector<int>> groups(bool &ambiguous) const {
    std::vector<std::vector<int>> r;
    std::set<int> done;
    for (size_t e = 0; e < elts.size(); ++e) {
      if (eltOut(e) || done.count(e))
        continue;
      std::vector<int> g;
      for (size_t f = 0; f < elts.size(); ++f) {
        bool in = f == e;
        if (!in && !eltOut(f) && !done.count(f) && w.lines[elts[f][0]].em == w.lines[elts[e][0]].em)
          for (int a : elts[e])
            for (int b : elts[f]) {
              if (outAll(a) || outAll(b))
                continue;
              auto win = [&](int l, double &lo, double &hi) {
                double mu = w.lines[l].pos * (1 + z), s = prof[l]->GetNSigmaSupport() * width(w.lines[l], mu);
                lo = mu - s / 2, hi = mu + s / 2;
                return s;
              };
              double al, ah, bl, bh, s = win(a, al, ah);
              win(b, bl, bh);
              double ov = std::min(ah, bh) - std::max(al, bl) - 0.15 * s;
              if (std::fabs(ov) < 1e-9 * s)
                ambiguous = true;
              in = in || ov > 0;
            }
        if (in)
          g.push_back(f);
      }
      for (int f : g)
        done.insert(f);
      r.push_back(g);
    }
    return r;
  }
};
} // namespace lm
#endif
