// C22: probabilities and label of the object classification against the definition, through the context and the result store.
#include "RedshiftLibrary/method/classificationresult.h"
#include "RedshiftLibrary/method/classificationsolve.h"
#include "RedshiftLibrary/operator/pdfz.h"
#include "RedshiftLibrary/processflow/autoscope.h"
#include "RedshiftLibrary/processflow/context.h"
#include "RedshiftLibrary/processflow/parameterstore.h"
#include "RedshiftLibrary/processflow/resultstore.h"
#include "gen.h"
#include "tf.h"
using namespace NSEpic;
using S = std::string;
using V = std::vector<double>;
using LD = long double;
struct Obj {
  S name, method;
  bool solver; // has a redshift solver
  bool solved;
  double ev;
};
static const double INF = INFINITY;
static void context(const std::vector<Obj> &objs) {
  static auto obs = [] {
    std::vector<tf::Obs> o(1);
    for (int i = 0; i < 20; ++i)
      o[0].lam.push_back(4000 + i), o[0].flux.push_back(1 + i % 3), o[0].err.push_back(1);
    o[0].lo = 4000, o[0].hi = 4019;
    return o;
  }();
  Context.reset();
  S l, b;
  for (auto &o : objs) {
    l += (l.empty() ? "\"" : ",\"") + o.name + "\"";
    if (o.solver)
      b += ",\"" + o.name + "\":{\"stages\":[\"redshiftSolver\"],\"redshiftSolver\":{\"method\":\"" + o.method + "\",\"" + o.method + "\":" + (o.method == "lineModelSolve" ? "{\"lineModel\":{\"continuumComponent\":\"noContinuum\"}}" : "{}") + "}}";
    else
      b += ",\"" + o.name + "\":{\"stages\":[\"lineMeasSolver\"],\"lineMeasSolver\":{\"method\":\"lineMeasSolve\"}}";
  }
  Context.LoadParameterStore("{\"lambdaRange\":[4000,4019],\"smoothWidth\":0.0,\"continuumRemoval\":{\"method\":\"zero\",\"medianKernelWidth\":75,\"medianEvenReflection\":true},"
                             "\"templateCatalog\":{\"continuumRemoval\":{\"method\":\"zero\",\"medianKernelWidth\":75,\"medianEvenReflection\":true}},"
                             "\"lsf\":{\"lsfType\":\"gaussianConstantWidth\",\"width\":2.0},\"autoCorrectInput\":false,\"multiObsMethod\":\"\",\"spectrumModels\":[" +
                             l + "]" + b + "}");
  Context.setTemplateCatalog(std::make_shared<CTemplateCatalog>());
  static vh::Rng fixed(7);
  static auto dust = cx::dust(fixed, 900, 3000, 40, 0, 0.1, 3);
  static auto igm = cx::igm(fixed, 400, 2, 2, 1.5, 0.5);
  Context.setfluxCorrectionCalzetti(dust);
  Context.setfluxCorrectionMeiksin(igm);
  auto s = cx::spectrum(obs[0].lam, obs[0].flux, obs[0].err);
  s->SetLSF(cx::lsfWidth(2));
  Context.addSpectrum(s);
  Context.Init();
}
static void store(const Obj &o) {
  auto cand = std::make_shared<TCandidateZ>();
  cand->Redshift = 0.5;
  Context.GetResultStore()->StoreGlobalResult(o.name + ".redshiftSolver." + o.method, "solveResult",
                                              std::make_shared<CPdfSolveResult>("CPdfSolveResult", cand, "marg", o.ev));
}
struct Out {
  bool refused = false;
  S label;
  std::map<S, double> p, e;
};
static Out classify(bool viaCompute) {
  Out o;
  CAutoScope a(Context.m_ScopeStack, "classification", ScopeType::SPECTRUMMODEL), b(Context.m_ScopeStack, "classification", ScopeType::STAGE);
  try {
    CClassificationSolve cs;
    std::shared_ptr<const CClassificationResult> r;
    if (viaCompute) {
      cs.Compute();
      r = Context.GetResultStore()->GetClassificationResult("classification", "classification", "classification", "solveResult");
    } else
      r = std::dynamic_pointer_cast<const CClassificationResult>(cs.compute());
    o.label = r->m_TypeLabel, o.p = r->m_proba, o.e = r->m_evidences;
  } catch (AmzException const &e) {
    o.refused = true, o.label = e.what();
  }
  return o;
}
static std::vector<Obj> objects(vh::Case &c) {
  static const std::vector<S> names = {"galaxy", "star", "qso", "agn", "blazar", "wd"}, methods = {"templateFittingSolve", "lineModelSolve", "tplCombinationSolve"};
  std::vector<S> n = names;
  c.r.shuffle(n);
  n.resize(c.r.i(1, 6));
  std::vector<Obj> o;
  for (auto &x : n)
    o.push_back({x, c.r.pick(methods), c.r.b(0.85), false, 0});
  return o;
}
static double evidence(vh::Case &c, int regime, double base) {
  switch (regime) {
  case 0:
    return c.r.d(-5, 5);
  case 1:
    return base + c.r.d(-8, 8); // large offset, probabilities of the same order
  case 2:
    return (c.r.b() ? 1 : -1) * c.r.logd(1, 1e306);
  case 3:
    return base + c.r.i(-2, 2); // ties
  case 4:
    return base - c.r.d(650, 800); // near the underflow
  default:
    return c.r.b(0.5) ? -INF : base + c.r.d(-3, 3);
  }
}
VH_CASE(classification, 1500, 25000) {
  auto o = objects(c);
  int regime = c.r.i(0, 5);
  double base = (c.r.b() ? 1 : -1) * c.r.logd(1, 1e7);
  for (auto &x : o) {
    x.solved = x.solver && c.r.b(0.8);
    x.ev = evidence(c, c.r.b(0.1) ? c.r.i(0, 5) : regime, base);
  }
  bool nan = c.r.b(0.04), pinf = !nan && c.r.b(0.03);
  if ((nan || pinf) && o[0].solved)
    o[0].ev = nan ? NAN : INF;
  context(o);
  auto order = o;
  c.r.shuffle(order);
  for (auto &x : order)
    if (x.solved)
      store(x);
  c.sig(regime), c.sig((int)o.size());
  auto out = classify(c.r.b());
  LD mx = -INF;
  int ns = 0;
  bool bad = false;
  for (auto &x : o)
    if (x.solved)
      ++ns, mx = std::max(mx, LD(x.ev)), bad = bad || std::isnan(x.ev) || x.ev == INF;
  S desc;
  for (auto &x : o)
    desc += vh::str(x.name, "=", x.solver ? (x.solved ? vh::fmt("%.17g", x.ev) : S("unsolved")) : S("no-solver"), " ");
  if (bad) { // undefined evidence: a refusal, or at least no undefined probability
    bool ok = out.refused;
    if (!ok) {
      ok = true;
      for (auto &p : out.p)
        ok = ok && p.second >= 0 && p.second <= 1;
    }
    c.check(ok, "undefined-evidence-gives-no-undefined-probability", desc);
    return;
  }
  if (!ns || mx == -INF) {
    c.check(out.refused, "nothing-to-classify-refused", desc);
    return;
  }
  c.nontrivial = ns > 1;
  c.check(!out.refused, "classification-succeeds-when-an-object-is-solved", desc + out.label);
  if (out.refused)
    return;
  LD sum = 0;
  for (auto &x : o)
    if (x.solved)
      sum += std::exp(LD(x.ev) - mx);
  LD tot = 0;
  S firstBest;
  for (auto &x : o) {
    c.check(out.p.count(x.name) && out.e.count(x.name), "every-object-reported", x.name);
    if (!out.p.count(x.name) || !out.e.count(x.name))
      continue;
    double p = out.p[x.name], e = out.e[x.name];
    tot += p;
    c.check(p >= 0 && p <= 1, "probability-in-0-1", vh::fmt("%g ", p) + desc);
    if (x.solved) {
      c.close(p, double(std::exp(LD(x.ev) - mx) / sum), 1e-12, 1e-300, "probability-is-the-normalised-evidence", x.name + " in " + desc);
      c.check(e == x.ev, "evidence-reported", x.name + " in " + desc);
      if (firstBest.empty() && LD(x.ev) == mx)
        firstBest = x.name;
    } else {
      c.check(p == 0, "no-mass-without-result", x.name + " in " + desc);
      c.check(e == -INF, "no-evidence-without-result", x.name + " in " + desc);
    }
  }
  c.check(out.p.size() == o.size() && out.e.size() == o.size(), "only-the-objects-reported", desc);
  c.close(double(tot), 1, 1e-12, 0, "probabilities-sum-to-one", desc);
  bool isBest = false;
  for (auto &x : o)
    isBest = isBest || (x.solved && LD(x.ev) == mx && x.name == out.label);
  c.check(isBest, "label-is-the-highest-evidence", out.label + " in " + desc);
  // shifted evidences give the same probabilities
  if (regime != 2) {
    double sh = c.r.i(-2000, 2000);
    auto o2 = o;
    Context.GetResultStore()->reset();
    bool exact = true;
    for (auto &x : o2)
      if (x.solved) {
        double e = x.ev + sh;
        exact = exact && (x.ev == -INF || std::fabs(x.ev) < 1e9);
        x.ev = e, store(x);
      }
    auto s = classify(false);
    if (exact && !s.refused)
      for (auto &x : o2)
        c.close(s.p[x.name], out.p[x.name], 1e-7, 1e-12, "shift-invariant", vh::fmt("shift %g ", sh) + desc);
    c.check(!s.refused, "classification-succeeds-when-an-object-is-solved", desc);
  }
}
// the results of one spectrum are not used for the next one, nor those of another stage or method
VH_CASE(history, 300, 4000) {
  std::vector<Obj> o;
  for (int turn = 0, n = c.r.i(2, 4); turn < n; ++turn) {
    if (turn == 0 || c.r.b(0.3))
      o = objects(c);
    context(o); // resets the store
    int ns = 0;
    double mx = -INF;
    S best;
    for (auto &x : o) {
      x.solved = x.solver && c.r.b(0.5), x.ev = c.r.d(-30, 30);
      if (x.solved) {
        store(x), ++ns;
        if (x.ev > mx)
          mx = x.ev, best = x.name;
      } else { // result of another method or stage
        auto cand = std::make_shared<TCandidateZ>();
        auto r = std::make_shared<CPdfSolveResult>("CPdfSolveResult", cand, "marg", 1000.);
        S other = x.method == "lineModelSolve" ? "templateFittingSolve" : "lineModelSolve";
        if (c.r.b())
          Context.GetResultStore()->StoreGlobalResult(x.name + ".redshiftSolver." + other, "solveResult", r);
        else
          Context.GetResultStore()->StoreGlobalResult(x.name + ".lineMeasSolver." + x.method, "solveResult", r);
      }
    }
    auto out = classify(true);
    c.check(out.refused == (ns == 0), "refused-only-without-result-in-a-history", vh::str(ns, " ", out.label));
    if (!out.refused) {
      c.check(out.label == best, "label-of-this-spectrum", out.label + " expected " + best);
      for (auto &x : o)
        c.check(x.solved || out.p[x.name] == 0, "no-mass-from-another-stage-method-or-spectrum", x.name);
      auto st = Context.GetResultStore()->GetFlagLogResult("classification", "classification", "classification", "warningFlag");
      c.check(st != nullptr, "flag-stored", "");
    }
    c.nontrivial = ns > 1;
    c.sig(ns);
  }
}
VH_MAIN
