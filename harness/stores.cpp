// C17: scopes, result store, parameter store and candidate data sets against plain maps over random histories.
#include "RedshiftLibrary/linemodel/linemodelextremaresult.h"
#include "RedshiftLibrary/linemodel/linemodelsolution.h"
#include "RedshiftLibrary/method/classificationresult.h"
#include "RedshiftLibrary/method/reliabilityresult.h"
#include "RedshiftLibrary/operator/extremaresult.h"
#include "RedshiftLibrary/operator/flagResult.h"
#include "RedshiftLibrary/operator/logZPdfResult.h"
#include "RedshiftLibrary/operator/modelphotvalueresult.h"
#include "RedshiftLibrary/operator/modelspectrumresult.h"
#include "RedshiftLibrary/operator/tplCombinationExtremaResult.h"
#include "RedshiftLibrary/processflow/autoscope.h"
#include "RedshiftLibrary/processflow/parameterstore.h"
#include "RedshiftLibrary/processflow/resultstore.h"
#include "RedshiftLibrary/spectrum/template/template.h"
#include "vh.h"
using namespace NSEpic;
using S = std::string;
using V = std::vector<double>;
static S ident(vh::Rng &r) {
  static const std::vector<S> names = {"galaxy", "star", "qso", "redshiftSolver", "lineMeasSolver", "lineModelSolve", "templateFittingSolve", "warningFlag", "solveResult", "extrema_results", "pdf", "a", "ab", "b", "", "0", "redshiftSolver2"};
  S s = r.pick(names);
  return s.empty() ? "n" + std::to_string(r.i(0, 30)) : s;
}
// plain model of the scope stack
struct Ref {
  std::vector<std::pair<S, ScopeType>> st;
  bool has(ScopeType t) const {
    return std::any_of(st.begin(), st.end(), [t](auto &p) { return p.second == t; });
  }
  bool allowed(ScopeType t) const {
    switch (t) {
    case ScopeType::SPECTRUMMODEL:
      return !has(ScopeType::STAGE) && !has(t);
    case ScopeType::STAGE:
      return !has(ScopeType::METHOD) && !has(t);
    case ScopeType::METHOD:
      return !st.empty() && st.back().second == ScopeType::STAGE;
    default:
      return true;
    }
  }
  S at(size_t n) const {
    S s;
    for (size_t i = 0; i < n; ++i)
      s += (i ? "." : "") + st[i].first;
    return s;
  }
  S full(const S &name, size_t n) const { return n ? at(n) + "." + name : name; }
};
static void scopeCheck(vh::Case &c, const CScopeStack &s, const CScopeStore &store, const Ref &r) {
  c.check(s.size() == r.st.size() && s.empty() == r.st.empty() && store.getScopeDepth() == r.st.size(), "scope-depth", vh::str(s.size(), " ", r.st.size()));
  c.check(store.GetCurrentScopeName() == r.at(r.st.size()), "scope-name", store.GetCurrentScopeName() + " expected " + r.at(r.st.size()));
  c.check(store.GetScopedName("x") == r.full("x", r.st.size()), "scoped-name", store.GetScopedName("x"));
  for (size_t d = 0; d <= r.st.size(); ++d)
    c.check(store.GetScopedNameAt("x", (int)d) == r.full("x", d), "scoped-name-at-depth", store.GetScopedNameAt("x", (int)d));
  c.check(vh::throwsAmz([&] { store.GetScopedNameAt("x", (int)r.st.size() + 1); }), "too-deep-refused", "");
  for (auto t : {ScopeType::SPECTRUMMODEL, ScopeType::STAGE, ScopeType::METHOD}) {
    c.check(s.has_type(t) == r.has(t), "scope-has-type", vh::str(t));
    for (size_t i = 0; i < r.st.size(); ++i)
      if (r.st[i].second == t) {
        c.check(s.get_type_level(t) == i && s.get_type_value(t) == r.st[i].first, "scope-type-value", s.get_type_value(t));
        c.check(store.GetScopedNameAt("x", t) == r.full("x", i + 1), "scoped-name-at-type", store.GetScopedNameAt("x", t));
      }
  }
  c.check(s.get_current_type() == (r.st.empty() ? ScopeType::UNDEFINED : r.st.back().second), "current-type", "");
  size_t i = 0;
  for (auto &v : s)
    c.check(i < r.st.size() && v == r.st[i].first, "scope-content", v), ++i;
}
struct Boom {};
// nested scopes left by return or by exception at a random depth
static void nest(vh::Case &c, const std::shared_ptr<CScopeStack> &s, const CScopeStore &store, Ref &ref, int depth, bool boom) {
  if (!depth) {
    if (boom)
      throw Boom();
    return;
  }
  ScopeType t = c.r.b(0.5) ? ScopeType::UNDEFINED : (ScopeType)c.r.i(1, 3);
  S n = ident(c.r);
  Ref before = ref;
  bool ok = ref.allowed(t);
  try {
    CAutoScope sc(s, n, t, c.r.b());
    c.check(ok, "scope-order-refused", vh::str(t, " accepted in ", ref.at(ref.st.size())));
    ref.st.push_back({n, t});
    scopeCheck(c, *s, store, ref);
    nest(c, s, store, ref, depth - 1, boom);
  } catch (Boom &) {
    ref = before;
    scopeCheck(c, *s, store, ref);
    c.count("scopes-left-by-exception");
    if (c.r.b())
      throw;
    return;
  } catch (AmzException &) {
    c.check(!ok, "scope-order-accepted", vh::str(t, " refused in ", before.at(before.st.size())));
    ref = before;
    scopeCheck(c, *s, store, ref);
    nest(c, s, store, ref, depth - 1, boom);
    return;
  }
  ref = before;
  scopeCheck(c, *s, store, ref);
}
VH_CASE(scopes, 2000, 60000) {
  auto s = std::make_shared<CScopeStack>();
  COperatorResultStore store(s);
  Ref ref;
  for (int k = c.r.i(1, 4); k--;) {
    bool boom = c.r.b();
    try {
      nest(c, s, store, ref, c.r.i(1, 7), boom);
    } catch (Boom &) {
    }
    ref.st.clear();
    scopeCheck(c, *s, store, ref);
  }
  c.nontrivial = true;
  c.sig(double(c.r.u64() >> 12));
}
VH_CASE(results, 2500, 60000) {
  vh::Rng &r = c.r;
  auto s = std::make_shared<CScopeStack>();
  COperatorResultStore store(s);
  using P = std::shared_ptr<const COperatorResult>;
  std::map<S, P> global;
  std::map<S, std::map<S, P>> tpl;
  Ref ref;
  S log;
  std::vector<std::shared_ptr<const CTemplate>> T;
  for (int i = 0; i < 3; ++i)
    T.push_back(std::make_shared<const CTemplate>("tpl" + std::to_string(i), "galaxy"));
  auto mk = [&]() -> P {
    switch (r.i(0, 3)) {
    case 0:
      return std::make_shared<const CFlagLogResult>(Flag.getBitMask(), Flag.getListMessages());
    case 1:
      return std::make_shared<const CModelSpectrumResult>();
    case 2:
      return std::make_shared<const CLineModelSolution>();
    default:
      return std::make_shared<const ExtremaResult>(TCandidateZbyRank());
    }
  };
  int steps = r.i(5, 80), stored = 0, refused = 0, found = 0, missing = 0;
  std::vector<std::unique_ptr<CAutoScope>> guards;
  for (int k = 0; k < steps; ++k) {
    switch (r.i(0, 11)) {
    case 0:
    case 1: {
      ScopeType t = r.b(0.3) ? ScopeType::UNDEFINED : !ref.has(ScopeType::SPECTRUMMODEL) ? ScopeType::SPECTRUMMODEL : !ref.has(ScopeType::STAGE) ? ScopeType::STAGE : ScopeType::METHOD;
      if (ref.st.size() > 5 || !ref.allowed(t))
        break;
      S n = ident(r);
      guards.push_back(std::make_unique<CAutoScope>(s, n, t, false));
      ref.st.push_back({n, t});
      break;
    }
    case 2:
      if (!guards.empty())
        guards.pop_back(), ref.st.pop_back();
      break;
    case 3:
    case 4:
    case 5: { // store, scoped or by explicit path
      S n = ident(r), key;
      P p = mk();
      int how = r.i(0, 2);
      S path = r.b() ? ident(r) + "." + ident(r) : ident(r);
      key = how == 0 ? ref.full(n, ref.st.size()) : how == 1 ? path + "." + n : n;
      bool dup = global.count(key);
      bool thr = vh::throwsAmz([&] {
        if (how == 0)
          store.StoreScopedGlobalResult(n, p);
        else if (how == 1)
          store.StoreGlobalResult(path, n, p);
        else
          store.StoreGlobalResult(n, p);
      });
      c.check(thr == dup, "no-overwrite", vh::str(key, " refused=", thr, " present=", dup));
      if (!dup)
        global[key] = p, ++stored;
      else
        ++refused;
      break;
    }
    case 6:
    case 7: { // per template
      auto &t = r.pick(T);
      S n = ident(r);
      P p = mk();
      S key = ref.full(n, ref.st.size());
      bool dup = tpl[t->GetName()].count(key);
      bool thr = vh::throwsAmz([&] { store.StoreScopedPerTemplateResult(t, n, p); });
      c.check(thr == dup, "no-overwrite-per-template", vh::str(t->GetName(), " ", key));
      if (!dup)
        tpl[t->GetName()][key] = p, ++stored;
      break;
    }
    case 8: { // explicit lookup, also of neighbouring keys
      S o = r.b(0.8) ? ident(r) : "", st = r.b(0.8) ? ident(r) : "", m = r.b(0.8) ? ident(r) : "", n = ident(r);
      if (!global.empty() && r.b(0.7)) { // split an existing key
        auto it = std::next(global.begin(), r.i(0, (int)global.size() - 1));
        std::vector<S> parts;
        std::stringstream ss(it->first);
        for (S x; std::getline(ss, x, '.');)
          parts.push_back(x);
        if (parts.size() <= 4) {
          n = parts.back(), parts.pop_back();
          o = parts.size() ? parts[0] : "", st = parts.size() > 1 ? parts[1] : "", m = parts.size() > 2 ? parts[2] : "";
          if (r.b(0.2))
            n += r.b() ? "x" : "";
          if (r.b(0.1))
            std::swap(o, st);
        }
      }
      S key;
      for (auto &x : {o, st, m})
        if (!x.empty())
          key += x + ".";
      key += n;
      auto it = global.find(key);
      c.check(store.HasDataset(o, st, m, n) == (it != global.end()), "has-dataset", key);
      c.check(store.hasSolveResult(o, st, m) == (global.count(key.substr(0, key.size() - n.size()) + "solveResult") > 0), "has-solve-result", key);
      if (it == global.end()) {
        ++missing;
        c.check(vh::throwsAmz([&] { store.GetGlobalResultType(o, st, m, n); }) && vh::throwsAmz([&] { store.GetLineModelSolution(o, st, m, n); }) && vh::throwsAmz([&] { store.GetFlagLogResult(o, st, m, n); }) &&
                    !store.HasCandidateDataset(o, st, m, n, "model"),
                "missing-refused", key);
      } else {
        ++found;
        auto p = it->second;
        c.check(store.GetGlobalResultType(o, st, m, n) == p->getType(), "stored-type", key + " " + store.GetGlobalResultType(o, st, m, n));
        c.check(std::shared_ptr<const COperatorResult>(store.GetFlagLogResult(o, st, m, n)) == std::dynamic_pointer_cast<const CFlagLogResult>(p), "typed-lookup", key);
        c.check(std::shared_ptr<const COperatorResult>(store.GetLineModelSolution(o, st, m, n)) == std::dynamic_pointer_cast<const CLineModelSolution>(p), "typed-lookup", key);
        c.check(std::shared_ptr<const COperatorResult>(store.GetModelSpectrumResult(o, st, m, n)) == std::dynamic_pointer_cast<const CModelSpectrumResult>(p), "typed-lookup", key);
        c.check(store.GetClassificationResult(o, st, m, n) == nullptr && store.GetLogZPdfResult(o, st, m, n) == nullptr && store.GetReliabilityResult(o, st, m, n) == nullptr, "typed-lookup", key);
        if (n == "solveResult")
          c.check(store.GetSolveResult(o, st, m).lock() == p, "solve-result", key);
      }
      break;
    }
    case 9: { // scoped lookups
      S n = ident(r), key = ref.full(n, ref.st.size());
      auto it = global.find(key);
      if (it == global.end())
        c.check(vh::throwsAmz([&] { store.GetScopedGlobalResult(n); }), "missing-scoped-refused", key);
      else
        ++found, c.check(store.GetScopedGlobalResult(n).lock() == it->second, "scoped-lookup", key);
      auto &t = r.pick(T);
      auto jt = tpl[t->GetName()].find(key);
      if (jt == tpl[t->GetName()].end())
        c.check(vh::throwsAmz([&] { store.GetScopedPerTemplateResult(t, n); }), "missing-template-refused", key);
      else
        c.check(store.GetScopedPerTemplateResult(t, n).lock() == jt->second, "template-lookup", key);
      std::map<S, P> want;
      for (auto &[tn, m] : tpl)
        if (m.count(key))
          want[tn] = m[key];
      c.check(store.GetScopedPerTemplateResult(n) == want, "per-template-enumeration", key);
      break;
    }
    case 10: {
      c.check(store.hasContextWarningFlag() == (global.count("context_warningFlag") > 0) && store.hasInitWarningFlag() == (global.count("init_warningFlag") > 0), "warning-flags", "");
      if (r.b(0.3)) {
        S n = r.b() ? "context_warningFlag" : "init_warningFlag";
        if (!global.count(n)) {
          auto p = mk();
          store.StoreGlobalResult(n, p), global[n] = p;
        }
      }
      if (ref.has(ScopeType::METHOD)) {
        size_t lev = 0;
        while (ref.st[lev].second != ScopeType::METHOD)
          ++lev;
        c.check(store.hasCurrentMethodWarningFlag() == (global.count(ref.full("warningFlag", lev + 1)) > 0), "method-warning-flag", ref.at(ref.st.size()));
      }
      break;
    }
    case 11:
      if (r.b(0.08))
        store.reset(), global.clear(), tpl.clear(), c.count("resets");
      if (r.b(0.3)) {
        S n = ident(r), key = ref.full(n, ref.st.size());
        if (!global.count(key)) {
          store.StoreScopedFlagResult(n);
          auto p = store.GetScopedGlobalResult(n).lock();
          c.check(p && p->getType() == "CFlagLogResult", "flag-result", key);
          global[key] = p;
        }
      }
      break;
    }
    scopeCheck(c, *s, store, ref);
  }
  while (!guards.empty())
    guards.pop_back();
  // every stored entry is still there, unchanged
  size_t n = 0;
  for (auto &[k, p] : global)
    c.check(store.HasDataset("", "", "", k) && store.GetGlobalResultType("", "", "", k) == p->getType(), "all-entries-kept", k), ++n;
  c.count("entries", n), c.count("found", found), c.count("missing", missing), c.count("refused", refused);
  c.nontrivial = stored > 2;
  c.sig(double(steps)), c.sig(double(r.u64() >> 12));
}
// ---- parameters -----------------------------------------------------------------------------------------------
struct Par {
  int type; // 0 double 1 int 2 bool 3 string 4 list<double> 5 list<string> 6 list<int> 7 list<bool> 8 range
  double d = 0;
  Int64 i = 0;
  bool b = false;
  S s;
  V dl;
  std::vector<S> sl;
  std::vector<Int64> il;
  std::vector<bool> bl;
};
static S word(vh::Rng &r) {
  static const S cs = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 _-/:+*()[]{}'\"\\<>&%$#@!?,;=~";
  S s;
  for (int n = r.i(0, 12); n--;)
    s += cs[r.i(0, (int)cs.size() - 1)];
  return s;
}
static double num(vh::Rng &r) {
  return r.b(0.2) ? r.i(-1000, 1000) : r.b(0.1) ? 0. : (r.b() ? 1 : -1) * r.logd(1e-300, 1e300);
}
static Par par(vh::Rng &r) {
  Par p;
  p.type = r.i(0, 8);
  p.d = num(r), p.i = r.b() ? r.i(-5, 100) : (Int64)r.u64(), p.b = r.b(), p.s = word(r);
  int n = p.type == 8 ? 2 : r.i(0, 6);
  while (n--)
    p.dl.push_back(num(r)), p.sl.push_back(word(r)), p.il.push_back((Int64)r.u64()), p.bl.push_back(r.b());
  if (p.type == 8 && p.dl[0] > p.dl[1])
    std::swap(p.dl[0], p.dl[1]);
  return p;
}
static void put(CParameterStore &st, const S &k, const Par &p) {
  switch (p.type) {
  case 0:
    return st.Set(k, p.d);
  case 1:
    return st.Set(k, p.i);
  case 2:
    return st.Set(k, p.b);
  case 3:
    return st.Set(k, p.s);
  case 4:
    return st.Set(k, p.dl);
  case 5:
    return st.Set(k, p.sl);
  case 6:
    return st.Set(k, p.il);
  case 7: {
    TBoolList l(p.bl.begin(), p.bl.end());
    return st.Set(k, l);
  }
  default:
    return st.Set(k, TFloat64Range(p.dl[0], p.dl[1]));
  }
}
// scoped = 1: through the current scope with the last name only
static bool got(const CParameterStore &st, const S &k, const Par &p, bool scoped) {
  switch (p.type) {
  case 0:
    return (scoped ? st.GetScoped<Float64>(k) : st.Get<Float64>(k)) == p.d;
  case 1:
    return (scoped ? st.GetScoped<Int64>(k) : st.Get<Int64>(k)) == p.i;
  case 2:
    return (scoped ? st.GetScoped<bool>(k) : st.Get<bool>(k)) == p.b;
  case 3:
    return (scoped ? st.GetScoped<S>(k) : st.Get<S>(k)) == p.s;
  case 4:
    return (scoped ? st.GetListScoped<Float64>(k) : st.GetList<Float64>(k)) == p.dl;
  case 5:
    return (scoped ? st.GetListScoped<S>(k) : st.GetList<S>(k)) == p.sl;
  case 6:
    return (scoped ? st.GetListScoped<Int64>(k) : st.GetList<Int64>(k)) == p.il;
  case 7: {
    auto l = scoped ? st.GetListScoped<bool>(k) : st.GetList<bool>(k);
    return std::vector<bool>(l.begin(), l.end()) == p.bl;
  }
  default: {
    auto g = scoped ? st.GetScoped<TFloat64Range>(k) : st.Get<TFloat64Range>(k);
    return g.GetBegin() == p.dl[0] && g.GetEnd() == p.dl[1];
  }
  }
}
VH_CASE(parameters, 2500, 60000) {
  vh::Rng &r = c.r;
  auto s = std::make_shared<CScopeStack>();
  CParameterStore st(s);
  std::map<S, Par> ref; // full path -> value, paths never a prefix of one another
  auto path = [&] {
    S p;
    for (int n = r.i(0, 4); n--;)
      p += ident(r) + ".";
    return p + "p" + std::to_string(r.i(0, 6));
  };
  int n = r.i(1, 60);
  for (int k = 0; k < n; ++k) {
    S p = path();
    Par v = par(r);
    if (ref.count(p) && ref[p].type > 3) // a scalar put over a list keeps the list's children
      continue;
    put(st, p, v), ref[p] = v;
  }
  // through the JSON form and back
  if (r.b()) {
    char f[] = "/tmp/vh_param_XXXXXX";
    int fd = mkstemp(f);
    close(fd);
    st.Save(f);
    std::ifstream in(f);
    std::stringstream ss;
    ss << in.rdbuf();
    unlink(f);
    CParameterStore t(s);
    t.FromString(ss.str());
    for (auto &[k, v] : ref)
      c.check(got(t, k, v, false), "saved-and-reloaded", k);
  }
  for (auto &[k, v] : ref) {
    c.check(got(st, k, v, false), "parameter-value", vh::str(k, " type ", v.type));
    // from the scope of the parameter, and from an unrelated one
    std::vector<S> parts;
    std::stringstream ss(k);
    for (S x; std::getline(ss, x, '.');)
      parts.push_back(x);
    S last = parts.back();
    parts.pop_back();
    std::vector<std::unique_ptr<CAutoScope>> g;
    for (size_t i = 0; i < parts.size(); ++i)
      g.push_back(std::make_unique<CAutoScope>(s, parts[i], i == 0 ? ScopeType::SPECTRUMMODEL : i == 1 ? ScopeType::STAGE : i == 2 ? ScopeType::METHOD : ScopeType::UNDEFINED, false));
    c.check(st.HasScoped<S>(last) && got(st, last, v, true), "scoped-parameter", k);
    for (size_t d = 0; d <= parts.size(); ++d) {
      S key;
      for (size_t i = 0; i < d; ++i)
        key += parts[i] + ".";
      key += last;
      auto it = ref.find(key);
      c.check(st.HasScopedAt<S>(last, (int)d) == (it != ref.end()), "has-at-depth", key);
      if (it == ref.end())
        c.check(vh::throwsAmz([&] { st.GetScopedAt<S>(last, (int)d); }), "missing-parameter-at-depth", key);
      else if (it->second.type == 3) {
        c.check(st.GetScopedAt<S>(last, (int)d) == it->second.s, "parameter-at-depth", key);
        if (d >= 1 && d <= 3)
          c.check(st.GetScopedAt<S>(last, (ScopeType)d) == it->second.s, "parameter-at-type", key);
      }
    }
    g.push_back(std::make_unique<CAutoScope>(s, "elsewhere", ScopeType::UNDEFINED, false));
    c.check(!st.HasScoped<S>(last), "other-scope", k);
    c.check(vh::throwsAmz([&] { st.GetScoped<S>(last); }) && vh::throwsAmz([&] { st.GetScoped<Float64>(last); }) && vh::throwsAmz([&] { st.GetScoped<bool>(last); }), "other-scope-refused", k);
    // lists fall back to the unscoped name
    auto it = ref.find(last);
    if (it == ref.end())
      c.check(vh::throwsAmz([&] { st.GetListScoped<Float64>(last); }), "missing-list-refused", k);
    else if (it->second.type == 4)
      c.check(st.GetListScoped<Float64>(last) == it->second.dl, "list-fallback", k);
    while (!g.empty())
      g.pop_back();
    // mistyped access is an error
    if (v.type == 3 && (v.s.empty() || !isdigit((unsigned char)v.s[0])) && v.s.find_first_of("0123456789") == S::npos)
      c.check(vh::throwsAmz([&] { st.Get<Int64>(k); }), "mistyped-refused", k + " " + v.s);
    if (v.type <= 3)
      c.check(vh::throwsAmz([&] { st.Get<TFloat64Range>(k); }), "not-a-range-refused", k);
  }
  for (int k = 0; k < 10; ++k) {
    S p = path() + (r.b() ? "" : ".q");
    if (!ref.count(p))
      c.check(!st.Has<S>(p) && vh::throwsAmz([&] { st.Get<S>(p); }) && vh::throwsAmz([&] { st.Get<Float64>(p); }) && vh::throwsAmz([&] { st.GetList<Float64>(p); }), "missing-parameter", p);
  }
  c.nontrivial = ref.size() > 1;
  for (auto &[k, v] : ref)
    c.sig(k), c.sig(v.d);
}
// switches derived from the parameters of an object
VH_CASE(switches, 1500, 40000) {
  vh::Rng &r = c.r;
  auto s = std::make_shared<CScopeStack>();
  CParameterStore st(s);
  struct O {
    S name, method, cont;
    int ism[4], igm[4], fft[4], ratio; // per method: -1 absent
    bool ignore;
    double step;
  };
  static const std::vector<S> ms = {"templateFittingSolve", "tplCombinationSolve", "lineModelSolve", "other"};
  std::vector<O> os;
  TStringList cats;
  for (auto *nm : {"galaxy", "star", "qso"}) {
    O o;
    o.name = nm;
    o.method = r.b(0.9) ? ms[r.i(0, 3)] : "";
    o.cont = r.pick(std::vector<S>{"tplFit", "tplFitAuto", "fromSpectrum", "noContinuum", "powerLaw"});
    o.ignore = r.b(), o.ratio = r.i(-1, 1), o.step = r.logd(1e-5, 1e-2);
    S b = o.name + ".redshiftSolver.";
    st.Set(o.name + ".redshiftStep", o.step);
    if (!o.method.empty())
      st.Set(b + "method", o.method);
    for (int m = 0; m < 3; ++m) {
      o.ism[m] = r.i(-1, 1), o.igm[m] = r.i(-1, 1), o.fft[m] = r.i(-1, 1);
      S q = b + ms[m] + (m == 2 ? ".lineModel.continuumFit." : ".");
      if (o.ism[m] >= 0)
        st.Set(q + "ismFit", o.ism[m] == 1);
      if (o.igm[m] >= 0)
        st.Set(q + "igmFit", o.igm[m] == 1);
      if (o.fft[m] >= 0)
        st.Set(q + "fftProcessing", o.fft[m] == 1);
    }
    S l = b + "lineModelSolve.lineModel.";
    if (o.ratio >= 0)
      st.Set(l + "tplRatioIsmFit", o.ratio == 1);
    st.Set(l + "continuumComponent", o.cont);
    st.Set(l + "continuumFit.ignoreLineSupport", o.ignore);
    os.push_back(o), cats.push_back(o.name);
    c.sig(o.method), c.sig(o.step);
  }
  bool any = false;
  double step = DBL_MAX;
  for (auto &o : os) {
    int m = o.method.empty() ? 3 : int(std::find(ms.begin(), ms.end(), o.method) - ms.begin());
    bool ism = m < 3 && o.ism[m] == 1, igm = m < 3 && o.igm[m] == 1, fft = (m == 0 || m == 2) && o.fft[m] == 1;
    if (m == 2 && o.ratio == 1)
      ism = true;
    bool orth = m == 2 && (o.cont == "tplFit" || o.cont == "tplFitAuto");
    c.check(st.HasTplIsmExtinction(o.name) == ism, "ism-switch", o.method);
    c.check(st.HasTplIgmExtinction(o.name) == igm, "igm-switch", o.method);
    c.check(st.HasFFTProcessing(o.name) == fft, "fft-switch", o.method);
    c.check(st.HasToOrthogonalizeTemplates(o.name) == orth, "orthogonalization-switch", o.method + " " + o.cont);
    c.check(st.EnableTemplateOrthogonalization(o.name) == (orth && !o.ignore), "orthogonalization-enabled", o.method + " " + o.cont);
    any |= fft;
    if (fft)
      step = std::min(step, o.step);
  }
  std::map<S, bool> f;
  c.check(st.hasToLogRebin(cats, f) == any, "log-rebin-switch", "");
  c.check(st.getMinZStepForFFTProcessing(f) == step, "log-rebin-step", "");
  c.nontrivial = true;
}
// ---- candidates ------------------------------------------------------------------------------------------------
VH_CASE(candidates, 1500, 40000) {
  vh::Rng &r = c.r;
  auto s = std::make_shared<CScopeStack>();
  COperatorResultStore store(s);
  int n = r.i(1, 8), kind = r.i(0, 3);
  TCandidateZbyRank z;
  for (int i = 0; i < n; ++i) {
    auto t = std::make_shared<TCandidateZ>();
    t->Redshift = r.d(0, 6), t->ValSumProba = r.d();
    z.push_back({"EXT" + std::to_string(r.i(0, 99)), t});
    c.sig(t->Redshift);
  }
  std::vector<std::shared_ptr<const COperatorResult>> model, cont, phot, lines, par, parent(n);
  auto spec = [] { return std::make_shared<CModelSpectrumResult>(); };
  std::shared_ptr<const COperatorResult> res;
  auto unk = [&](auto &e) {
    c.check(!e.HasCandidateDataset("nothing"), "unknown-dataset", "");
    c.check(vh::throwsAmz([&] { e.getCandidate(0, "nothing"); }) && vh::throwsAmz([&] { e.getCandidateDatasetType("nothing"); }), "unknown-dataset-refused", "");
  };
  S type;
  if (kind == 0) {
    auto e = std::make_shared<ExtremaResult>(z);
    for (int i = 0; i < n; ++i) {
      auto m = spec();
      auto p = std::make_shared<CModelPhotValueResult>(std::map<std::string, Float64>());
      e->m_savedModelSpectrumResults[i] = m, e->m_modelPhotValues[i] = p;
      model.push_back(m), phot.push_back(p), par.push_back(e->m_ranked_candidates[i].second);
    }
    unk(*e), res = e, type = "ExtremaResult";
  } else if (kind == 1) {
    auto e = std::make_shared<LineModelExtremaResult>(z);
    for (int i = 0; i < n; ++i) {
      auto m = spec(), k = spec();
      auto p = std::make_shared<CModelPhotValueResult>(std::map<std::string, Float64>());
      auto l = std::make_shared<CLineModelSolution>();
      e->m_savedModelSpectrumResults[i] = m, e->m_savedModelContinuumSpectrumResults[i] = k, e->m_modelPhotValues[i] = p, e->m_savedModelFittingResults[i] = l;
      if (r.b())
        e->m_ranked_candidates[i].second->ParentObject = std::make_shared<TLineModelResult>(TCandidateZ());
      parent[i] = e->m_ranked_candidates[i].second->ParentObject;
      model.push_back(m), cont.push_back(k), phot.push_back(p), lines.push_back(l), par.push_back(e->m_ranked_candidates[i].second);
    }
    unk(*e), res = e, type = "LineModelExtremaResult";
  } else if (kind == 2) {
    auto e = std::make_shared<TplCombinationExtremaResult>(z);
    for (int i = 0; i < n; ++i) {
      auto m = spec();
      e->m_savedModelSpectrumResults[i] = m;
      model.push_back(m), par.push_back(e->m_ranked_candidates[i].second);
    }
    unk(*e), res = e, type = "TplCombinationExtremaResult";
  } else {
    auto e = std::make_shared<PdfCandidatesZResult>();
    e->m_ranked_candidates = z;
    res = e, type = "PdfCandidatesZResult";
    TStringList ids;
    for (auto &x : z)
      ids.push_back(x.first);
    c.check(e->GetIDs() == ids, "candidate-ids", "");
  }
  S o = ident(r), st = ident(r), m = ident(r);
  store.StoreGlobalResult(o + "." + st + "." + m, "extrema_results", res);
  c.check(store.getNbRedshiftCandidates(o, st, m) == n, "candidate-count", type);
  c.check(store.GetGlobalResultType(o, st, m, "extrema_results") == type, "candidate-type", store.GetGlobalResultType(o, st, m, "extrema_results"));
  if (kind == 3) {
    c.check(vh::throwsAmz([&] { res->getCandidate(0, "model"); }), "unknown-dataset-refused", "");
    return;
  }
  auto one = [&](const S &ds, auto &v) {
    bool want = !v.empty();
    c.check(store.HasCandidateDataset(o, st, m, "extrema_results", ds) == want, "has-candidate-dataset", type + " " + ds);
    if (!want)
      return;
    c.check(store.GetCandidateResultType(o, st, m, "extrema_results", ds) == v[0]->getType(), "candidate-dataset-type", type + " " + ds);
    for (int i = 0; i < n; ++i)
      c.check(res->getCandidate(i, ds) == v[i], "candidate-dataset", vh::str(type, " ", ds, " ", i));
  };
  one("model_parameters", par), one("model", model), one("continuum", cont), one("PhotometricModel", phot), one("fitted_lines", lines);
  for (int i = 0; i < n; ++i) {
    auto want = std::dynamic_pointer_cast<const TCandidateZ>(par[i]);
    c.check(want && want->Redshift == z[i].second->Redshift && want->ValSumProba == z[i].second->ValSumProba, "candidate-content", vh::str(i));
    c.check(std::shared_ptr<const COperatorResult>(store.GetModelSpectrumResult(o, st, m, "extrema_results", "model", i)) == model[i], "typed-candidate", type);
    if (kind == 0)
      c.check(std::shared_ptr<const COperatorResult>(store.GetExtremaResult(o, st, m, "extrema_results", "model_parameters", i)) == par[i], "typed-candidate", type);
    if (kind == 1) {
      c.check(std::shared_ptr<const COperatorResult>(store.GetLineModelResult(o, st, m, "extrema_results", "model_parameters", i)) == par[i], "typed-candidate", type);
      c.check(std::shared_ptr<const COperatorResult>(store.GetLineModelResult(o, st, m, "extrema_results", "model_parameters", i, true)) == parent[i], "first-pass-candidate", type);
      c.check(std::shared_ptr<const COperatorResult>(store.GetLineModelSolution(o, st, m, "extrema_results", "fitted_lines", i)) == lines[i], "typed-candidate", type);
      c.check(vh::throwsAmz([&] { store.GetLineModelResult(o, st, m, "extrema_results", "fitted_lines", i); }), "mistyped-candidate-refused", "");
    }
    if (kind == 2)
      c.check(std::shared_ptr<const COperatorResult>(store.GetTplCombinationResult(o, st, m, "extrema_results", "model_parameters", i)) == par[i], "typed-candidate", type);
  }
  c.nontrivial = n > 1;
}
VH_MAIN
