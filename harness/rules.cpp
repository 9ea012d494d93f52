// C16: amplitude rules. The real regulament is run on random elements; every amplitude and error afterwards is
// compared with a plain model of the rules and with the invariants of each rule.
#include "RedshiftLibrary/line/lineprofileSYM.h"
#include "RedshiftLibrary/line/regulament.h"
#include "RedshiftLibrary/line/ruleSuperStrongHighest.h"
#include "RedshiftLibrary/linemodel/element.h"
#include "RedshiftLibrary/linemodel/elementlist.h"
#include "gen.h"
using namespace NSEpic;
using V = std::vector<double>;
struct Ln {
  std::string name;
  double nom;
  bool strong, out;
  double a, s;
};
struct El {
  bool em;
  std::vector<Ln> l;
  bool out() const {
    return std::all_of(l.begin(), l.end(), [](const Ln &x) { return x.out; });
  }
};
using W = std::vector<El>;
static std::shared_ptr<CLMEltListVector> build(const W &w) {
  CLineModelElementList list;
  int id = 0;
  for (auto &e : w) {
    CLineVector lines;
    for (auto &x : e.l) {
      lines.push_back(CLine(x.name, 4000. + id, e.em ? CLine::EType::nType_Emission : CLine::EType::nType_Absorption, std::unique_ptr<CLineProfileSYM>(new CLineProfileSYM()),
                            x.strong ? CLine::EForce::nForce_Strong : CLine::EForce::nForce_Weak, 0., false, undefStr, x.nom, "v", id, std::to_string(id)));
      ++id;
    }
    auto p = std::make_shared<TLineModelElementParam>(lines, 100., 100., "instrumentDriven");
    auto m = std::make_shared<CLineModelElement>(p);
    m->m_OutsideLambdaRangeList.clear();
    for (size_t i = 0; i < e.l.size(); ++i) {
      p->m_FittedAmplitudes[i] = e.l[i].a;
      p->m_FittedAmplitudesStd[i] = e.l[i].s;
      m->m_OutsideLambdaRangeList.push_back(e.l[i].out);
    }
    m->computeOutsideLambdaRange();
    list.push_back(m);
  }
  auto v = std::make_shared<CLMEltListVector>(list, CLineMap());
  v->m_globalOutsideLambdaRange.clear();
  v->m_globalOutsideLambdaRangeList.clear();
  for (auto &e : w) {
    std::vector<bool> o;
    for (auto &x : e.l)
      o.push_back(x.out);
    v->m_globalOutsideLambdaRangeList.push_back(o);
    v->m_globalOutsideLambdaRange.push_back(e.out());
  }
  return v;
}
static W state(const W &w, CLMEltListVector &v) {
  W o = w;
  for (size_t e = 0; e < w.size(); ++e)
    for (size_t i = 0; i < w[e].l.size(); ++i) {
      o[e].l[i].a = v.getElementParam()[e]->GetFittedAmplitude(i);
      o[e].l[i].s = v.getElementParam()[e]->GetFittedAmplitudeStd(i);
    }
  return o;
}
static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
static bool near(double a, double b) { return (std::isnan(a) && std::isnan(b)) || std::abs(a - b) <= 1e-12 * std::max(std::abs(a), std::abs(b)) || std::abs(a - b) < 1e-300; }
static std::string show(const W &w) {
  std::string s;
  for (auto &e : w) {
    s += e.em ? "{" : "{abs ";
    for (auto &x : e.l)
      s += vh::str(x.name, x.strong ? "* " : " ", x.out ? "(out) " : "", x.a, "+-", x.s, " n", x.nom, "; ");
    s += "}";
  }
  return s;
}
// ---- reference ------------------------------------------------------------------------------------------------
static void limit(El &e, int i, double m) {
  if (!(e.l[i].a > m))
    return;
  double want = m > 0 ? m : 0;
  if (e.l[i].nom == 0)
    return;
  double f = want / e.l[i].nom;
  for (auto &x : e.l)
    if (!std::isnan(x.a))
      x.a = x.nom * f;
}
static std::pair<int, int> find(const W &w, const char *n, bool em = true) {
  for (size_t e = 0; e < w.size(); ++e)
    if (w[e].em == em)
      for (size_t i = 0; i < w[e].l.size(); ++i)
        if (w[e].l[i].name.find(n) != std::string::npos)
          return {(int)e, (int)i};
  return {-1, -1};
}
struct Two {
  const char *a, *b;
  double k;
};
static const Two twos[] = {{"Halpha", "Hbeta", 1.1 / 2.86}, {"Hbeta", "Hgamma", 0.47 * 1.1}, {"Hgamma", "Hdelta", 1.1}, {"Hdelta", "H8", 1.1}, {"H8", "H9", 1.1}, {"H9", "H10", 1.1}, {"H10", "H11", 1.1}};
static const Two ratios[] = {{"[OII]3726", "[OII]3729", 2.5}, {"[CIII]1907", "[CIII]1909", 2.0}};
static bool twoScope(const W &w, const Two &t, std::pair<int, int> &A, std::pair<int, int> &B) {
  A = find(w, t.a), B = find(w, t.b);
  return A.first >= 0 && B.first >= 0 && A.first != B.first && w[A.first].l.size() == 1 && w[B.first].l.size() == 1 && !w[A.first].out();
}
static void two(W &w, const Two &t) {
  std::pair<int, int> A, B;
  if (twoScope(w, t, A, B)) {
    double a = w[A.first].l[0].a, b = w[B.first].l[0].a;
    if (a > 0 || b > 0)
      limit(w[B.first], 0, t.k * a);
  }
}
static bool ratioScope(const W &w, const Two &t, std::pair<int, int> &A, std::pair<int, int> &B) {
  A = find(w, t.a), B = find(w, t.b);
  if (A.first < 0 || B.first < 0 || A.first == B.first)
    return false;
  auto &x = w[A.first].l[A.second], &y = w[B.first].l[B.second];
  return !std::isnan(x.a) && !std::isnan(y.a) && x.nom != 0 && y.nom != 0;
}
static void ratio(W &w, const Two &t) {
  std::pair<int, int> A, B;
  if (!ratioScope(w, t, A, B))
    return;
  Ln *x = &w[A.first].l[A.second], *y = &w[B.first].l[B.second];
  if (std::abs(x->a) < std::abs(y->a))
    std::swap(A, B), std::swap(x, y);
  if (!(std::abs(x->a) > t.k * std::abs(y->a)))
    return;
  // weighted mean of the two measurements of the strong line: x and k*y
  double wx = x->s ? 1 / (x->s * x->s) : 0, wy = y->s ? 1 / std::pow(t.k * y->s, 2) : 0;
  double m = (wx * x->a + wy * t.k * y->a) / (wx + wy);
  auto put = [&](El &e, const Ln l, double v) {
    for (auto &o : e.l)
      if (o.out)
        o.a = o.s = NAN;
      else {
        o.a = v / l.nom * o.nom, o.s = l.s / l.nom * o.nom;
        if (!e.em && o.a > 1)
          o.a = 1;
      }
  };
  Ln lx = *x, ly = *y;
  put(w[A.first], lx, m), put(w[B.first], ly, m / t.k);
}
// lowest strong line of the type, or {-1,-1}
static std::pair<int, int> lowest(const W &w, bool em) {
  std::pair<int, int> b{-1, -1};
  for (size_t e = 0; e < w.size(); ++e)
    if (w[e].em == em)
      for (size_t i = 0; i < w[e].l.size(); ++i) {
        auto &x = w[e].l[i];
        if (x.strong && !x.out && !std::isnan(x.a) && (b.first < 0 || x.a < w[b.first].l[b.second].a))
          b = {(int)e, (int)i};
      }
  return b;
}
static bool weak(W &w, bool em) {
  auto b = lowest(w, em);
  if (b.first < 0)
    return true;
  double m = w[b.first].l[b.second].a + w[b.first].l[b.second].s;
  if (std::isnan(m))
    return false;
  for (auto &e : w)
    if (e.em == em)
      for (size_t i = 0; i < e.l.size(); ++i)
        if (!e.l[i].strong && !e.l[i].out)
          limit(e, i, m);
  return true;
}
static bool reference(W &w, bool bal, bool rat, bool sw) {
  if (bal)
    for (auto &t : twos)
      two(w, t);
  if (rat)
    ratio(w, ratios[0]);
  if (sw && !(weak(w, true) && weak(w, false)))
    return false;
  if (rat)
    ratio(w, ratios[1]);
  return true;
}
// ---- generator ------------------------------------------------------------------------------------------------
static W world(vh::Rng &r) {
  struct N {
    const char *n;
    bool em;
  };
  std::vector<N> pool = {{"Halpha", 1}, {"Hbeta", 1}, {"Hgamma", 1}, {"Hdelta", 1}, {"H8", 1}, {"H9", 1}, {"H10", 1}, {"H11", 1}, {"[OII]3726", 1}, {"[OII]3729", 1}, {"[CIII]1907", 1}, {"[CIII]1909", 1}, {"[OIII](doublet-1/3)", 1}, {"[OIII](doublet-1)", 1}, {"[NII](doublet-1)", 1}, {"[NII](doublet-1/2.95)", 1}, {"[NeIII]", 1}, {"[SII]6716", 1}, {"HalphaA", 0}, {"HbetaA", 0}, {"HgammaA", 0}, {"HdeltaA", 0}, {"H8A", 0}, {"CaII_H", 0}, {"CaII_K", 0}, {"MgII", 0}};
  r.shuffle(pool);
  pool.resize(r.i(2, (int)pool.size()));
  bool outs = r.b(0.5), neg = r.b(0.2), grp = r.b(0.6), big = r.b(0.3);
  double unit = r.logd(1e-20, 1);
  W w;
  for (size_t i = 0; i < pool.size();) {
    El e;
    e.em = pool[i].em;
    int n = grp && r.b(0.4) ? r.i(2, 4) : 1;
    bool pureForce = r.b(0.8), force = r.b();
    while (n-- && i < pool.size() && pool[i].em == e.em) {
      Ln x;
      x.name = pool[i++].n;
      x.nom = r.b(0.5) ? 1. : r.b(0.05) ? 0. : r.logd(0.05, 5);
      x.strong = pureForce ? force : r.b();
      x.out = outs && r.b(0.25);
      e.l.push_back(x);
    }
    double A = big ? r.d(0.8, 1.25) : r.logd(0.01, 100), er = A * r.logd(1e-3, 2);
    if (r.b(0.07))
      A = 0;
    if (neg && r.b(0.3))
      A = -A;
    bool nanA = r.b(0.03), nanS = r.b(0.01), zeroS = r.b(0.03);
    for (auto &x : e.l) {
      double u = e.em ? unit : 0.1;
      x.a = x.out || nanA ? NAN : A * x.nom * u;
      x.s = x.out || nanA || nanS ? NAN : zeroS ? 0 : er * x.nom * u;
    }
    w.push_back(e);
  }
  return w;
}
static double bound(double x) { return x + 1e-12 * std::abs(x); }
// invariants of one enabled rule between the states before and after it was applied
static void invariants(vh::Case &c, const W &a, const W &b, bool bal, bool rat, bool sw) {
  std::pair<int, int> A, B;
  std::vector<char> touched(a.size(), 0);
  if (bal)
    for (auto &t : twos)
      if (twoScope(b, t, A, B)) {
        double x = b[A.first].l[0].a, y = b[B.first].l[0].a;
        if (!std::isnan(x) && !std::isnan(y))
          c.check(y <= bound(std::max(0., t.k * x)) || y <= 0, "balmer-ordering", vh::str(t.a, " ", x, " ", t.b, " ", y));
        touched[B.first] = 1;
      }
  if (rat)
    for (auto &t : ratios)
      if (ratioScope(a, t, A, B)) {
        Ln x = b[A.first].l[A.second], y = b[B.first].l[B.second];
        if (a[A.first].l[A.second].s > 0 || a[B.first].l[B.second].s > 0)
          c.check(std::abs(x.a) <= bound(t.k * std::abs(y.a)) * (1 + 1e-12) && std::abs(y.a) <= bound(t.k * std::abs(x.a)) * (1 + 1e-12), "ratio-in-range", vh::str(t.a, " ", x.a, " ", t.b, " ", y.a, " was ", a[A.first].l[A.second].a, " ", a[B.first].l[B.second].a));
        double xa = a[A.first].l[A.second].a, ya = a[B.first].l[B.second].a;
        if (std::abs(xa) > t.k * std::abs(ya) || std::abs(ya) > t.k * std::abs(xa))
          touched[A.first] = touched[B.first] = 1;
        c.check(near(a[A.first].l[A.second].s, x.s) && near(a[B.first].l[B.second].s, y.s), "ratio-errors-kept", vh::str(t.a));
      }
  if (sw)
    for (bool em : {true, false}) {
      auto s = lowest(a, em);
      if (s.first < 0)
        continue;
      double m = a[s.first].l[s.second].a + a[s.first].l[s.second].s;
      for (size_t e = 0; e < a.size(); ++e)
        if (a[e].em == em)
          for (size_t i = 0; i < a[e].l.size(); ++i)
            if (!a[e].l[i].strong && !a[e].l[i].out) {
              c.check(std::isnan(b[e].l[i].a) || b[e].l[i].a <= bound(std::max(0., m)), "weak-below-strong", vh::str(a[e].l[i].name, " ", b[e].l[i].a, " limit ", m));
              touched[e] = 1;
            }
    }
  for (size_t e = 0; e < a.size(); ++e)
    for (size_t i = 0; i < a[e].l.size(); ++i) {
      auto &x = a[e].l[i], &y = b[e].l[i];
      if (!touched[e])
        c.check(same(x.a, y.a) && same(x.s, y.s), "out-of-scope-unchanged", vh::str(x.name, " ", x.a, "->", y.a, " error ", x.s, "->", y.s));
      if (x.out)
        c.check(std::isnan(y.a) && std::isnan(y.s), "line-out-of-range-unchanged", vh::str(x.name, " ", y.a));
      if (!rat) {
        c.check(same(x.s, y.s), "inequality-errors-kept", vh::str(x.name, " ", x.s, "->", y.s));
        c.check(std::isnan(x.a) || std::isnan(y.a) ? same(x.a, y.a) : y.a <= bound(x.a) || (y.a == 0 && x.a < 0), "inequality-never-increases", vh::str(x.name, " ", x.a, "->", y.a));
      }
    }
  // lines of one element keep their nominal ratios
  for (size_t e = 0; e < b.size(); ++e) {
    double ref = NAN;
    for (auto &x : b[e].l)
      if (!std::isnan(x.a) && x.nom) {
        if (std::isnan(ref))
          ref = x.a / x.nom;
        else if (b[e].em)
          c.check(std::abs(x.a / x.nom - ref) <= 1e-12 * std::abs(ref), "nominal-ratios", vh::str(x.name, " ", x.a / x.nom, " ", ref));
      }
  }
}
// the two ratio rules act on disjoint elements
static bool ratiosApart(const W &w) {
  for (auto &e : w) {
    int k = 0;
    for (auto &t : ratios) {
      bool has = false;
      for (auto &x : e.l)
        has |= x.name == t.a || x.name == t.b;
      k += has;
    }
    if (k > 1)
      return false;
  }
  return true;
}
static bool mixed(const W &w) {
  for (auto &e : w) {
    bool s = false, k = false;
    for (auto &x : e.l)
      (x.strong ? s : k) = true;
    if (s && k)
      return true;
  }
  return false;
}
static bool zeroErr(const W &w) {
  for (auto &e : w)
    for (auto &x : e.l)
      if (x.s == 0)
        return true;
  return false;
}
static bool nanErr(const W &w) {
  for (auto &e : w)
    for (auto &x : e.l)
      if (!std::isnan(x.a) && std::isnan(x.s))
        return true;
  return false;
}
static void run(vh::Case &c, const W &w, const std::string &opt, bool bal, bool rat, bool sw, const char *suite) {
  auto v = build(w);
  CRegulament g;
  g.CreateRulesFromJSONFiles();
  g.EnableRulesAccordingToParameters(opt);
  bool logs = c.r.b();
  g.EnableLogs(logs);
  c.note(vh::str("option ", opt, " ", show(w)));
  W ref = w;
  bool ok = reference(ref, bal, rat, sw);
  if (rat && (zeroErr(w) || nanErr(w))) // both errors null: no weighted mean
    for (auto &t : ratios) {
      std::pair<int, int> A, B;
      if (ratioScope(w, t, A, B) && ((w[A.first].l[A.second].s == 0 && w[B.first].l[B.second].s == 0) || std::isnan(w[A.first].l[A.second].s + w[B.first].l[B.second].s)))
        c.skip();
    }
  bool threw = vh::throwsAmz([&] { g.Apply(*v); });
  c.check(threw == !ok, "undefined-strong-error-refused", vh::str("threw ", threw, " expected ", !ok));
  if (threw || !ok)
    return;
  W b = state(w, *v);
  bool changed = false;
  for (size_t e = 0; e < w.size(); ++e)
    for (size_t i = 0; i < w[e].l.size(); ++i) {
      c.check(near(b[e].l[i].a, ref[e].l[i].a), "amplitude", vh::str(w[e].l[i].name, " before ", w[e].l[i].a, " after ", b[e].l[i].a, " expected ", ref[e].l[i].a));
      c.check(near(b[e].l[i].s, ref[e].l[i].s), "error", vh::str(w[e].l[i].name, " before ", w[e].l[i].s, " after ", b[e].l[i].s, " expected ", ref[e].l[i].s));
      changed |= !same(b[e].l[i].a, w[e].l[i].a);
    }
  if (changed)
    c.nontrivial = true, c.count("changed");
  if (!logs)
    c.check(g.GetLogs().empty(), "no-log-when-disabled", "");
  else if (changed)
    c.check(!g.GetLogs().empty(), "corrections-logged", "");
  if (bal + rat + sw == 1 && !(rat && !ratiosApart(w))) {
    invariants(c, w, b, bal, rat, sw);
    if (!(sw && mixed(w)) && !(rat && zeroErr(w))) {
      g.Apply(*v);
      W d = state(w, *v);
      for (size_t e = 0; e < w.size(); ++e)
        for (size_t i = 0; i < w[e].l.size(); ++i)
          c.check(near(d[e].l[i].a, b[e].l[i].a) && near(d[e].l[i].s, b[e].l[i].s), (std::string("idempotent-") + suite).c_str(), vh::str(w[e].l[i].name, " ", b[e].l[i].a, "->", d[e].l[i].a));
    }
  }
  c.sigv(V{(double)w.size(), w[0].l[0].a, b[0].l[0].a, w.back().l.back().a, b.back().l.back().a});
}
VH_CASE(balmer, 3000, 150000) { run(c, world(c.r), "balmersingle", true, false, false, "balmer"); }
VH_CASE(ratio, 3000, 150000) { run(c, world(c.r), "ratioRange", false, true, false, "ratio"); }
VH_CASE(strongweak, 3000, 150000) { run(c, world(c.r), "strongWeak", false, false, true, "strongweak"); }
VH_CASE(all, 3000, 150000) { run(c, world(c.r), "all", true, true, true, "all"); }
VH_CASE(subset, 3000, 150000) {
  bool b = c.r.b(), t = c.r.b(), s = c.r.b();
  std::string o;
  for (auto [on, n] : {std::pair<bool, const char *>{b, "balmersingle"}, {t, "ratioRange"}, {s, "strongWeak"}})
    if (on)
      o += (o.empty() ? "" : " ") + std::string(n);
  if (o.empty())
    o = "none-of-them";
  run(c, world(c.r), o, b, t, s, "subset");
}
// the super-strong rule is not in the regulament but is applied the same way
VH_CASE(superstrong, 1500, 60000) {
  W w = world(c.r);
  auto v = build(w);
  CRuleSuperStrong rule;
  const char *tags[] = {"[OII]3726", "[OII]3729", "Halpha"};
  bool en = c.r.b(0.9);
  rule.SetUp(en, CLine::EType::nType_Emission, tags[0], tags[1], tags[2], 1.1);
  c.note(show(w));
  auto isS = [&](const Ln &x) { return x.name == tags[0] || x.name == tags[1] || x.name == tags[2]; };
  double best = -1, er = NAN;
  for (auto &e : w)
    if (e.em)
      for (auto &x : e.l)
        if (x.strong && !x.out && isS(x) && x.a > best)
          best = x.a, er = x.s;
  W ref = w;
  if (best != -1 && en) {
    if (std::isnan(er))
      c.skip();
    for (auto &e : ref)
      if (e.em)
        for (size_t i = 0; i < e.l.size(); ++i)
          if (!e.l[i].out && !isS(e.l[i]))
            limit(e, i, best + er);
  }
  rule.Apply(*v);
  W b = state(w, *v);
  for (size_t e = 0; e < w.size(); ++e)
    for (size_t i = 0; i < w[e].l.size(); ++i) {
      c.check(near(b[e].l[i].a, ref[e].l[i].a), "super-strong-amplitude", vh::str(w[e].l[i].name, " before ", w[e].l[i].a, " after ", b[e].l[i].a, " expected ", ref[e].l[i].a));
      c.check(same(b[e].l[i].s, w[e].l[i].s), "super-strong-error", "");
      if (!same(b[e].l[i].a, w[e].l[i].a))
        c.nontrivial = true;
    }
  c.sigv(V{best, er, (double)w.size(), w[0].l[0].a});
}
VH_MAIN
