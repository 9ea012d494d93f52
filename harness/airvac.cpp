// C13: air-vacuum relations against their published formulas, and inversion.
#include "gen.h"
#include "RedshiftLibrary/common/flag.h"
#include "RedshiftLibrary/line/airvacuum.h"
using namespace NSEpic;
using V = std::vector<double>;
using LD = long double;
struct Rel {
  const char *name;
  LD (*n)(LD s); // refractivity of s = 1/lambda^2 in 1/micron^2
  double lo, hi, back; // domain, tolerance of the round trip in Angstrom
};
static const Rel rels[] = {
    {"edlen1953", [](LD s) { return 6.4328e-5L + 2.94981e-2L / (146 - s) + 2.5540e-4L / (41 - s); }, 2000, 1e7, 2e-9},
    {"edlen1966", [](LD s) { return 1e-8L * (8342.13L + 2406030.L / (130 - s) + 15997.L / (38.9L - s)); }, 2000, 1e7, 2e-9},
    {"PeckReeder1972", [](LD s) { return 1e-8L * (5791817.L / (238.0185L - s) + 167909.L / (57.362L - s)); }, 3000, 19000, 2e-9},
    {"ciddor1996", [](LD s) { return 1e-8L * (5792105.L / (238.0185L - s) + 167917.L / (57.362L - s)); }, 3000, 19000, 2e-9},
    {"morton2000", [](LD s) { return 8.34254e-5L + 2.406147e-2L / (130 - s) + 1.5998e-4L / (38.9L - s); }, 3000, 19000, 2e-5},
};
VH_CASE(convert, 4000, 200000) {
  vh::Rng &r = c.r;
  const Rel &R = rels[r.i(0, 4)];
  auto cv = CAirVacuumConverter::Get(R.name);
  int n = r.b(0.2) ? 1 : r.i(1, 60);
  double hi = R.hi > 1e5 ? (r.b() ? 2e4 : 1e6) : R.hi;
  V l;
  for (int i = 0; i < n; ++i)
    l.push_back(r.b(0.1) ? R.lo : r.b(0.1) && R.hi < 1e5 ? R.hi : r.b(0.2) ? std::min(R.hi, R.lo + r.d(0, 5)) : r.b(0.2) ? std::max(R.lo, hi - r.d(0, 10)) : r.d(R.lo, hi));
  if (r.b())
    std::sort(l.begin(), l.end());
  else if (r.b())
    std::sort(l.rbegin(), l.rend());
  c.note(std::string(R.name) + " " + vh::vec(l));
  c.sigv(l), c.sig(R.lo), c.nontrivial = true;
  auto idx = [&](double x) { return 1 + R.n(1e8L / (LD(x) * x)); };
  V nn = cv->AirRefractiveIndex(l), air = cv->VacToAir(l);
  c.eq(nn.size(), l.size(), "size", "refractive indices");
  c.eq(air.size(), l.size(), "size", "air wavelengths");
  for (int i = 0; i < n; ++i) {
    c.close(nn[i], double(idx(l[i])), 1e-15, 0, "refractive-index", vh::fmt("%s at %.17g", R.name, l[i]));
    c.close(air[i], double(l[i] / idx(l[i])), 1e-15, 0, "vacuum-to-air", vh::fmt("%s at %.17g", R.name, l[i]));
    c.check(air[i] < l[i], "air-shorter", vh::fmt("%s at %.17g", R.name, l[i]));
  }
  // l taken as air wavelengths: the result converts back to them
  V vac = cv->AirToVac(l);
  c.eq(vac.size(), l.size(), "size", "vacuum wavelengths");
  for (int i = 0; i < n; ++i) {
    LD v = l[i];
    for (int k = 0; k < 60; ++k)
      v = l[i] * idx(double(v)); // fixed point
    c.close(vac[i], double(v), 4e-16, R.back * std::max(1., l[i] / 1e4), "air-to-vacuum", vh::fmt("%s at %.17g", R.name, l[i]));
    c.close(double(vac[i] / idx(vac[i])), l[i], 4e-16, R.back * std::max(1., l[i] / 1e4), "round-trip", vh::fmt("%s air %.17g", R.name, l[i]));
  }
  c.check(Flag.getListMessages().empty() || hi > 1e5, "converged", "iteration limit reached");
  Flag.resetFlag();
  // one by one gives the same values
  int k = r.i(0, n - 1);
  c.close(cv->AirToVac(V{l[k]})[0], vac[k], 4e-16, R.back * std::max(1., l[k] / 1e4), "independent-samples", vh::fmt("%s at %.17g alone", R.name, l[k]));
  c.eq(cv->VacToAir(V{l[k]})[0], air[k], "independent-samples", vh::fmt("%s at %.17g alone", R.name, l[k]));
}
VH_CASE(domain, 1000, 20000) {
  vh::Rng &r = c.r;
  const Rel &R = rels[r.i(0, 4)];
  auto cv = CAirVacuumConverter::Get(R.name);
  int n = r.i(0, 20);
  V l;
  for (int i = 0; i < n; ++i)
    l.push_back(r.d(R.lo, std::min(R.hi, 30000.)));
  bool low = r.b() || R.hi > 1e5;
  if (n)
    l[r.i(0, n - 1)] = low ? R.lo - (r.b() ? 1e-3 : r.d(0, R.lo)) : R.hi + (r.b() ? 1e-3 : r.d(0, 1e4));
  c.note(std::string(R.name) + " " + vh::vec(l)), c.sigv(l);
  c.nontrivial = n > 0;
  c.check(vh::throwsAmz([&] { cv->VacToAir(l); }), "out-of-domain", "vacuum wavelengths accepted");
  c.check(vh::throwsAmz([&] { cv->AirToVac(l); }), "out-of-domain", "air wavelengths accepted");
}
VH_CASE(names, 40, 40) {
  std::string s;
  for (int i = c.r.i(0, 12); i > 0; --i)
    s += char(c.r.i('A', 'z'));
  c.sig(c.r.d());
  c.check(vh::throwsAmz([&] { CAirVacuumConverter::Get(s); }), "unknown-relation", s);
}
VH_MAIN
