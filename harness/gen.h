// Generators shared by the harnesses.
#ifndef GEN_H
#define GEN_H
#include "vh.h"
namespace gen {
using V = std::vector<double>;
// strictly increasing axis: style 0 regular, 1 log, 2 irregular, 3 integer-valued
inline V axis(vh::Rng &r, int n, double lo = 1000., double hi = 12000., int style = -1) {
  if (style < 0)
    style = r.i(0, 3);
  V v(n);
  if (n == 0)
    return v;
  double a = r.d(lo, lo + 0.4 * (hi - lo)), b = r.d(a + 0.2 * (hi - lo), hi);
  if (style == 0) {
    double st = n > 1 ? (b - a) / (n - 1) : 1;
    for (int i = 0; i < n; ++i)
      v[i] = a + st * i;
  } else if (style == 1) {
    double st = n > 1 ? std::log(b / a) / (n - 1) : 1;
    for (int i = 0; i < n; ++i)
      v[i] = a * std::exp(st * i);
  } else if (style == 2) {
    double x = a, m = n > 1 ? (b - a) / n : 1;
    for (int i = 0; i < n; ++i) {
      v[i] = x;
      x += m * r.logd(0.05, 3);
    }
  } else {
    double x = std::floor(a);
    for (int i = 0; i < n; ++i) {
      v[i] = x;
      x += r.i(1, 7);
    }
  }
  return v;
}
// a query value relative to a sorted vector: on samples, between, next to, outside
inline double query(vh::Rng &r, const V &v) {
  int n = v.size();
  if (n == 0)
    return r.d(0, 10);
  int k = r.i(0, n - 1);
  double span = n > 1 ? v[n - 1] - v[0] : 1;
  switch (r.i(0, 7)) {
  case 0:
  case 1:
    return v[k];
  case 2:
    return std::nextafter(v[k], r.b() ? INFINITY : -INFINITY);
  case 3:
    return k + 1 < n ? v[k] + (v[k + 1] - v[k]) * r.d() : v[k];
  case 4:
    return v[0] - span * r.d(0.001, 0.5);
  case 5:
    return v[n - 1] + span * r.d(0.001, 0.5);
  case 6:
    return r.b() ? v[0] : v[n - 1];
  default:
    return v[0] + span * r.d(-0.1, 1.1);
  }
}
inline V noise(vh::Rng &r, int n, double scale) {
  V v(n);
  for (auto &x : v)
    x = scale * r.logd(0.3, 3);
  return v;
}
// smooth + lines + random flux
inline V flux(vh::Rng &r, const V &lam, double scale = 1.) {
  int n = lam.size();
  V v(n);
  double a = r.d(-1, 1), b = r.d(-1, 1), c = r.d(0.2, 3), w = r.d(0.1, 1);
  for (int i = 0; i < n; ++i) {
    double t = n > 1 ? (lam[i] - lam[0]) / (lam[n - 1] - lam[0]) : 0;
    v[i] = scale * (c + a * t + b * std::sin(6 * t / w) + 0.2 * r.g());
  }
  return v;
}
} // namespace gen
#endif
