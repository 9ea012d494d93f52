// Case runner shared by all harnesses: seeded generation, violation collection, evidence counters, replay.
#ifndef VH_H
#define VH_H
#include "RedshiftLibrary/common/exception.h"
#include <algorithm>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vh {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline uint64_t hashStr(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ULL;
  return mix(h);
}
inline uint64_t hashD(uint64_t h, double v) {
  uint64_t u;
  if (v == 0)
    v = 0;
  memcpy(&u, &v, 8);
  return mix(h ^ u);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t u64() {
    s += 0x9e3779b97f4a7c15ULL;
    uint64_t x = s;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
  }
  // integer in [a, b]
  int i(int a, int b) { return a + int(u64() % uint64_t(b - a + 1)); }
  double d() { return double(u64() >> 11) / 9007199254740992.0; }
  double d(double a, double b) { return a + (b - a) * d(); }
  double logd(double a, double b) { return std::exp(d(std::log(a), std::log(b))); }
  bool b(double p = 0.5) { return d() < p; }
  double g() {
    double u = d(), v = d();
    while (u <= 0)
      u = d();
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  template <class T> const T &pick(const std::vector<T> &v) { return v[u64() % v.size()]; }
  template <class T> void shuffle(std::vector<T> &v) {
    for (size_t k = v.size(); k > 1; --k)
      std::swap(v[k - 1], v[u64() % k]);
  }
};

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
  va_list a, b;
  va_start(a, f);
  va_copy(b, a);
  int n = vsnprintf(nullptr, 0, f, a);
  va_end(a);
  std::string s(n, 0);
  vsnprintf(&s[0], n + 1, f, b);
  va_end(b);
  return s;
}

template <class... T> std::string str(const T &...x) {
  std::ostringstream o;
  o.precision(17);
  (o << ... << x);
  return o.str();
}

inline std::string jsonEsc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n')
      o += "\\n";
    else if (c < 32)
      o += ' ';
    else
      o += c;
  }
  return o;
}

template <class V> std::string vec(const V &v, size_t maxn = 24) {
  std::string o = "[";
  size_t n = 0;
  for (auto const &x : v) {
    if (n)
      o += ",";
    if (n++ >= maxn) {
      o += fmt("...%zu", v.size());
      break;
    }
    o += fmt("%.17g", double(x));
  }
  return o + "]";
}

struct Global {
  uint64_t seed = 1;
  bool thorough = false;
  int shard = 0, nshard = 1;
  double scale = 1;
  std::string only;
  int onlyIndex = -1;
  std::string out, status;
  int statusFd = -1;
  uint64_t evaluations = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> counters;
  std::vector<std::string> samples;
  std::map<std::string, int> sampled;
  struct V {
    std::string key, msg, where;
  };
  std::vector<V> violations;
  std::map<std::string, int> perKey;
};
inline Global &G() {
  static Global g;
  return g;
}

struct Skip {};
struct CaseFailed {};

struct Case {
  std::string name;
  int index;
  Rng r;
  uint64_t h = 0; // content hash of the case
  bool nontrivial = false;
  std::string desc;
  int fails = 0;
  Case(const std::string &n, int i, uint64_t seed) : name(n), index(i), r(seed) {}

  // one evaluated oracle comparison
  void count(const std::string &k, uint64_t n = 1) { G().counters[k] += n; }
  void sig(double v) { h = hashD(h + 1, v); }
  void sig(const std::string &s) { h = mix(h ^ hashStr(s)); }
  template <class V> void sigv(const V &v) {
    for (auto const &x : v)
      sig(double(x));
  }
  void note(const std::string &d) { desc = d; }
  void fail(const std::string &key, const std::string &msg) {
    auto &g = G();
    ++fails;
    if (g.perKey[key]++ < 5)
      g.violations.push_back({key, msg + (desc.empty() ? "" : " | case: " + desc), name + ":" + std::to_string(index)});
  }
  bool check(bool ok, const char *key, const std::string &msg) {
    count(std::string("monitor/") + key);
    if (!ok)
      fail(key, msg);
    return ok;
  }
  bool eq(double a, double b, const char *key, const std::string &msg) {
    return check(a == b || (std::isnan(a) && std::isnan(b)), key, msg + fmt(" got=%.17g want=%.17g", a, b));
  }
  // relative+absolute closeness; NaN never close except to NaN; infinities must be equal
  bool close(double a, double b, double rel, double abs, const char *key, const std::string &msg) {
    bool ok = (a == b) || (std::isnan(a) && std::isnan(b)) ||
              (std::isfinite(a) && std::isfinite(b) &&
               std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b)));
    return check(ok, key, msg + fmt(" got=%.17g want=%.17g", a, b));
  }
  [[noreturn]] void skip() { throw Skip(); }
};

using CaseFn = std::function<void(Case &)>;
struct Suite {
  std::string name;
  int quick, thorough;
  CaseFn fn;
};
inline std::vector<Suite> &suites() {
  static std::vector<Suite> s;
  return s;
}
struct Reg {
  Reg(const std::string &n, int q, int t, CaseFn f) { suites().push_back({n, q, t, f}); }
};
// VH_CASE(name, quick, thorough) { body using c }
#define VH_CASE(NAME, Q, T)                                                                                            \
  static void vh_##NAME(vh::Case &c);                                                                                  \
  static vh::Reg vhr_##NAME(#NAME, Q, T, vh_##NAME);                                                                   \
  static void vh_##NAME(vh::Case &c)

// runs f; returns "" or the library error text when it threw an AmzException
template <class F> std::string amz(F f) {
  try {
    f();
  } catch (const NSEpic::AmzException &e) {
    return std::string("AmzException:") + e.what();
  }
  return "";
}
template <class F> bool throwsAmz(F f) { return !amz(f).empty(); }

inline void runOne(Suite &s, int idx) {
  auto &g = G();
  if (g.statusFd >= 0) {
    std::string st = s.name + ":" + std::to_string(idx) + "\n";
    st.resize(96, ' ');
    if (pwrite(g.statusFd, st.data(), st.size(), 0) < 0) {
    }
  }
  // index -1-k .. : fixed witnesses could be added by suites through idx themselves
  Case c(s.name, idx, mix(mix(g.seed) ^ hashStr(s.name) ^ mix(uint64_t(idx) + 77)));
  bool skipped = false;
  try {
    s.fn(c);
  } catch (Skip &) {
    skipped = true;
  } catch (CaseFailed &) {
  } catch (const NSEpic::AmzException &e) {
    c.fail("unexpected-error:" + s.name, std::string("library raised ") + e.what());
  } catch (const std::exception &e) {
    c.fail("unexpected-exception:" + s.name, std::string("exception ") + e.what());
  }
  if (skipped) {
    g.counters["skipped/" + s.name]++;
    return;
  }
  g.evaluations++;
  g.counters["cases/" + s.name]++;
  if (c.nontrivial)
    g.distinct.insert(mix(c.h ^ hashStr(s.name)));
  if (g.sampled[s.name] < 1 && !c.desc.empty() && c.nontrivial) {
    g.sampled[s.name]++;
    g.samples.push_back(s.name + ":" + std::to_string(idx) + " " + c.desc.substr(0, 600));
  }
}

inline int run(int argc, char **argv) {
  auto &g = G();
  for (int k = 1; k + 1 < argc; k += 2) {
    std::string a = argv[k], v = argv[k + 1];
    if (a == "--seed")
      g.seed = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--tier")
      g.thorough = v == "thorough";
    else if (a == "--shard")
      sscanf(v.c_str(), "%d/%d", &g.shard, &g.nshard);
    else if (a == "--out")
      g.out = v;
    else if (a == "--status")
      g.status = v;
    else if (a == "--scale")
      g.scale = atof(v.c_str());
    else if (a == "--only") {
      auto p = v.rfind(':');
      if (p == std::string::npos)
        g.only = v;
      else {
        g.only = v.substr(0, p);
        g.onlyIndex = atoi(v.c_str() + p + 1);
      }
    }
  }
  if (!g.status.empty())
    g.statusFd = open(g.status.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  uint64_t n = 0;
  for (auto &s : suites()) {
    if (!g.only.empty() && g.only != s.name)
      continue;
    if (g.onlyIndex >= 0) {
      runOne(s, g.onlyIndex);
      continue;
    }
    int cnt = g.thorough ? s.thorough : s.quick;
    if (g.scale != 1)
      cnt = std::max(std::min(cnt, 4), int(cnt * g.scale));
    for (int i = 0; i < cnt; ++i)
      if (int((n++) % uint64_t(g.nshard)) == g.shard) {
        auto t0 = std::chrono::steady_clock::now();
        runOne(s, i);
        g.counters["us/" + s.name] +=
            std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
      }
  }
  std::string o = "{\n";
  o += fmt("\"evaluations\": %" PRIu64 ",\n\"distinct\": [", g.evaluations);
  bool f = true;
  for (auto d : g.distinct) {
    o += fmt("%s\"%016" PRIx64 "\"", f ? "" : ",", d);
    f = false;
  }
  o += "],\n\"counters\": {";
  f = true;
  for (auto &kv : g.counters) {
    o += fmt("%s\"%s\": %" PRIu64, f ? "" : ",", jsonEsc(kv.first).c_str(), kv.second);
    f = false;
  }
  o += "},\n\"samples\": [";
  f = true;
  for (auto &s : g.samples) {
    o += std::string(f ? "" : ",") + "\"" + jsonEsc(s) + "\"";
    f = false;
  }
  o += "],\n\"violations\": [";
  f = true;
  for (auto &v : g.violations) {
    o += std::string(f ? "" : ",\n") + "{\"key\": \"" + jsonEsc(v.key) + "\", \"msg\": \"" + jsonEsc(v.msg.substr(0, 1500)) +
         "\", \"where\": \"" + jsonEsc(v.where) + "\"}";
    f = false;
  }
  o += "],\n\"done\": true}\n";
  if (!g.out.empty()) {
    std::ofstream(g.out) << o;
  } else
    fputs(o.c_str(), stdout);
  return g.violations.empty() ? 0 : 3;
}
} // namespace vh
#define VH_MAIN                                                                                                        \
  int main(int argc, char **argv) { return vh::run(argc, argv); }
#endif
