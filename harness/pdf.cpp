// C02: posterior and priors against long-double references.
#include "gen.h"
#include "RedshiftLibrary/operator/logZPdfResult.h"
#include "RedshiftLibrary/operator/pdfz.h"
#include "RedshiftLibrary/statistics/zprior.h"
#include "RedshiftLibrary/common/zgridparam.h"
using namespace NSEpic;
using gen::V;
typedef long double LD;
typedef std::vector<LD> W;

// log of the trapezoid integral of exp(v) over x
static LD logTrapz(const W &v, const V &x) {
  LD m = -INFINITY;
  for (auto a : v)
    m = std::max(m, a);
  if (std::isinf(m))
    return m;
  LD s = 0;
  for (size_t i = 1; i < x.size(); ++i)
    s += (expl(v[i] - m) + expl(v[i - 1] - m)) * ((LD)x[i] - (LD)x[i - 1]) / 2;
  return m + logl(s);
}
static W toW(const V &v) { return W(v.begin(), v.end()); }
static LD logAdd(LD a, LD b) {
  LD m = std::max(a, b);
  if (std::isinf(m))
    return m;
  return m + logl(expl(a - m) + expl(b - m));
}

static V randomGrid(vh::Rng &r, int n) {
  V x(n);
  int st = r.i(0, 3);
  double z = r.b(0.3) ? 0 : r.d(0, 3), step = r.logd(1e-5, 1e-2);
  for (int i = 0; i < n; ++i) {
    x[i] = z;
    if (st == 0)
      z = x[0] + (i + 1) * step;
    else if (st == 1)
      z = (1 + x[0]) * std::exp(step * (i + 1)) - 1;
    else if (st == 2)
      z += step * r.logd(0.01, 10);
    else
      z += (i / 7) % 3 == 1 ? step * 0.05 : step;
  }
  return x;
}
// log-probability like curve; kind: smooth, peaks, huge spread, step, spike
static V curve(vh::Rng &r, const V &x) {
  int n = x.size(), k = r.i(0, 5);
  V v(n);
  double amp = r.logd(0.01, 1e5), off = r.b() ? 0 : r.d(-1e6, 1e6);
  double c = r.d(x[0], x[n - 1]), w = (x[n - 1] - x[0]) * r.logd(1e-3, 1) + 1e-9;
  double c2 = r.d(x[0], x[n - 1]);
  for (int i = 0; i < n; ++i) {
    double t = (x[i] - c) / w, t2 = (x[i] - c2) / w;
    switch (k) {
    case 0:
      v[i] = amp * std::sin(3 * t);
      break;
    case 1:
      v[i] = amp * std::exp(-0.5 * t * t) + 0.7 * amp * std::exp(-0.5 * t2 * t2);
      break;
    case 2:
      v[i] = amp * r.d(-1, 1);
      break;
    case 3:
      v[i] = x[i] > c ? amp : 0;
      break;
    case 4:
      v[i] = i == n / 2 ? amp : -amp * r.d();
      break;
    default:
      v[i] = -std::min(amp * t * t, 1e6);
    }
    v[i] += off;
  }
  return v;
}

VH_CASE(logsumexp, 2500, 60000) {
  int n = c.r.b(0.2) ? c.r.i(2, 4) : c.r.i(2, 200);
  V x = randomGrid(c.r, n), v = curve(c.r, x);
  if (c.r.b(0.2))
    for (auto &a : v)
      if (c.r.b(0.1))
        a -= c.r.logd(1, 1e300);
  c.sigv(x);
  c.sigv(v);
  c.nontrivial = n > 2;
  c.note("n=" + std::to_string(n) + " x=" + vh::vec(x, 5) + " v=" + vh::vec(v, 5));
  double got = COperatorPdfz::logSumExpTrick(v, x);
  LD want = logTrapz(toW(v), x);
  c.close(got, want, 1e-12, 1e-9, "log-integral", "logSumExpTrick");
  // splitting the curve conserves the integral
  if (n > 4) {
    int k = c.r.i(1, n - 2);
    LD a = COperatorPdfz::logSumExpTrick(V(v.begin(), v.begin() + k + 1), V(x.begin(), x.begin() + k + 1));
    LD b = COperatorPdfz::logSumExpTrick(V(v.begin() + k, v.end()), V(x.begin() + k, x.end()));
    c.close(logAdd(a, b), got, 1e-12, 1e-9, "integral-additivity", vh::fmt("split at %d", k));
  }
}

static void checkNormalised(vh::Case &c, const V &pdf, const V &x, const char *key) {
  c.close(logTrapz(toW(pdf), x), 0, 0, 1e-7, key, "log of the integral of the posterior");
}
// tolerance of a log value given the magnitude of the terms it was computed from
static double tolOf(std::initializer_list<double> mags) {
  double m = 1;
  for (double a : mags)
    m = std::max(m, std::fabs(a));
  return 1e-9 + 2e-14 * m;
}
static double maxAbs(const V &v) {
  double m = 0;
  for (double a : v)
    m = std::max(m, std::fabs(a));
  return m;
}

VH_CASE(single_pdf, 1500, 40000) {
  int n = c.r.b(0.1) ? 2 : c.r.i(2, 150);
  V x = randomGrid(c.r, n), merit = curve(c.r, x), prior = c.r.b(0.3) ? V(n, c.r.d(-5, 5)) : curve(c.r, x);
  double cst = c.r.b() ? 0 : c.r.d(-1e5, 1e5);
  c.sigv(x);
  c.sigv(merit);
  c.nontrivial = n > 2;
  c.note("n=" + std::to_string(n) + " merits=" + vh::vec(merit, 5) + " prior=" + vh::vec(prior, 5));
  V pdf;
  double ev = NAN;
  COperatorPdfz::ComputePdf(merit, x, cst, prior, pdf, ev);
  W t(n), pr = toW(prior);
  LD lp = logTrapz(pr, x);
  for (int i = 0; i < n; ++i)
    t[i] = -0.5L * merit[i] + pr[i] - lp;
  LD z = logTrapz(t, x);
  double tol = tolOf({maxAbs(merit), maxAbs(prior), cst});
  c.close(ev, z + cst, 0, tol, "evidence", "log evidence");
  if (!c.check(int(pdf.size()) == n, "pdf-size", "size of the pdf"))
    return;
  for (int i = 0; i < n; ++i)
    c.close(pdf[i], t[i] - z, 0, tol, "bayes-pointwise", vh::fmt("log posterior at %d", i));
  checkNormalised(c, pdf, x, "normalised");
  // invariance to a constant in the merits / in the log priors
  double k = c.r.d(-1e4, 1e4);
  V m2 = merit, p2 = prior, pdf2;
  for (auto &a : m2)
    a += k;
  double ev2;
  COperatorPdfz::ComputePdf(m2, x, cst, prior, pdf2, ev2);
  c.close(ev2, ev - k / 2, 0, 10 * tol, "evidence-shift", "evidence after a constant merit shift");
  for (int i = 0; i < n; ++i)
    c.close(pdf2[i], pdf[i], 0, 10 * tol, "merit-shift-invariance", "posterior after a constant merit shift");
  for (auto &a : p2)
    a += k;
  COperatorPdfz::ComputePdf(merit, x, cst, p2, pdf2, ev2);
  c.close(ev2, ev, 0, 10 * tol, "prior-shift-invariance", "evidence after a constant prior shift");
}

// grid expressed as parameters, as the operator needs it
struct Grid {
  bool log;
  double step;
  TZGridListParams sub;
  V z;
};
static Grid paramGrid(vh::Rng &r, bool withSub) {
  Grid g;
  g.log = r.b();
  g.step = r.logd(1e-4, 1e-2);
  double a = r.b(0.3) ? 0 : r.d(0, 3);
  int n = r.b(0.1) ? 2 : r.i(3, 120);
  double b = g.log ? (1 + a) * std::exp(g.step * (n - 0.5)) - 1 : a + g.step * (n - 0.5);
  TZGridListParams p{CZGridParam(TFloat64Range(a, b), g.step)};
  g.z = CZGridListParams(p).getZGrid(g.log);
  if (withSub && g.z.size() > 20) {
    int ns = r.i(1, 3);
    for (int k = 0; k < ns; ++k) {
      int i = 3 + int(r.u64() % (g.z.size() - 6));
      double c = g.z[i], fine = g.step / r.i(2, 8), h = (c - g.z[0]) * r.d(0.05, 0.5);
      h = std::min(h, (g.z.back() - c) * 0.9);
      if (h < g.step)
        continue;
      g.sub.emplace_back(TFloat64Range(c - h, c + h), fine, c);
    }
    TZGridListParams q{CZGridParam(TFloat64Range(g.z), g.step)};
    q.insert(q.end(), g.sub.begin(), g.sub.end());
    g.z = CZGridListParams(q).getZGrid(g.log);
  }
  return g;
}

static void combine(vh::Case &c, const std::string &mode) {
  Grid g = paramGrid(c.r, mode != "bestproba" && c.r.b(0.4));
  if (mode == "bestproba" && g.log) {
    double r0 = g.z.size() > 1 ? (1 + g.z.back()) / (1 + g.z.front()) : 1;
    if (r0 > 1.03)
      c.skip(); // documented refusal of non constant steps, tested below
  }
  int n = g.z.size(), nm = c.r.b(0.25) ? 1 : c.r.i(2, 12);
  if (n < 2)
    c.skip();
  ChisquareArray a;
  a.redshifts = g.z;
  a.zstep = g.step;
  a.cstLog = c.r.b() ? 0 : c.r.d(-1e4, 1e4);
  double base = c.r.b() ? 0 : c.r.d(0, 1e6);
  for (int m = 0; m < nm; ++m) {
    V k = curve(c.r, g.z);
    for (auto &v : k)
      v += base;
    a.chisquares.push_back(k);
    a.zpriors.push_back(c.r.b(0.4) ? V(n, 0.) : curve(c.r, g.z));
    if (c.r.b(0.3)) // shallow prior
      for (auto &v : a.zpriors.back())
        v *= 1e-4;
  }
  if (c.r.b(0.3) && nm > 1)
    a.chisquares[1] = a.chisquares[0];
  bool spike = mode != "bestChi2" && c.r.b(0.1);
  if (spike)
    a.chisquares[c.r.i(0, nm - 1)][c.r.i(0, n - 1)] = 1e300;
  V mp(nm, 1. / nm);
  if (c.r.b(0.6)) {
    double s = 0;
    for (auto &v : mp)
      s += v = c.r.logd(1e-6, 1);
    double tot = c.r.b() ? 1 : c.r.d(0.92, 1.08);
    for (auto &v : mp)
      v *= tot / s;
    a.modelpriors = mp;
  }
  // second-pass windows
  for (auto const &p : g.sub) {
    auto id = "P" + std::to_string(a.parentCandidates.size());
    auto cand = std::make_shared<TCandidateZ>();
    cand->Redshift = p.zcenter;
    a.parentCandidates.emplace_back(id, cand);
    a.zgridParams.push_back(p);
  }
  c.sigv(g.z);
  for (auto &k : a.chisquares)
    c.sigv(k);
  c.nontrivial = nm > 1 && n > 3;
  c.note(mode + vh::fmt(" n=%d nm=%d log=%d subs=%zu cst=%g", n, nm, g.log, g.sub.size(), a.cstLog) + " z=" + vh::vec(g.z, 4) +
         " chi2[0]=" + vh::vec(a.chisquares[0], 6) + " prior[0]=" + vh::vec(a.zpriors[0], 6) + " modelprior=" + vh::vec(a.modelpriors, 6));

  // reference
  std::vector<W> t(nm, W(n));
  W post(n), Z(nm), lpr(nm);
  double mag = std::fabs(a.cstLog);
  for (int m = 0; m < nm; ++m) {
    W pr = toW(a.zpriors[m]);
    lpr[m] = logTrapz(pr, g.z);
    for (int i = 0; i < n; ++i) {
      t[m][i] = -0.5L * a.chisquares[m][i] + pr[i] - lpr[m];
      double ch = a.chisquares[m][i];
      if (std::fabs(ch) < 1e100)
        mag = std::max(mag, std::fabs(ch));
    }
    mag = std::max(mag, maxAbs(a.zpriors[m]));
    Z[m] = logTrapz(t[m], g.z);
  }
  double tol = 1e-8 + 4e-14 * mag;
  LD wantEv = NAN;
  bool hasEv = true;
  if (mode == "marg") {
    LD all = -INFINITY;
    for (int m = 0; m < nm; ++m)
      all = logAdd(all, logl(mp[m]) + Z[m]);
    for (int i = 0; i < n; ++i) {
      LD s = -INFINITY;
      for (int m = 0; m < nm; ++m)
        s = logAdd(s, logl(mp[m]) + t[m][i]);
      post[i] = s - all;
    }
    wantEv = all + a.cstLog;
  } else if (mode == "bestChi2") {
    W u(n);
    LD flat = logl((LD)g.z.back() - g.z.front());
    for (int i = 0; i < n; ++i) {
      double b = INFINITY;
      for (int m = 0; m < nm; ++m)
        b = std::min(b, a.chisquares[m][i]);
      u[i] = -0.5L * b - flat;
    }
    LD zz = logTrapz(u, g.z);
    for (int i = 0; i < n; ++i)
      post[i] = u[i] - zz;
    wantEv = zz + a.cstLog;
  } else {
    hasEv = false;
    for (int i = 0; i < n; ++i) {
      post[i] = -INFINITY;
      for (int m = 0; m < nm; ++m)
        post[i] = std::max(post[i], t[m][i] - Z[m]);
    }
    LD mx = *std::max_element(post.begin(), post.end()), s = 0;
    for (auto v : post)
      s += expl(v - mx);
    double mind = INFINITY, maxd = 0;
    for (int i = 1; i < n; ++i) {
      mind = std::min(mind, g.z[i] - g.z[i - 1]);
      maxd = std::max(maxd, g.z[i] - g.z[i - 1]);
    }
    LD nrm = mx + logl(s) + logl((mind + maxd) / 2);
    for (auto &v : post)
      v -= nrm;
  }
  COperatorPdfz op(mode, 0, 0, c.r.i(1, 12), g.log, "EXT", true);
  std::string err;
  try {
    op.Compute(a);
  } catch (const AmzException &e) {
    // a flat or peak-less posterior may be refused after it was built
    err = e.what();
    bool flat = *std::max_element(post.begin(), post.end()) - *std::min_element(post.begin(), post.end()) < 1e-6;
    c.count("posterior/refused");
    if (e.getErrorCode() == ErrorCode::PDF_NORMALIZATION_FAILED) {
      // only the rectangle-normalised combination may deviate from a unit integral (peak at a border)
      LD s = expl(logTrapz(post, g.z));
      c.check(mode == "bestproba" && fabsl(s - 1) > 0.09, "refused-normalisation", "refused a normalised posterior: " + err);
    } else if (e.getErrorCode() == ErrorCode::FLAT_ZPDF)
      c.check(flat, "refused-flat", "refused a posterior that is not flat: " + err);
    else
      c.check((n < 3 || flat || spike || !g.sub.empty() || e.getErrorCode() != ErrorCode::INTERNAL_ERROR), "posterior-error", "posterior computation failed: " + err);
  }
  auto res = op.m_postmargZResult;
  if (!c.check(res && res->redshifts == g.z && res->valProbaLog.size() == g.z.size(), "grid-kept", "grid of the posterior"))
    return;
  for (int i = 0; i < n; ++i) {
    LD w = post[i];
    double got = res->valProbaLog[i];
    if (w < -1e100) {
      c.check(got < -1e99, "bayes-combination", vh::fmt("%s: log posterior at %d got=%.17g want=%.17Lg", mode.c_str(), i, got, w));
      continue;
    }
    c.close(got, w, 1e-13, tol, "bayes-combination", vh::fmt("%s: log posterior at %d", mode.c_str(), i));
  }
  if (mode != "bestproba")
    checkNormalised(c, res->valProbaLog, g.z, "combined-normalised");
  if (hasEv)
    c.close(res->valEvidenceLog, wantEv, 1e-13, tol, "combined-evidence", mode + ": log evidence");
  if (mode == "marg")
    c.close(res->valMargEvidenceLog, wantEv, 1e-13, tol, "marginal-evidence", mode + ": marginal log evidence");
  if (err.empty() || mode != "bestproba") {
    // metamorphic: common constant in every merit, and permuted models
    ChisquareArray b = a;
    double k = c.r.d(-1e3, 1e3);
    for (auto &v : b.chisquares)
      for (auto &q : v)
        q += k;
    V p(nm);
    std::vector<int> perm(nm);
    for (int m = 0; m < nm; ++m)
      perm[m] = m;
    c.r.shuffle(perm);
    ChisquareArray d = b;
    for (int m = 0; m < nm; ++m) {
      d.chisquares[m] = b.chisquares[perm[m]];
      d.zpriors[m] = b.zpriors[perm[m]];
      if (!b.modelpriors.empty())
        d.modelpriors[m] = b.modelpriors[perm[m]];
    }
    COperatorPdfz op2(mode, 0, 0, 5, g.log, "EXT", true);
    vh::amz([&] { op2.Compute(d); });
    for (int i = 0; i < n; ++i)
      if (res->valProbaLog[i] > -1e90)
        c.close(op2.m_postmargZResult->valProbaLog[i], res->valProbaLog[i], 1e-12, 10 * tol, "shift-and-order-invariance",
                vh::fmt("%s: at %d", mode.c_str(), i));
  }
}
VH_CASE(combine_marg, 700, 20000) { combine(c, "marg"); }
VH_CASE(combine_bestchi2, 500, 12000) { combine(c, "bestChi2"); }
VH_CASE(combine_bestproba, 500, 12000) { combine(c, "bestproba"); }

// inputs that have to be refused, never turned into a posterior
VH_CASE(refusals, 400, 6000) {
  Grid g = paramGrid(c.r, false);
  int n = g.z.size(), nm = c.r.i(1, 4);
  if (n < 5)
    c.skip();
  c.nontrivial = true;
  ChisquareArray a;
  a.redshifts = g.z;
  a.zstep = g.step;
  for (int m = 0; m < nm; ++m) {
    a.chisquares.push_back(curve(c.r, g.z));
    a.zpriors.push_back(V(n, 0.));
  }
  int kind = c.r.i(0, 6);
  std::string mode = c.r.pick(std::vector<std::string>{"marg", "bestChi2", "bestproba"});
  switch (kind) {
  case 0:
    a.chisquares[c.r.i(0, nm - 1)][c.r.i(0, n - 1)] = NAN;
    break;
  case 1:
    a.zpriors.pop_back();
    break;
  case 2:
    mode = "unknown";
    break;
  case 3:
    a.modelpriors = V(nm, c.r.b() ? 0.85 / nm : 1.15 / nm);
    if (mode == "bestproba")
      mode = "marg";
    break;
  case 4:
    a.redshifts.back() += g.step * 0.3;
    a.redshifts[1] += 0.2 * g.step;
    break;
  case 5:
    for (auto &k : a.chisquares)
      std::fill(k.begin(), k.end(), 3.);
    break;
  case 6:
    a.modelpriors = V(nm + 1, 1. / (nm + 1));
    if (mode == "bestproba")
      mode = "marg";
    break;
  }
  c.sig(kind);
  c.sigv(a.chisquares[0]);
  c.note(vh::fmt("kind %d mode %s n=%d nm=%d", kind, mode.c_str(), n, nm));
  COperatorPdfz op(mode, 0, 0, 5, g.log, "EXT", true);
  c.check(vh::throwsAmz([&] { op.Compute(a); }), "refusal", vh::fmt("invalid input kind %d accepted", kind));
}

VH_CASE(priors, 800, 20000) {
  int n = c.r.i(2, 120);
  V x = randomGrid(c.r, n);
  bool norm = c.r.b();
  CZPrior p(norm, x);
  c.sigv(x);
  c.nontrivial = n > 3;
  double pen = c.r.logd(1e-20, 0.9);
  TBoolList present(n);
  TInt32List nl(n);
  for (int i = 0; i < n; ++i) {
    present[i] = c.r.b(0.4);
    nl[i] = c.r.i(0, 4);
  }
  double aC = c.r.logd(1e-2, 3);
  V other = curve(c.r, x);
  for (auto &o : other)
    o = std::max(o * 1e-3, -500.);
  c.note(vh::fmt("n=%d norm=%d pen=%g a=%g", n, norm, pen, aC) + vh::vec(x, 6));
  auto cmp = [&](const V &got, W want, const char *key) {
    if (norm) {
      LD s = logTrapz(want, x);
      for (auto &w : want)
        w -= s;
    }
    if (!c.check(got.size() == want.size(), "prior-size", key))
      return;
    for (int i = 0; i < n; ++i)
      c.close(got[i], want[i], 1e-12, 1e-9, key, vh::fmt("at %d", i));
  };
  cmp(p.GetConstantLogZPrior(n), W(n, 0), "prior-constant");
  W a(n), b(n), e(n), cb(n);
  LD mx = -INFINITY;
  for (int i = 0; i < n; ++i) {
    a[i] = present[i] ? 0 : logl(pen);
    b[i] = nl[i] >= 2 ? 0 : logl(pen);
    LD z = x[i];
    LD v = ((((((-54.7422088727874L * z + 1203.94994364807L) * z - 10409.6716744981L) * z + 44240.3837462642L) * z - 92914.84430357L) * z +
             79004.76406L) *
                z -
            2288.98457865L);
    if (v < 0)
      v = 2.2250738585072014e-308L;
    e[i] = logl(v) * aC;
    mx = std::max(mx, e[i]);
  }
  for (auto &v : e)
    v = std::max(v - mx, -logl(1e12L));
  cmp(p.GetStrongLinePresenceLogZPrior(present, pen), a, "prior-strong-line");
  cmp(p.GetNLinesSNRAboveCutLogZPrior(nl, pen), b, "prior-nlines");
  bool nearRoot = false;
  for (int i = 0; i < n; ++i) {
    LD z = x[i];
    LD v = ((((((-54.7422088727874L * z + 1203.94994364807L) * z - 10409.6716744981L) * z + 44240.3837462642L) * z - 92914.84430357L) * z +
             79004.76406L) * z - 2288.98457865L);
    if (fabsl(v) < 1e-3)
      nearRoot = true;
  }
  if (!nearRoot)
    cmp(p.GetEuclidNhaLogZPrior(x, aC), e, "prior-nha");
  auto pa = p.GetStrongLinePresenceLogZPrior(present, pen);
  for (int i = 0; i < n; ++i)
    cb[i] = (LD)pa[i] + other[i];
  cmp(p.CombineLogZPrior(pa, other), cb, "prior-combined");
  if (norm)
    c.close(COperatorPdfz::logSumExpTrick(p.CombineLogZPrior(pa, other), x), 0, 0, 1e-9, "prior-normalised", "integral of the combined prior");
  c.check(vh::throwsAmz([&] { p.CombineLogZPrior(pa, V(n + 1, 0.)); }), "prior-sizes-refused", "sizes");
  c.check(vh::throwsAmz([&] { p.GetEuclidNhaLogZPrior(x, -aC); }), "prior-coeff-refused", "negative coefficient");
}
VH_MAIN
