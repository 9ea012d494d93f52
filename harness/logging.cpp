// C26: concurrent logging observed by recording handlers, file handlers and (in the tsan flavour) the race detector.
#include "RedshiftLibrary/log/consolehandler.h"
#include "RedshiftLibrary/log/filehandler.h"
#include "RedshiftLibrary/log/handler.h"
#include "RedshiftLibrary/log/log.h"
#include "vh.h"
#include <atomic>
#include <chrono>
#include <filesystem>
#include <fstream>
#include <memory>
#include <stdexcept>
#include <thread>
#include <unistd.h>
using namespace NSEpic;
using S = std::string;
struct Entry {
  int level;
  S text;
};
static std::atomic<long> clockTick{0};
struct Recorder : CLogHandler {
  std::vector<Entry> log; // written without a lock of its own: the logger must serialise the calls
  std::atomic<int> inside{0}, overlaps{0};
  int delay = 0; // spins inside the call
  void LogEntry(Int32 level, const S &m) override {
    if (inside.fetch_add(1))
      overlaps++;
    log.push_back({level, m});
    for (volatile int i = 0; i < delay; i = i + 1)
      ;
    if (delay > 400)
      std::this_thread::yield();
    inside.fetch_sub(1);
  }
};
static const std::vector<int> LEVELS = {CLog::nLevel_Debug, CLog::nLevel_Detail, CLog::nLevel_Info, CLog::nLevel_Warning, CLog::nLevel_Error};
static const char *header(int l) {
  return l == CLog::nLevel_Error ? "Error: " : l == CLog::nLevel_Warning ? "Warning: " : l == CLog::nLevel_Info ? "Info: " : l == CLog::nLevel_Detail ? "Detail: " : "Debug: ";
}
static void emit(int l, const S &m, bool ts) {
  auto &log = CLog::GetInstance();
  switch (l) {
  case CLog::nLevel_Error:
    log.LogError(m, ts);
    break;
  case CLog::nLevel_Warning:
    log.LogWarning(m, ts);
    break;
  case CLog::nLevel_Info:
    log.LogInfo(m, ts);
    break;
  case CLog::nLevel_Detail:
    log.LogDetail(m, ts);
    break;
  default:
    log.LogDebug(m, ts);
  }
}
struct Msg {
  int level;
  bool stamp;
  S text;
};
// message k of thread t, self-checking
static Msg message(vh::Rng &r, int t, int k) {
  Msg m;
  m.level = r.pick(LEVELS), m.stamp = r.b();
  int n = r.b(0.1) ? r.i(500, 6000) : r.i(0, 60);
  m.text = vh::fmt("<%d:%d:", t, k);
  for (int i = 0; i < n; ++i)
    m.text += char('a' + (t * 7 + k + i) % 26);
  m.text += vh::fmt(":%d:%d>", t, k);
  return m;
}
// a received line parsed back to (thread, index); the prefix is checked against the message
static bool parse(const S &line, int &t, int &k, size_t &pos) {
  pos = line.find('<');
  return pos != S::npos && std::sscanf(line.c_str() + pos, "<%d:%d:", &t, &k) == 2;
}
static bool wellFormed(const S &line, const Msg &m, size_t pos) {
  if (line.substr(pos) != m.text)
    return false;
  S h = header(m.level), pre = line.substr(0, pos);
  if (!m.stamp)
    return pre == h;
  if (pre.size() <= h.size() || pre.substr(pre.size() - h.size()) != h)
    return false;
  S ts = pre.substr(0, pre.size() - h.size()); // "Fri Nov 20 00:02:47 2026 "
  char wd[4], mo[4];
  int d, hh, mi, ss, y, n = 0;
  return std::sscanf(ts.c_str(), "%3s %3s %d %d:%d:%d %d %n", wd, mo, &d, &hh, &mi, &ss, &y, &n) == 7 && n == (int)ts.size() && d >= 1 && d <= 31 && hh < 24 && mi < 60 && ss <= 60 && y > 2000;
}
static void received(vh::Case &c, const std::vector<S> &lines, const std::vector<std::vector<Msg>> &sent, int level, const S &who) {
  std::vector<int> next(sent.size(), 0);
  auto skip = [&](int t) {
    while (next[t] < (int)sent[t].size() && sent[t][next[t]].level < level)
      next[t]++;
  };
  for (auto &l : lines) {
    int t, k;
    size_t pos;
    bool ok = parse(l, t, k, pos) && t >= 0 && t < (int)sent.size() && k >= 0 && k < (int)sent[t].size();
    c.check(ok, "whole-message", who + " received " + l.substr(0, 200));
    if (!ok)
      return;
    c.check(wellFormed(l, sent[t][k], pos), "whole-message", who + " received " + l.substr(0, 200));
    c.check(sent[t][k].level >= level, "no-message-below-the-level", vh::str(who, " level ", level, " received ", sent[t][k].level));
    if (sent[t][k].level < level)
      continue;
    skip(t);
    c.check(k == next[t], "once-and-in-the-order-of-the-thread", vh::str(who, " thread ", t, " message ", k, " expected ", next[t]));
    next[t] = k + 1;
  }
  for (int t = 0; t < (int)sent.size(); ++t) {
    skip(t);
    c.check(next[t] == (int)sent[t].size(), "no-message-lost", vh::str(who, " level ", level, " thread ", t, " from message ", next[t]));
  }
}
static std::vector<std::vector<Msg>> plan(vh::Case &c, int threads, int n) {
  std::vector<std::vector<Msg>> s(threads);
  for (int t = 0; t < threads; ++t)
    for (int k = 0; k < n; ++k)
      s[t].push_back(message(c.r, t, k));
  return s;
}
template <class F> static void together(int n, F f) {
  std::vector<std::thread> th;
  std::atomic<int> ready{0};
  for (int t = 0; t < n; ++t)
    th.emplace_back([&, t] {
      ready++;
      while (ready < n)
        ;
      f(t);
    });
  for (auto &x : th)
    x.join();
}
static S scratch() {
  static S d = [] {
    char b[] = "/tmp/verif-log-XXXXXX";
    S s = mkdtemp(b);
    static struct Clean {
      S d;
      ~Clean() { std::error_code e; if (!d.empty()) std::filesystem::remove_all(d, e); }
    } cl;
    cl.d = s;
    return s;
  }();
  return d;
}
static std::vector<S> texts(const std::vector<Entry> &e) {
  std::vector<S> o;
  for (auto &x : e)
    o.push_back(x.text);
  return o;
}
static long switches(const std::vector<S> &l) {
  long n = 0;
  int prev = -1;
  for (auto &x : l) {
    int t, k;
    size_t p;
    if (parse(x, t, k, p) && t != prev)
      n++, prev = t;
  }
  return n;
}
VH_CASE(threads, 120, 2500) {
  int nt = c.r.i(2, 8), nm = c.r.i(5, 80), nh = c.r.i(1, 8);
  auto sent = plan(c, nt, nm);
  std::vector<std::unique_ptr<CLogHandler>> hs;
  std::vector<Recorder *> rec;
  std::vector<std::pair<S, int>> files; // path, index
  std::vector<int> level;
  for (int i = 0; i < nh; ++i) {
    if (c.r.b(0.7)) {
      rec.push_back(new Recorder);
      rec.back()->delay = c.r.b() ? 0 : c.r.i(1, 800);
      hs.emplace_back(rec.back());
    } else {
      S p = vh::str(scratch(), "/log", i);
      files.push_back({p, i});
      rec.push_back(nullptr);
      hs.emplace_back(new CLogFileHandler(p.c_str()));
    }
    level.push_back(c.r.b(0.1) ? CLog::nLevel_Warning : c.r.b(0.2) ? 0 : c.r.pick(LEVELS) + c.r.i(-1, 1));
    if (level.back() != CLog::nLevel_Warning || c.r.b()) // the default level is the one of the warnings
      hs.back()->SetLevelMask(level.back());
    c.check(hs.back()->GetLevelMask() == level.back(), "level-of-the-handler", "");
  }
  std::vector<int> pauses;
  for (int t = 0; t < nt; ++t)
    pauses.push_back(c.r.i(0, 3) ? 0 : c.r.i(1, 400));
  together(nt, [&](int t) {
    for (auto &m : sent[t]) {
      emit(m.level, m.text, m.stamp);
      for (volatile int i = 0; i < pauses[t]; i = i + 1)
        ;
    }
  });
  long sw = 0;
  for (int i = 0; i < nh; ++i)
    if (rec[i]) {
      c.check(rec[i]->overlaps == 0, "one-message-at-a-time", vh::str("handler ", i));
      for (auto &e : rec[i]->log) {
        int t, k;
        size_t p;
        if (parse(e.text, t, k, p) && t < nt && k < nm)
          c.check(e.level == sent[t][k].level, "level-of-the-message", "");
      }
      received(c, texts(rec[i]->log), sent, level[i], vh::str("handler ", i));
      sw = std::max(sw, switches(texts(rec[i]->log)));
    }
  hs.clear(); // closes the files
  for (auto &f : files) {
    std::vector<S> lines;
    std::ifstream in(f.first);
    for (S l; std::getline(in, l);)
      lines.push_back(l);
    received(c, lines, sent, level[f.second], vh::str("file ", f.second));
    in.close();
    std::filesystem::remove(f.first);
  }
  c.count("thread-switches", sw);
  c.nontrivial = sw > nt;
  c.sig((int)sw), c.sig(nt);
}
// handlers installed, removed and re-levelled while the threads log, under the lock the logger gives for it
VH_CASE(reconfigured, 80, 1500) {
  int nt = c.r.i(2, 6), nm = c.r.i(20, 120), steps = c.r.i(3, 25);
  auto sent = plan(c, nt, nm);
  struct Epoch { // state of a handler between two reconfigurations, as seen by the always-on witness
    size_t from, to;
    int level;
    std::vector<S> got;
  };
  Recorder w; // receives everything: the history
  w.SetLevelMask(0);
  std::vector<Epoch> done;
  std::vector<int> pace;
  for (int i = 0; i < steps; ++i)
    pace.push_back(c.r.i(0, 3000));
  std::vector<std::array<int, 3>> ops;
  for (int i = 0; i < steps; ++i)
    ops.push_back({c.r.i(0, 2), c.r.i(0, 3), c.r.pick(LEVELS) + c.r.i(-1, 1)});
  struct Slot {
    std::unique_ptr<Recorder> h;
    size_t from = 0;
  } slot[4];
  auto &mtx = CLog::GetInstance().GetSynchMutex();
  auto close = [&](Slot &s) {
    Epoch e{s.from, w.log.size(), s.h->GetLevelMask(), texts(s.h->log)};
    s.h->log.clear();
    done.push_back(e);
    s.from = w.log.size();
  };
  together(nt + 1, [&](int t) {
    if (t < nt) {
      for (auto &m : sent[t])
        emit(m.level, m.text, m.stamp);
      return;
    }
    for (int i = 0; i < steps; ++i) {
      for (volatile int k = 0; k < pace[i]; k = k + 1)
        ;
      mtx.Lock();
      Slot &s = slot[ops[i][1]];
      if (!s.h) {
        s.h.reset(new Recorder);
        s.h->SetLevelMask(ops[i][2]);
        s.from = w.log.size();
      } else {
        close(s);
        if (ops[i][0] == 0)
          s.h.reset();
        else
          s.h->SetLevelMask(ops[i][2]);
      }
      mtx.Unlock();
    }
  });
  for (auto &s : slot)
    if (s.h)
      close(s), s.h.reset();
  received(c, texts(w.log), sent, 0, "witness");
  c.check(w.overlaps == 0, "one-message-at-a-time", "witness");
  long mid = 0;
  for (auto &e : done) {
    std::vector<S> exp;
    for (size_t i = e.from; i < e.to; ++i)
      if (w.log[i].level >= e.level)
        exp.push_back(w.log[i].text);
    c.check(e.got == exp, "handler-change-takes-effect-at-the-next-message", vh::str("messages ", e.from, "-", e.to, " level ", e.level, " received ", e.got.size(), " expected ", exp.size()));
    mid += e.to > e.from;
  }
  c.count("handler-epochs-with-messages", mid);
  c.nontrivial = mid > 0;
  c.sig((int)mid);
}
// single thread: handlers created, destroyed and re-levelled between the messages, up to the size of the table
VH_CASE(sequence, 300, 5000) {
  std::vector<std::unique_ptr<Recorder>> h;
  std::vector<std::vector<S>> exp;
  int n = 0;
  for (int i = 0, e = c.r.i(5, 60); i < e; ++i) {
    int op = c.r.i(0, 9);
    if (op == 0 && h.size() < 8) {
      h.emplace_back(new Recorder), exp.emplace_back();
      c.check(h.back()->GetLevelMask() == CLog::nLevel_Warning, "level-of-the-handler", "default");
    } else if (op == 1 && !h.empty()) {
      int k = c.r.i(0, h.size() - 1);
      c.check(texts(h[k]->log) == exp[k], "sequential-messages", vh::str(h[k]->log.size(), " expected ", exp[k].size()));
      h.erase(h.begin() + k), exp.erase(exp.begin() + k);
    } else if (op == 2 && !h.empty())
      c.r.pick(h)->SetLevelMask(c.r.b(0.1) ? 0 : c.r.b(0.1) ? 200 : c.r.pick(LEVELS) + c.r.i(-1, 1));
    else {
      Msg m = message(c.r, 0, n++);
      m.stamp = false;
      for (size_t k = 0; k < h.size(); ++k)
        if (m.level >= h[k]->GetLevelMask())
          exp[k].push_back(header(m.level) + m.text);
      emit(m.level, m.text, false);
    }
  }
  for (size_t k = 0; k < h.size(); ++k)
    c.check(texts(h[k]->log) == exp[k], "sequential-messages", vh::str(h[k]->log.size(), " expected ", exp[k].size()));
  c.nontrivial = n > 3;
  c.sig((int)h.size()), c.sig(n);
}
// warnings and errors raised through the library's own channels
VH_CASE(channels, 60, 800) {
  Recorder w, e;
  w.SetLevelMask(CLog::nLevel_Warning), e.SetLevelMask(CLog::nLevel_Error);
  std::vector<S> ew, ee;
  auto &flag = CFlagWarning::GetInstance();
  flag.resetFlag();
  for (int i = 0, n = c.r.i(1, 12); i < n; ++i) {
    Msg m = message(c.r, 0, i);
    if (c.r.b()) {
      flag.warning(WarningCode::AIR_VACUUM_CONVERSION_IGNORED, m.text);
      ew.push_back("Warning: " + m.text);
    } else {
      AmzException x(ErrorCode::INTERNAL_ERROR, m.text, "file.cpp", "method", 12);
      x.LogError();
      ew.push_back("Error"), ee.push_back("Error");
      c.check(!w.log.empty() && w.log.back().text.find(m.text) != S::npos, "error-logged-whole", m.text.substr(0, 60));
    }
  }
  flag.resetFlag();
  c.check(w.log.size() == ew.size() && e.log.size() == ee.size(), "channel-messages", vh::str(w.log.size(), " ", ew.size(), " ", e.log.size(), " ", ee.size()));
  for (size_t i = 0; i < std::min(w.log.size(), ew.size()); ++i)
    c.check(ew[i] == "Error" ? w.log[i].level == CLog::nLevel_Error : w.log[i].text.size() > ew[i].size() && w.log[i].text.substr(w.log[i].text.size() - ew[i].size()) == ew[i], "channel-messages", w.log[i].text.substr(0, 100));
  c.nontrivial = true;
  c.sig((int)ew.size()), c.sig((int)ee.size());
}
// a handler that fails does not block the messages of the others
VH_CASE(failing, 40, 400) {
  struct Failing : CLogHandler {
    int every, n = 0;
    void LogEntry(Int32, const S &) override {
      if (++n % every == 0)
        throw std::runtime_error("handler");
    }
  };
  auto first = std::make_unique<Recorder>(); // before the failing one in the table
  first->SetLevelMask(0);
  static bool blocked = false; // already reported by this process
  if (blocked)
    c.skip();
  Failing f;
  f.SetLevelMask(0);
  f.every = c.r.i(1, 5);
  int nt = c.r.i(1, 4), nm = c.r.i(3, 30);
  auto sent = plan(c, nt, nm);
  std::atomic<int> failed{0}, finished{0};
  std::vector<std::thread> th;
  for (int t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      for (auto &m : sent[t])
        try {
          emit(m.level, m.text, m.stamp);
        } catch (std::runtime_error const &) {
          failed++;
        }
      finished++;
    });
  for (int i = 0; i < 2000 && finished < nt; ++i)
    std::this_thread::sleep_for(std::chrono::milliseconds(5));
  c.check(finished == nt, "log-usable-after-a-failing-handler", vh::str("blocked after ", failed.load(), " failures"));
  blocked = finished < nt;
  for (int k = 0; finished < nt && k < 100000; ++k) { // frees the blocked threads so that the other cases run
    CLog::GetInstance().GetSynchMutex().Unlock();
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
  }
  for (auto &x : th)
    x.join();
  received(c, texts(first->log), sent, 0, "handler");
  c.count("failures", failed);
  c.nontrivial = failed > 0;
  c.sig((int)failed.load());
}
VH_MAIN
