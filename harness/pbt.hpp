// Choice-sequence property-based testing engine (generation, statistics,
// crash/hang isolation, internal shrinking, replay).
//
// A property is a function  void f(pbt::Src& s, pbt::Case& c)  that draws its
// input from `s`, runs the code under test and reports a broken oracle with
// PBT_CHECK / c.fail.  Every random decision goes through Src, so a case is a
// finite sequence of integers: the sequence is what is shrunk and what the
// replay file holds.  Case i of property p under seed S is a pure function of
// (S, p, i), whatever the number of worker processes.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <algorithm>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <Eigen/Dense>

namespace pbt {

struct Discard {};
struct Failure { std::string tag, msg; };
struct Known { std::string id; };

inline uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hashstr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}

// ---------------------------------------------------------------------------
class Src {
 public:
  explicit Src(uint64_t seed) : replaying_(false), rng_(seed) {}
  explicit Src(const std::vector<uint64_t>& r) : replaying_(true), replay_(r), rng_(0) {}

  // uniform integer in [0, max]; 0 is the simplest choice
  uint64_t draw(uint64_t max) {
    uint64_t v = 0;
    if (replaying_) {
      v = pos_ < replay_.size() ? replay_[pos_] : 0;
      if (v > max) v = max;
    } else if (max == UINT64_MAX) {
      v = splitmix(rng_);
    } else {
      uint64_t n = max + 1, lim = UINT64_MAX - UINT64_MAX % n;
      do { v = splitmix(rng_); } while (v >= lim);
      v %= n;
    }
    ++pos_;
    rec_.push_back(v);
    if (log_ && rec_.size() < kLogCap) { log_[rec_.size()] = v; log_[0] = rec_.size(); }
    if (rec_.size() > 400000) throw Discard();
    return v;
  }
  // integer in [lo,hi], simplest = lo
  int integer(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo)); }
  // true with probability ~p, simplest = false
  bool chance(double p) {
    const uint64_t M = 1000;
    return draw(M - 1) >= (uint64_t)std::llround(M * (1.0 - p));
  }
  bool boolean() { return draw(1) == 1; }
  size_t index(size_t n) { return (size_t)draw(n - 1); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[index(v.size())]; }
  template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + index(v.size())); }

  // real in [lo,hi]: small integers, eighths, or full precision
  double real(double lo, double hi) {
    switch (draw(3)) {
      case 0: {
        int a = (int)std::ceil(lo), b = (int)std::floor(hi);
        if (a > b) break;
        return near(a, b, draw((uint64_t)(b - a)));
      }
      case 1: {
        int a = (int)std::ceil(lo * 8), b = (int)std::floor(hi * 8);
        if (a > b) break;
        return near(a, b, draw((uint64_t)(b - a))) / 8.0;
      }
      default: break;
    }
    return uniform(lo, hi);
  }
  double uniform(double lo, double hi) {
    return lo + (hi - lo) * ((double)draw((1ULL << 40) - 1) / (double)((1ULL << 40) - 1));
  }
  // positive real spread over orders of magnitude
  double logreal(double lo, double hi) {
    return std::exp(uniform(std::log(lo), std::log(hi)));
  }
  Eigen::VectorXd vec(int n, double lo, double hi) {
    Eigen::VectorXd v(n);
    for (int i = 0; i < n; i++) v[i] = real(lo, hi);
    return v;
  }
  Eigen::MatrixXd mat(int m, int n, double lo, double hi) {
    Eigen::MatrixXd a(m, n);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a(i, j) = real(lo, hi);
    return a;
  }
  Eigen::VectorXd uvec(int n, double lo, double hi) {
    Eigen::VectorXd v(n);
    for (int i = 0; i < n; i++) v[i] = uniform(lo, hi);
    return v;
  }
  Eigen::MatrixXd umat(int m, int n, double lo, double hi) {
    Eigen::MatrixXd a(m, n);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a(i, j) = uniform(lo, hi);
    return a;
  }
  // random orthogonal matrix (product of Householder reflections and signs)
  Eigen::MatrixXd orth(int n) {
    Eigen::MatrixXd q = Eigen::MatrixXd::Identity(n, n);
    for (int k = 0; k < n; k++) {
      Eigen::VectorXd v = uvec(n, -1, 1);
      double s = v.squaredNorm();
      if (s < 1e-3) continue;
      q = q - (2.0 / s) * v * (v.transpose() * q);
    }
    return q;
  }
  // symmetric positive definite with eigenvalues in [lo,hi] (log-uniform)
  Eigen::MatrixXd spd(int n, double lo, double hi) {
    Eigen::MatrixXd q = orth(n);
    Eigen::VectorXd d(n);
    for (int i = 0; i < n; i++) d[i] = logreal(lo, hi);
    Eigen::MatrixXd a = q * d.asDiagonal() * q.transpose();
    return 0.5 * (a + a.transpose());
  }
  std::vector<int> perm(int n) {
    std::vector<int> p(n);
    for (int i = 0; i < n; i++) p[i] = i;
    for (int i = 0; i + 1 < n; i++) std::swap(p[i], p[i + (int)draw((uint64_t)(n - 1 - i))]);
    return p;
  }
  const std::vector<uint64_t>& record() const { return rec_; }
  void log_to(uint64_t* shared) { log_ = shared; if (log_) log_[0] = 0; }
  static const size_t kLogCap = 400001;

 private:
  static double near(int a, int b, uint64_t k) {  // k-th integer of [a,b] by closeness to 0
    int z = std::min(std::max(0, a), b);
    int up = b - z, dn = z - a;
    int kk = (int)k, m = std::min(up, dn);
    if (kk <= 2 * m) return (kk & 1) ? z + (kk + 1) / 2 : z - kk / 2;
    kk -= 2 * m;
    return up > dn ? z + m + kk : z - m - kk;
  }
  bool replaying_;
  std::vector<uint64_t> replay_, rec_;
  size_t pos_ = 0;
  uint64_t rng_;
  uint64_t* log_ = nullptr;  // survives a crash of the process that draws
};

// ---------------------------------------------------------------------------
class Case {
 public:
  bool nontrivial = false;
  std::map<std::string, long> labels;
  std::ostringstream note;
  Case() { note << std::setprecision(10); }
  void label(const std::string& l) { labels[l]++; }
  void label(const std::string& l, bool b) { if (b) labels[l]++; }
  [[noreturn]] void fail(const std::string& tag, const std::string& msg) { throw Failure{tag, msg}; }
  void discard_if(bool b) { if (b) throw Discard(); }
  // the failure is one listed in known_findings.txt (reported, not raised)
  [[noreturn]] void known(const std::string& id) {
    if (getenv("PBT_SHOW_KNOWN")) throw Failure{"known:" + id, "the known finding " + id};
    throw Known{id};
  }
};

template <class T> std::string str(const T& x) {
  std::ostringstream o; o << std::setprecision(12) << x; return o.str();
}
inline std::string str(const Eigen::MatrixXd& m) {
  std::ostringstream o;
  o << std::setprecision(12)
    << m.format(Eigen::IOFormat(12, Eigen::DontAlignCols, ", ", "; ", "", "", "[", "]"));
  return o.str();
}
inline std::string str(const Eigen::VectorXd& v) {
  std::ostringstream o;
  o << v.transpose().format(Eigen::IOFormat(12, Eigen::DontAlignCols, ", ", "; ", "", "", "[", "]"));
  return o.str();
}

#define PBT_CHECK(c, cond, tag, what)                                          \
  do {                                                                         \
    if (!(cond)) {                                                             \
      std::ostringstream o__;                                                  \
      o__ << std::setprecision(12) << what;                                    \
      (c).fail(tag, o__.str());                                                \
    }                                                                          \
  } while (0)

// |a-b| <= tol*(1+|a|+|b|), false on NaN
inline bool close(double a, double b, double tol) {
  return std::abs(a - b) <= tol * (1.0 + std::abs(a) + std::abs(b));
}
inline bool mclose(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b, double tol) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  if (a.size() == 0) return true;
  double sc = 1.0 + a.cwiseAbs().maxCoeff() + b.cwiseAbs().maxCoeff();
  double d = (a - b).cwiseAbs().maxCoeff();
  return std::isfinite(d) && std::isfinite(sc) && a.allFinite() && b.allFinite() && d <= tol * sc;
}

typedef std::function<void(Src&, Case&)> Fn;
struct Prop { std::string name; Fn fn; int cpu_limit_s; };
inline std::vector<Prop>& registry() { static std::vector<Prop> r; return r; }
#ifdef __SANITIZE_ADDRESS__
enum { SLOW = 12 };
#else
enum { SLOW = 1 };
#endif
struct Reg { Reg(const char* n, Fn f, int lim = SLOW * 10) { registry().push_back({n, f, lim}); } };
#define PBT_PROP(name)                                                         \
  static void name(pbt::Src& s, pbt::Case& c);                                 \
  static pbt::Reg reg_##name(#name, name);                                     \
  static void name(pbt::Src& s, pbt::Case& c)

// ---------------------------------------------------------------------------
enum Status { PASS = 0, DISCARD = 1, FAIL = 2, CRASH = 3, HANG = 4 };

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 0x20 || ch > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}

struct Outcome {
  Status st = PASS;
  std::string tag, msg, note, seq;
  std::vector<uint64_t> rec;
  bool nontrivial = false;
  std::map<std::string, long> labels;
};

// A stop button for exit/abort paths inside the code under test.
inline Outcome run_here(const Prop& p, Src& s) {
  Outcome o;
  Case c;
  try {
    p.fn(s, c);
  } catch (const Discard&) {
    o.st = DISCARD;
  } catch (const Known& k) {
    c.label("known:" + k.id);
    c.nontrivial = false;
  } catch (const Failure& f) {
    o.st = FAIL; o.tag = f.tag; o.msg = f.msg;
  } catch (const std::exception& e) {
    o.st = FAIL; o.tag = "uncaught-exception"; o.msg = e.what();
  }
  o.rec = s.record();
  o.nontrivial = c.nontrivial;
  o.labels = c.labels;
  o.note = c.note.str();
  return o;
}

inline void arm_cpu(int sec) {
  struct itimerval t; memset(&t, 0, sizeof t);
  t.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &t, nullptr);
  t.it_value.tv_sec = 4 * sec;  // a deadlock burns no CPU
  setitimer(ITIMER_REAL, &t, nullptr);
}
inline void on_prof(int) { _exit(99); }

// one line per field, length-prefixed
inline void put(std::string& b, const std::string& s) { b += std::to_string(s.size()) + "\n" + s; }
struct Rd {
  const std::string& b; size_t p = 0; bool ok = true;
  explicit Rd(const std::string& x) : b(x) {}
  std::string get() {
    size_t e = b.find('\n', p);
    if (e == std::string::npos) { ok = false; return ""; }
    size_t n = strtoull(b.c_str() + p, nullptr, 10);
    if (e + 1 + n > b.size()) { ok = false; return ""; }
    std::string r = b.substr(e + 1, n);
    p = e + 1 + n;
    return r;
  }
};
inline std::string recstr(const std::vector<uint64_t>& v) {
  std::string s;
  for (uint64_t x : v) { s += std::to_string(x); s += ' '; }
  return s;
}
inline std::vector<uint64_t> recparse(const std::string& t) {
  std::vector<uint64_t> v; std::istringstream i(t); uint64_t x;
  while (i >> x) v.push_back(x);
  return v;
}

// Runs one case in a forked child. seq==nullptr: generate from case seed.
inline Outcome run_forked(const Prop& p, uint64_t seed, const std::vector<uint64_t>* seq) {
  static uint64_t* shared = (uint64_t*)mmap(nullptr, sizeof(uint64_t) * (Src::kLogCap + 1),
      PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  shared[0] = 0;
  int fd[2];
  if (pipe(fd)) { perror("pipe"); exit(2); }
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    ::close(fd[0]);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    if (!getenv("PBT_STDERR")) dup2(nul, 2);
    signal(SIGPROF, on_prof);
    signal(SIGALRM, on_prof);
    arm_cpu(p.cpu_limit_s);
    Src s = seq ? Src(*seq) : Src(seed);
    s.log_to(shared);
    Outcome o = run_here(p, s);
    std::string b;
    put(b, std::to_string((int)o.st)); put(b, o.tag); put(b, o.msg); put(b, o.note);
    put(b, recstr(o.rec)); put(b, o.nontrivial ? "1" : "0");
    size_t off = 0;
    while (off < b.size()) {
      ssize_t k = write(fd[1], b.data() + off, b.size() - off);
      if (k <= 0) break;
      off += k;
    }
    _exit(0);
  }
  ::close(fd[1]);
  std::string b; char buf[65536]; ssize_t k;
  while ((k = read(fd[0], buf, sizeof buf)) > 0) b.append(buf, k);
  ::close(fd[0]);
  int st; waitpid(pid, &st, 0);
  Outcome o;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    Rd r(b);
    o.st = (Status)atoi(r.get().c_str()); o.tag = r.get(); o.msg = r.get(); o.note = r.get();
    o.rec = recparse(r.get()); o.nontrivial = r.get() == "1";
    if (r.ok) return o;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99) {
    o.st = HANG; o.tag = "does-not-terminate";
    o.msg = "case used more than " + std::to_string(p.cpu_limit_s) + " s of CPU time, or four times that on the clock";
  } else {
    o.st = CRASH; o.tag = "crash";
    o.msg = WIFSIGNALED(st) ? std::string("killed by signal ") + strsignal(WTERMSIG(st))
                            : "process exited with status " + std::to_string(WEXITSTATUS(st));
  }
  o.rec.assign(shared + 1, shared + 1 + shared[0]);
  return o;
}

inline uint64_t case_seed(const std::string& prop, uint64_t seed, long i) {
  uint64_t x = (seed * 0x9e3779b97f4a7c15ULL ^ hashstr(prop)) + 0x632be59bd9b4e019ULL * (uint64_t)(i + 1);
  splitmix(x);
  return x ^ (x >> 29);
}
// Re-runs cases from, from+step, ..., to in one process: a failure that needs
// state left behind by earlier cases shows up again here.
inline Outcome run_sequence(const Prop& p, uint64_t seed, long from, long step, long to) {
  Prop q = p;
  q.cpu_limit_s = 300;
  q.fn = [&](Src&, Case& c) {
    for (long i = from; i <= to; i += step) {
      Src s(case_seed(p.name, seed, i));
      Case c2;
      try { p.fn(s, c2); }
      catch (const Discard&) {}
      catch (const Known&) {}
      catch (const Failure& f) { c.note << c2.note.str(); throw; }
    }
  };
  return run_forked(q, 0, nullptr);
}

struct Slot { volatile long current; volatile long done; };

struct Summary {
  std::string name;
  long evaluations = 0, discards = 0, nontrivial = 0, timeboxed = 0;
  std::set<uint64_t> distinct;
  std::map<std::string, long> labels;
  std::vector<std::string> samples;
  std::vector<Outcome> failures;  // after shrinking and replay
  std::vector<Outcome> unstable;  // did not reproduce
};

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

inline Outcome shrink(const Prop& p, Outcome best, double budget_s) {
  double t0 = now();
  std::string tag = best.tag;
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    Outcome o = run_forked(p, 0, &cand);
    if ((o.st == FAIL || o.st == CRASH || o.st == HANG) && o.tag == tag) {
      if (o.rec.size() > cand.size()) o.rec = cand;
      if (o.rec.size() < best.rec.size() || (o.rec.size() == best.rec.size() && o.rec < best.rec)) {
        best = o;
        return true;
      }
    }
    return false;
  };
  if (best.st == HANG) budget_s = std::min(budget_s, 2.5 * p.cpu_limit_s);
  bool improved = true;
  while (improved && now() - t0 < budget_s) {
    improved = false;
    for (size_t len : {64u, 32u, 16u, 8u, 4u, 2u, 1u}) {
      for (long i = (long)best.rec.size() - (long)len; i >= 0 && now() - t0 < budget_s;) {
        std::vector<uint64_t> cand = best.rec;
        if (i + len > cand.size()) { i--; continue; }
        cand.erase(cand.begin() + i, cand.begin() + i + len);
        if (attempt(cand)) { improved = true; i = std::min(i, (long)best.rec.size() - (long)len); continue; }
        i -= (len > 4 ? (long)len / 2 : 1);
      }
    }
    for (size_t len : {16u, 4u, 1u}) {
      for (size_t i = 0; i + len <= best.rec.size() && now() - t0 < budget_s; i += len) {
        std::vector<uint64_t> cand = best.rec;
        bool any = false;
        for (size_t j = i; j < i + len; j++) { any |= cand[j] != 0; cand[j] = 0; }
        if (any && attempt(cand)) improved = true;
      }
    }
    for (size_t i = 0; i < best.rec.size() && now() - t0 < budget_s; i++) {
      uint64_t lo = 0, hi = best.rec[i];
      int guard = 0;
      while (lo < hi && i < best.rec.size() && guard++ < 45 && now() - t0 < budget_s) {
        uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> cand = best.rec;
        cand[i] = mid;
        if (attempt(cand)) { improved = true; hi = i < best.rec.size() ? std::min(mid, best.rec[i]) : 0; }
        else lo = mid + 1;
      }
    }
  }
  return best;
}

inline Summary run_prop(const Prop& p, uint64_t seed, long cases, int workers, double max_s,
                        double shrink_s) {
  Summary S; S.name = p.name;
  Slot* slots = (Slot*)mmap(nullptr, sizeof(Slot) * workers, PROT_READ | PROT_WRITE,
                            MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  volatile long* stop = (volatile long*)mmap(nullptr, sizeof(long), PROT_READ | PROT_WRITE,
                                             MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto caseseed = [&](long i) { return case_seed(p.name, seed, i); };
  double t0 = now();
  struct W { pid_t pid; int fd; std::string buf; long next; bool live; };
  auto sequence = [&](long i, Outcome& o) {
    int again = 0;
    Outcome q;
    for (int k = 0; k < 2; k++) {
      q = run_sequence(p, seed, i % workers, workers, i);
      if (q.st != PASS && q.st != DISCARD) again++; else break;
    }
    if (again < 2) { S.unstable.push_back(o); return; }
    q.rec.clear();
    q.seq = "sequence " + std::to_string(seed) + " " + std::to_string(i % workers) + " " +
            std::to_string(workers) + " " + std::to_string(i);
    q.msg += " (needs the cases run before it in the same process)";
    S.failures.push_back(q);
  };
  std::vector<W> ws(workers);
  auto spawn = [&](int w, long from) {
    int fd[2];
    if (pipe(fd)) { perror("pipe"); exit(2); }
    slots[w].current = -1;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
      ::close(fd[0]);
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1);
      if (!getenv("PBT_STDERR")) dup2(nul, 2);
      signal(SIGPROF, on_prof);
      signal(SIGALRM, on_prof);
      auto send = [&](const std::string& b) {
        size_t off = 0;
        while (off < b.size()) { ssize_t k = write(fd[1], b.data() + off, b.size() - off); if (k <= 0) _exit(3); off += k; }
      };
      std::string out;
      int nsamples = 0, nfail = 0;
      for (long i = from; i < cases; i += workers) {
        if (*stop || now() - t0 > max_s) break;
        slots[w].current = i;
        arm_cpu(p.cpu_limit_s);
        Src s(caseseed(i));
        Outcome o = run_here(p, s);
        arm_cpu(0);
        std::string b;
        put(b, std::to_string(i)); put(b, std::to_string((int)o.st));
        put(b, o.nontrivial ? "1" : "0");
        put(b, std::to_string(hashstr(recstr(o.rec))));
        std::string ls;
        for (auto& l : o.labels) ls += l.first + "\t" + std::to_string(l.second) + "\n";
        put(b, ls);
        bool sample = o.nontrivial && o.st == PASS && nsamples < 2;
        if (sample) nsamples++;
        put(b, (sample || o.st == FAIL) ? o.note.substr(0, 1500) : "");
        put(b, o.tag); put(b, o.msg.substr(0, 4000));
        put(b, o.st == FAIL ? recstr(o.rec) : "");
        out += std::to_string(b.size()) + "\n" + b;
        if (out.size() > 1 << 15 || o.st == FAIL) { send(out); out.clear(); }
        slots[w].done++;
        if (o.st == FAIL && ++nfail >= 1) { break; }
      }
      send(out);
      slots[w].current = -2;
      fflush(nullptr);
      _exit(0);
    }
    ::close(fd[1]);
    ws[w].pid = pid; ws[w].fd = fd[0]; ws[w].buf.clear(); ws[w].live = true;
  };
  for (int w = 0; w < workers; w++) spawn(w, w);
  std::vector<std::pair<long, Outcome>> raw;
  std::map<std::string, int> crash_count;
  auto parse = [&](W& w) {
    size_t p0 = 0;
    for (;;) {
      size_t e = w.buf.find('\n', p0);
      if (e == std::string::npos) break;
      size_t n = strtoull(w.buf.c_str() + p0, nullptr, 10);
      if (e + 1 + n > w.buf.size()) break;
      std::string b = w.buf.substr(e + 1, n);
      p0 = e + 1 + n;
      Rd r(b);
      long i = atol(r.get().c_str());
      Outcome o; o.st = (Status)atoi(r.get().c_str());
      o.nontrivial = r.get() == "1";
      uint64_t h = strtoull(r.get().c_str(), nullptr, 10);
      std::string ls = r.get(); o.note = r.get(); o.tag = r.get(); o.msg = r.get();
      o.rec = recparse(r.get());
      S.evaluations++;
      if (o.st == DISCARD) S.discards++;
      if (o.nontrivial && o.st != DISCARD) { S.nontrivial++; S.distinct.insert(h); }
      std::istringstream li(ls); std::string line;
      while (std::getline(li, line)) {
        size_t t = line.rfind('\t');
        S.labels[line.substr(0, t)] += atol(line.c_str() + t + 1);
      }
      if (o.st == FAIL) raw.push_back({i, o});
      else if (!o.note.empty() && S.samples.size() < 3) S.samples.push_back("case " + std::to_string(i) + ": " + o.note);
    }
    w.buf.erase(0, p0);
  };
  int live = workers;
  while (live > 0) {
    std::vector<struct pollfd> pf; std::vector<int> idx;
    for (int w = 0; w < workers; w++) if (ws[w].live) { pf.push_back({ws[w].fd, POLLIN, 0}); idx.push_back(w); }
    poll(pf.data(), pf.size(), 1000);
    for (size_t k = 0; k < pf.size(); k++) {
      if (!pf[k].revents) continue;
      int w = idx[k];
      char buf[65536];
      ssize_t n = read(ws[w].fd, buf, sizeof buf);
      if (n > 0) { ws[w].buf.append(buf, n); parse(ws[w]); continue; }
      ::close(ws[w].fd);
      int st; waitpid(ws[w].pid, &st, 0);
      parse(ws[w]);
      ws[w].live = false; live--;
      bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
      if (!clean) {
        long i = slots[w].current;
        if (i >= 0) {
          Outcome o;
          bool hang = WIFEXITED(st) && WEXITSTATUS(st) == 99;
          o.st = hang ? HANG : CRASH;
          o.tag = hang ? "does-not-terminate" : "crash";
          S.evaluations++;
          raw.push_back({i, o});
          *stop = 1;
        }
      }
      if (!raw.empty()) *stop = 1;
    }
    if (!raw.empty()) *stop = 1;
  }
  if (!raw.empty()) {
    std::sort(raw.begin(), raw.end(), [](auto& a, auto& b) { return a.first < b.first; });
    // Distinct tags, earliest case each, at most three.
    std::set<std::string> tags;
    for (auto& ro : raw) {
      if (tags.count(ro.second.tag) || tags.size() >= 3) continue;
      long i = ro.first;
      Outcome o;
      if (ro.second.rec.empty()) {
        // crash: regenerate the choice sequence in a child that records as it goes
        o = run_forked(p, caseseed(i), nullptr);
        if (o.st == PASS || o.st == DISCARD) { sequence(i, ro.second); continue; }
      } else {
        o = run_forked(p, 0, &ro.second.rec);
        if (o.st == PASS || o.st == DISCARD) { sequence(i, ro.second); continue; }
      }
      tags.insert(ro.second.tag);
      Outcome first = o;
      if (!o.rec.empty()) o = shrink(p, o, shrink_s);
      if (o.st == HANG) { o.seq = recstr(o.rec); S.failures.push_back(o); continue; }
      int again = 0;
      for (int k = 0; k < 3; k++) {
        Outcome q = o.rec.empty() ? run_forked(p, caseseed(i), nullptr) : run_forked(p, 0, &o.rec);
        if (q.st != PASS && q.st != DISCARD) { again++; if (!q.note.empty()) o.note = q.note; if (!q.msg.empty()) o.msg = q.msg; }
      }
      if (again < 3) {
        o = first; again = 0;
        for (int k = 0; k < 3; k++) {
          Outcome q = o.rec.empty() ? run_forked(p, caseseed(i), nullptr) : run_forked(p, 0, &o.rec);
          if (q.st != PASS && q.st != DISCARD) again++;
        }
      }
      if (again == 3) {
        o.seq = o.rec.empty() ? "sequence " + std::to_string(seed) + " " + std::to_string(i) + " 1 " + std::to_string(i)
                              : recstr(o.rec);
        S.failures.push_back(o);
      } else { tags.erase(ro.second.tag); S.unstable.push_back(o); }
    }
  }
  return S;
}

inline void jlist(std::ostream& f, const std::vector<std::string>& v) {
  f << "[";
  for (size_t i = 0; i < v.size(); i++) f << (i ? "," : "") << "\"" << jesc(v[i]) << "\"";
  f << "]";
}

// usage: harness --out F --seed S --workers W --max-s T  prop:cases ...
//        harness --replay prop "c0 c1 c2 ..."
//        harness --list
inline int main_(int argc, char** argv) {
  std::string out; uint64_t seed = 1; int workers = 8; double max_s = 600, shrink_s = 60;
  std::vector<std::pair<std::string, long>> todo;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--out") out = argv[++i];
    else if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
    else if (a == "--workers") workers = atoi(argv[++i]);
    else if (a == "--max-s") max_s = atof(argv[++i]);
    else if (a == "--shrink-s") shrink_s = atof(argv[++i]);
    else if (a == "--list") { for (auto& p : registry()) std::cout << p.name << "\n"; return 0; }
    else if (a == "--replay" || a == "--replay-file") {
      std::string name = argv[++i], seq = argv[++i];
      if (a == "--replay-file") { std::ifstream f(seq); std::stringstream b; b << f.rdbuf(); seq = b.str(); }
      for (auto& p : registry()) if (p.name == name) {
        std::vector<uint64_t> v = recparse(seq);
        bool direct = getenv("PBT_DIRECT") != nullptr;
        Outcome o;
        if (seq.compare(0, 9, "sequence ") == 0) {
          std::istringstream q(seq.substr(9));
          uint64_t sd; long from, step, to;
          q >> sd >> from >> step >> to;
          o = run_sequence(p, sd, from, step, to);
        } else if (direct) { Src s(v); o = run_here(p, s); } else o = run_forked(p, 0, &v);
        const char* n[] = {"PASS", "DISCARD", "FAIL", "CRASH", "HANG"};
        std::cout << n[o.st] << "\ntag: " << o.tag << "\nmsg: " << o.msg << "\ncase: " << o.note << "\n";
        return o.st >= FAIL ? 1 : 0;
      }
      std::cerr << "no such property " << name << "\n"; return 2;
    } else {
      size_t k = a.rfind(':');
      todo.push_back({a.substr(0, k), k == std::string::npos ? 1000 : atol(a.c_str() + k + 1)});
    }
  }
  std::ostringstream f;
  f << "[";
  bool any = false, first = true;
  double T0 = now();
  for (auto& t : todo) {
    const Prop* P = nullptr;
    for (auto& p : registry()) if (p.name == t.first) P = &p;
    if (!P) { std::cerr << "no such property " << t.first << "\n"; return 2; }
    double t0 = now();
    double left = max_s - (t0 - T0);
    Summary S = run_prop(*P, seed, t.second, workers, std::max(left, 1.0), shrink_s);
    f << (first ? "" : ",\n") << "{\"prop\":\"" << S.name << "\",\"planned\":" << t.second
      << ",\"evaluations\":" << S.evaluations << ",\"discards\":" << S.discards
      << ",\"nontrivial\":" << S.nontrivial << ",\"distinct_nontrivial\":" << S.distinct.size()
      << ",\"wall_s\":" << now() - t0 << ",\"labels\":{";
    bool lf = true;
    for (auto& l : S.labels) { f << (lf ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second; lf = false; }
    f << "},\"samples\":"; jlist(f, S.samples);
    auto outs = [&](const std::vector<Outcome>& v) {
      f << "[";
      for (size_t i = 0; i < v.size(); i++)
        f << (i ? "," : "") << "{\"tag\":\"" << jesc(v[i].tag) << "\",\"msg\":\"" << jesc(v[i].msg)
          << "\",\"case\":\"" << jesc(v[i].note.substr(0, 6000)) << "\",\"choices\":\"" << (v[i].seq.empty() ? recstr(v[i].rec) : v[i].seq) << "\"}";
      f << "]";
    };
    f << ",\"failures\":"; outs(S.failures);
    f << ",\"unstable\":"; outs(S.unstable);
    f << "}";
    first = false;
    any |= !S.failures.empty();
    if (getenv("PBT_VERBOSE")) {
      std::cerr << S.name << ": " << S.evaluations << " evals, " << S.nontrivial << " nontrivial ("
                << S.distinct.size() << " distinct), " << S.discards << " discards, " << now() - t0 << " s";
      for (auto& l : S.labels) std::cerr << "\n    " << l.first << " " << l.second;
      for (auto& x : S.failures) std::cerr << "\n  FAIL [" << x.tag << "] " << x.msg << "\n    case: " << x.note.substr(0, 3000) << "\n    choices(" << x.rec.size() << ")";
      for (auto& x : S.unstable) std::cerr << "\n  UNSTABLE [" << x.tag << "] " << x.msg;
      std::cerr << "\n";
    }
  }
  f << "]\n";
  if (!out.empty()) { std::ofstream o(out); o << f.str(); }
  else std::cout << f.str();
  return any ? 1 : 0;
}
}  // namespace pbt

#define PBT_MAIN int main(int argc, char** argv) { return pbt::main_(argc, argv); }
