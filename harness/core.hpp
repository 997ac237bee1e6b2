// Reporting, sharding, operations and alphabets shared by the explorers.
#pragma once
#include "iirmc.hpp"
#include <algorithm>
#include <csignal>
#include <cstdarg>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace mc {

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  char b[4096];
  va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  return b;
}
inline std::string num(double d) {
  if (std::isnan(d)) return "NAN";
  if (std::isinf(d)) return d > 0 ? "INFINITY" : "-INFINITY";
  return fmt("%.17g", d);
}
inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32) o += fmt("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*) p;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { uint64_t w; memcpy(&w, c + i, 8); h = (h ^ w) * 1099511628211ull; h ^= h >> 29; }
  for (; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  h ^= h >> 32; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
  return h;
}
inline uint64_t fnv(const std::vector<double>& v) { return fnv(v.data(), v.size() * sizeof(double)); }

// ------------------------------------------------------------------ report
static char g_cur[8192]; // description of the execution being explored, for crashes
static const char* g_out = nullptr;
inline void crashHandler(int sig) {
  // plain write(): the process state may be corrupt
  if (g_out) {
    std::string p = std::string(g_out) + ".crash";
    FILE* f = fopen(p.c_str(), "w");
    if (f) { fprintf(f, "signal %d while exploring:\n%s\n", sig, g_cur); fclose(f); }
  }
  _exit(99);
}
// A call into the library that does not return: no counter of the report has
// moved for a long stretch of processor time.
static const volatile uint64_t* g_progress[6];
static int g_stall = 0, g_stallLimit = 0;
inline void watchdog(int) {
  static uint64_t last = ~0ull; static char lastCur[256];
  uint64_t s = 0;
  for (const volatile uint64_t* p : g_progress) s += *p;
  if (s != last || strncmp(lastCur, g_cur, 255)) { last = s; strncpy(lastCur, g_cur, 255); g_stall = 0; return; }
  if (++g_stall < g_stallLimit) return;
  if (g_out) {
    std::string p = std::string(g_out) + ".crash";
    FILE* f = fopen(p.c_str(), "w");
    if (f) { fprintf(f, "a call did not return within %d s of processor time; last exploration step:\n%s\n", g_stallLimit * 5, g_cur); fclose(f); }
  }
  _exit(98);
}

struct Report {
  std::string out, tier = "quick";
  int shard = 0, nshards = 1;
  bool thorough = false;
  uint64_t states = 0, transitions = 0, evals = 0, nontrivial = 0, traces = 0, item = 0;
  std::unordered_set<uint64_t> outcomes; // distinct observed results
  std::vector<std::string> samples, notes;
  struct V { std::string what, replay; };
  std::vector<V> viol;
  std::map<std::string, std::string> known; // key -> text, for candidates of the known-findings file
  std::map<std::string, double> maxm;       // measured maxima (errors)
  std::map<std::string, uint64_t> counts;   // further counters, summed
  bool exhaustive = true;
  size_t maxviol = 10;

  Report(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      if (a == "--out") out = argv[++i];
      else if (a == "--shard") { sscanf(argv[++i], "%d/%d", &shard, &nshards); }
      else if (a == "--tier") tier = argv[++i];
    }
    thorough = tier == "thorough";
    g_out = out.empty() ? nullptr : strdup(out.c_str());
    stack_t ss; ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crashHandler; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    const volatile uint64_t* pr[6] = {&states, &transitions, &evals, &nontrivial, &traces, &item};
    std::copy(pr, pr + 6, g_progress);
    g_stallLimit = thorough ? 80 : 12;
    sa.sa_handler = watchdog; sa.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGVTALRM, &sa, nullptr);
    struct itimerval it; it.it_interval.tv_sec = it.it_value.tv_sec = 5; it.it_interval.tv_usec = it.it_value.tv_usec = 0;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
  }
  bool mine() { return int(item++ % nshards) == shard; }
  void cur(const std::string& s) { size_t n = std::min(s.size(), sizeof g_cur - 1); memcpy(g_cur, s.data(), n); g_cur[n] = 0; }
  void sample(const std::string& s, size_t cap = 4) { if (samples.size() < cap) samples.push_back(s); }
  void outcome(uint64_t h) { if (outcomes.size() < 400000) outcomes.insert(h); }
  void fail(const std::string& what, const std::string& replay) {
    V v = {what, replay}; viol.push_back(v);
    if (viol.size() >= maxviol) { notes.push_back(fmt("stopped after %zu violations in this shard", viol.size())); exhaustive = false; finish(); _exit(1); }
  }
  void maximum(const std::string& k, double v) { double& m = maxm[k]; if (!(v <= m)) m = v; }
  int finish() {
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"states\":%llu,\"transitions\":%llu,\"evals\":%llu,\"nontrivial\":%llu,\"traces\":%llu,\"exhaustive\":%s,\n",
            (unsigned long long) states, (unsigned long long) transitions, (unsigned long long) evals,
            (unsigned long long) nontrivial, (unsigned long long) traces, exhaustive ? "true" : "false");
    fprintf(f, "\"outcomes\":%llu,\n\"samples\":[", (unsigned long long) outcomes.size());
    for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? "," : "", jstr(samples[i]).c_str());
    fprintf(f, "],\n\"notes\":[");
    for (size_t i = 0; i < notes.size(); ++i) fprintf(f, "%s%s", i ? "," : "", jstr(notes[i]).c_str());
    fprintf(f, "],\n\"max\":{");
    bool c = false;
    for (auto& k : maxm) { fprintf(f, "%s%s:%s", c ? "," : "", jstr(k.first).c_str(), std::isfinite(k.second) ? fmt("%.6g", k.second).c_str() : "1e999"); c = true; }
    fprintf(f, "},\n\"counts\":{");
    c = false;
    for (auto& k : counts) { fprintf(f, "%s%s:%llu", c ? "," : "", jstr(k.first).c_str(), (unsigned long long) k.second); c = true; }
    fprintf(f, "},\n\"known\":{");
    c = false;
    for (auto& k : known) { fprintf(f, "%s%s:%s", c ? "," : "", jstr(k.first).c_str(), jstr(k.second).c_str()); c = true; }
    fprintf(f, "},\n\"violations\":[");
    for (size_t i = 0; i < viol.size(); ++i)
      fprintf(f, "%s{\"what\":%s,\"replay\":%s}", i ? "," : "", jstr(viol[i].what).c_str(), jstr(viol[i].replay).c_str());
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    return viol.empty() ? 0 : 1;
  }
};

// --------------------------------------------------------------- comparing
// equal up to rounding; NaN equals NaN, infinities must agree
inline bool near(double a, double b, double rel = 1e-12, double abs = 1e-15) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
inline int firstDiff(const std::vector<double>& a, const std::vector<double>& b, double rel = 1e-12, double abs = 1e-15) {
  if (a.size() != b.size()) return (int) std::min(a.size(), b.size());
  for (size_t i = 0; i < a.size(); ++i) if (!near(a[i], b[i], rel, abs)) return (int) i;
  return -1;
}

// -------------------------------------------------------------- operations
enum Res { OK, REJ, OTHER };
struct Op {
  enum T { SETUPN, SETUP, RESET, FILTER, QUERY, ELSE, RENEW, POKE } t = SETUPN;
  int order = NO_ORDER, np = -1;
  double fs = 0;
  std::vector<double> p;
};
inline Res apply(IFilter& f, const Op& o) {
  try {
    switch (o.t) {
    case Op::SETUPN: f.setupN(o.order, o.p.data(), o.np); break;
    case Op::SETUP: f.setup(o.order, o.fs, o.p.data(), o.np); break;
    case Op::RESET: f.reset(); break;
    case Op::POKE: for (int i = 0; i < f.maxStages(); ++i) f.raw(i)->setCoefficients(2, 0.25, 0.5, 1, -0.5 - i, 0.25); break;
    case Op::FILTER: for (double x : o.p) f.filter(x); break;
    case Op::QUERY:
      f.response(0.0); f.response(0.2); f.response(0.5);
      f.poleZeros();
      for (int i = 0; i < f.numStages(); ++i) f.used(i);
      break;
    default: break;
    }
  } catch (const std::invalid_argument&) { return REJ; }
  catch (...) { return OTHER; }
  return OK;
}
// ELSE: the same call on another object of the class
inline Op opElse(const Op& o) { Op r = o; r.t = Op::SETUPN; return r; }
inline std::string cxx(const Op& o, const char* v = "f") {
  std::string s;
  if (o.t == Op::SETUPN && o.p.size() >= 6) { // SOSCascade
    s = std::string("{ const double c[][6] = {");
    for (size_t i = 0; i < o.p.size(); ++i) s += (i % 6 == 0 ? (i ? "},{" : "{") : ",") + num(o.p[i]);
    return s + "}}; " + v + ".setup(c); }";
  }
  if (o.t == Op::SETUPN || o.t == Op::SETUP) {
    s = std::string(v) + (o.t == Op::SETUP ? ".setup(" : ".setupN(");
    bool c = false;
    if (o.order != NO_ORDER) { s += fmt("%d", o.order); c = true; }
    if (o.t == Op::SETUP) { s += (c ? ", " : "") + num(o.fs); c = true; }
    size_t n = o.np >= 0 ? (size_t) o.np : o.p.size();
    for (size_t i = 0; i < n; ++i) { s += (c ? ", " : "") + num(o.p[i]); c = true; }
    return s + ");";
  }
  if (o.t == Op::RESET) return std::string(v) + ".reset();";
  if (o.t == Op::FILTER) { for (double x : o.p) s += std::string(v) + ".filter(" + num(x) + "); "; return s; }
  if (o.t == Op::ELSE) return "{ /* another object of the same class */ static decltype(f) g; " + (o.p.empty() ? std::string() : cxx(opElse(o), "g")) + " g.filter(1.0); }";
  if (o.t == Op::RENEW) return std::string("{ typedef decltype(") + v + ") F; " + v + ".~F(); new (&" + v + ") F; }";
  if (o.t == Op::POKE) return std::string("/* coefficients written into all stages through getCascadeStorage() (cookbook filters: setCoefficients) of ") + v + " */";
  return std::string("/* response / pole-zero / coefficient queries on ") + v + " */";
}
inline std::string cxx(const Meta& m, const std::vector<Op>& h) {
  std::string s = "Iir::" + m.name + " f;\n";
  for (const Op& o : h)
    s += (o.t == Op::SETUPN || o.t == Op::SETUP) ? "try { " + cxx(o) + " } catch (std::invalid_argument&) {}\n" : cxx(o) + "\n";
  return s;
}
inline Op opN(int order, std::vector<double> p) { Op o; o.order = order; o.p = p; return o; }
inline Op opFilter(std::vector<double> p) { Op o; o.t = Op::FILTER; o.p = p; return o; }
inline Op opT(Op::T t) { Op o; o.t = t; return o; }

// everything a user can see of a configured filter (leaves the filter reset)
static const double PROBE[] = {1, 0, 0, 0, -0.5, 0.1, 1, 1.0 / 3, -1, 0, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0};
inline std::vector<double> coefs(IFilter& f) {
  std::vector<double> v;
  v.push_back(f.numStages());
  for (int i = 0; i < f.maxStages(); ++i) {
    Coef c = f.stage(i);
    for (double d : {c.a0, c.a1, c.a2, c.b0, c.b1, c.b2}) v.push_back(d);
  }
  return v;
}
inline std::vector<double> signature(IFilter& f, bool withPZ = true) {
  std::vector<double> v = coefs(f);
  for (double fr : {0.0, 0.07, 0.25, 0.4, 0.5}) { cplx r = f.response(fr); v.push_back(r.real()); v.push_back(r.imag()); }
  if (withPZ) {
    try {
      std::vector<Iir::PoleZeroPair> pz = f.poleZeros();
      v.push_back((double) pz.size());
      for (auto& q : pz)
        for (cplx c : {q.poles.first, q.poles.second, q.zeros.first, q.zeros.second}) { v.push_back(c.real()); v.push_back(c.imag()); }
    } catch (const std::invalid_argument&) { v.push_back(-1); }
  }
  f.reset();
  for (double x : PROBE) v.push_back(f.filter(x));
  f.reset();
  return v;
}
inline std::string sigName(IFilter& f, int i) {
  int n = 1 + 6 * f.maxStages();
  if (i == 0) return "number of stages in use";
  if (i < n) { static const char* c[] = {"a0", "a1", "a2", "b0", "b1", "b2"}; return fmt("coefficient %s of stage %d", c[(i - 1) % 6], (i - 1) / 6); }
  i -= n;
  if (i < 10) return fmt("response value %d", i / 2);
  return fmt("pole/zero report or filter output (entry %d)", i - 10);
}

inline bool isSetup(const Op& o) { return o.t == Op::SETUPN || o.t == Op::SETUP; }

// fixed, zeroed place for the object under exploration
struct Arena {
  unsigned char* mem; size_t n; IFilter* f = nullptr;
  explicit Arena(size_t bytes) : n((bytes + 63) & ~size_t(63)) {
    mem = (unsigned char*) mmap(nullptr, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  }
  ~Arena() { drop(); munmap(mem, n + 4096); }
  void drop() { if (f) { f->~IFilter(); f = nullptr; } }
  IFilter& fresh(const Entry& e, int fill = 0) { drop(); memset(mem, fill, n); f = e.make(mem); return *f; }
  // a new object in the memory of the old one
  IFilter& renew(const Entry& e) { drop(); f = e.make(mem); return *f; }
  uint64_t hash() const { return fnv(mem, n); }
};

// Runs fn in a forked child of the pristine process and returns what it pushes.
template <class Fn> bool inChild(std::vector<double>& res, Fn fn) {
  static double* sh = (double*) mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh[0] = -1;
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    alarm(100); // a call that never returns ends the child, which is then reported
    std::vector<double> v = fn();
    sh[0] = (double) v.size();
    memcpy(sh + 1, v.data(), v.size() * sizeof(double));
    _exit(0);
  }
  int st; waitpid(p, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) || sh[0] < 0) return false;
  res.assign(sh + 1, sh + 1 + (size_t) sh[0]);
  return true;
}

// --------------------------------------------------------------- alphabets
static const double INF = std::numeric_limits<double>::infinity();
static const double QNAN = std::numeric_limits<double>::quiet_NaN();

// legal values of one parameter; [0] is the base value
inline std::vector<double> values(Role r, bool more = false) {
  switch (r) {
  case FREQ: return more ? std::vector<double>{0.2, 0.05, 0.1, 0.125, 0.25, 0.3, 0.4, 0.45} : std::vector<double>{0.2, 0.1, 0.25, 0.4};
  case WIDTH: return more ? std::vector<double>{0.06, 0.02, 0.04, 0.08, 0.09} : std::vector<double>{0.06, 0.02, 0.09};
  case GAIN: return more ? std::vector<double>{6, 3, 12, 24, -3, -6, -12, -24, 0.5, -0.5} : std::vector<double>{6, -6, 12, -3};
  case RIPPLE: return more ? std::vector<double>{1, 0.1, 0.5, 2, 3, 6} : std::vector<double>{1, 0.1, 3};
  case ATT: return more ? std::vector<double>{20, 6, 10, 30, 40, 60} : std::vector<double>{20, 10, 40};
  case QF: return more ? std::vector<double>{1, 0.5, 0.70710678118654752, 2, 5, 10} : std::vector<double>{1, 0.5, 5};
  case BW: return more ? std::vector<double>{1, 0.25, 0.5, 2, 3} : std::vector<double>{1, 0.5, 2};
  case SLOPE: return more ? std::vector<double>{1, 0.3, 0.5, 0.8, 0.95} : std::vector<double>{1, 0.5, 0.9};
  }
  return {};
}
// ripple of the Chebyshev shelves: only passband ripple; ChebyshevII shelves take it too
inline std::vector<double> valuesFor(const Meta& m, size_t i, bool more = false) {
  Role r = m.roles[i];
  if (m.shelf() && r == ATT) return values(RIPPLE, more);
  return values(r, more);
}
// three tables of stable sections for SOSCascade<n>
inline std::vector<double> sosTable(int n, int k) {
  static const double s[4][6] = {{0.5, 1, 0.5, 1, -0.5, 0.25}, {1, -2, 1, 2, 1, 0.5}, {0.25, 0, -0.25, 1, 0.25, -0.125}, {1, 0, 0, 1, -0.75, 0}};
  std::vector<double> v;
  for (int i = 0; i < n; ++i) for (int j = 0; j < 6; ++j) v.push_back(s[(i * (k + 1) + k) % 4][j]);
  return v;
}
inline std::vector<double> base(const Meta& m) {
  if (m.fam == SOS) return sosTable(m.cap, 0);
  std::vector<double> p;
  for (size_t i = 0; i < m.roles.size(); ++i) p.push_back(valuesFor(m, i)[0]);
  return p;
}
// legal configurations: every parameter varied alone (also by 1e-9), some
// jointly, and every order
inline std::vector<Op> legal(const Meta& m, bool more = false) {
  std::vector<Op> r;
  if (m.fam == SOS) { for (int k = 0; k < 4; ++k) r.push_back(opN(NO_ORDER, sosTable(m.cap, k))); return r; }
  std::vector<double> b = base(m);
  int top = m.pole() ? m.cap : NO_ORDER;
  r.push_back(opN(m.pole() ? NO_ORDER : NO_ORDER, b));
  if (m.pole()) for (int o = 1; o <= m.cap; ++o) r.push_back(opN(o, b));
  for (size_t i = 0; i < b.size(); ++i) {
    std::vector<double> vs = valuesFor(m, i, more);
    for (size_t k = 1; k < vs.size(); ++k) { std::vector<double> p = b; p[i] = vs[k]; r.push_back(opN(top, p)); }
    std::vector<double> p = b; p[i] *= 1 + 1e-9;
    if (m.roles[i] != SLOPE) r.push_back(opN(top, p));
    p = b; p[i] = vs[1]; if (m.pole() && m.cap > 1) r.push_back(opN(m.cap - 1, p));
  }
  // all parameters changed together
  std::vector<double> p;
  for (size_t i = 0; i < b.size(); ++i) p.push_back(valuesFor(m, i)[1]);
  r.push_back(opN(top, p));
  if (m.pole()) r.push_back(opN(m.cap > 2 ? 2 : 1, p));
  return r;
}
// calls that must be rejected
inline std::vector<Op> illegal(const Meta& m) {
  std::vector<Op> r;
  if (m.fam == SOS) { // a NaN in one row, in every column, and a row divided by 0
    for (int k = 0; k < 6; ++k) { std::vector<double> t = sosTable(m.cap, 1 + k % 3); t[6 * (k * m.cap / 6) + k] = QNAN; r.push_back(opN(NO_ORDER, t)); }
    std::vector<double> t = sosTable(m.cap, 3);
    t[6 * (m.cap - 1) + 3] = 0; t[6 * (m.cap - 1)] = 0; r.push_back(opN(NO_ORDER, t));
    t = sosTable(m.cap, 2); t.back() = QNAN; r.push_back(opN(NO_ORDER, t));
    return r;
  }
  std::vector<double> b = base(m);
  if (m.pole()) { r.push_back(opN(m.cap + 1, b)); r.push_back(opN(-1, b)); }
  for (size_t i = 0; i < b.size(); ++i) {
    std::vector<double> bad;
    switch (m.roles[i]) {
    case FREQ: bad = {0.5, -0.1, QNAN}; break;
    case WIDTH: bad = {-0.05, QNAN}; break;
    case GAIN: bad = {QNAN}; break;
    case RIPPLE: case ATT: bad = {QNAN}; if (m.kind == LP || m.kind == HP || m.kind == BP || m.kind == BS) bad.push_back(-1); break;
    case QF: case BW: bad = {-1, QNAN}; break;
    case SLOPE: bad = {QNAN}; break;
    }
    for (double d : bad) {
      std::vector<double> p = b; p[i] = d; r.push_back(opN(m.pole() ? m.cap : NO_ORDER, p));
      if (m.pole() && m.cap > 2) r.push_back(opN(m.cap - 2, p)); // rejected with another order than the one in use
    }
  }
  return r;
}

// at most n calls, evenly spread, the first included
inline std::vector<Op> thinned(const std::vector<Op>& v, size_t n) {
  if (v.size() <= n) return v;
  std::vector<Op> r;
  for (size_t i = 0; i < n; ++i) r.push_back(v[i * v.size() / n]);
  return r;
}
// band designs whose edges are beyond 0 or Nyquist (accepted; the edge is moved inside)
inline std::vector<Op> clamped(const Meta& m) {
  std::vector<Op> r;
  if (!m.band() || !m.pole()) return r;
  const double e[][2] = {{0.4, 0.3}, {0.1, 0.3}, {0.45, 0.2}, {0.03, 0.1}, {0.25, 0.6}};
  for (auto& x : e) { std::vector<double> p = base(m); p[0] = x[0]; p[1] = x[1]; r.push_back(opN(m.cap > 1 ? m.cap - 1 : 1, p)); }
  return r;
}
// two arguments changed so that their sum, difference, product or quotient is
// that of the base call, and an order and an argument with the same sum
inline std::vector<Op> correlated(const Meta& m) {
  std::vector<Op> r;
  if (m.fam == SOS) return r;
  std::vector<double> b = base(m);
  int top = m.pole() ? m.cap : NO_ORDER;
  for (size_t i = 0; i < b.size(); ++i)
    for (size_t j = i + 1; j < b.size(); ++j) {
      double d = std::min(b[i], b[j]) >= 1 ? 0.25 : 0.015625;
      const double v[][2] = {{b[i] + d, b[j] - d}, {b[i] - d, b[j] - d}, {b[i] * 2, b[j] / 2}, {b[i] / 2, b[j] / 2}};
      for (int k = 0; k < 4; ++k) { std::vector<double> p = b; p[i] = v[k][0]; p[j] = v[k][1]; r.push_back(opN(top, p)); }
    }
  if (m.pole() && m.cap > 2) for (size_t i = 0; i < b.size(); ++i) if (b[i] >= 1) { std::vector<double> p = b; p[i] += 1; r.push_back(opN(m.cap - 1, p)); }
  return r;
}
// two legal calls at opposite corners of the parameter space
inline std::vector<Op> corners(const Meta& m) {
  std::vector<Op> r;
  if (m.fam == SOS) return r;
  for (int hi = 0; hi < 2; ++hi) {
    std::vector<double> p;
    for (size_t i = 0; i < m.roles.size(); ++i) {
      Role q = m.roles[i]; double lo = 0, up = 0;
      if (m.shelf() && q == ATT) q = RIPPLE;
      switch (q) {
      case FREQ: lo = 0.03; up = 0.46; break;
      case WIDTH: lo = 0.02; up = 0.05; break;
      case GAIN: lo = -24; up = 24; break;
      case RIPPLE: lo = 0.1; up = 3; break;
      case ATT: lo = 10; up = 60; break;
      case QF: lo = 0.2; up = 10; break;
      case BW: lo = 0.2; up = 3; break;
      case SLOPE: lo = 0.3; up = 0.95; break;
      }
      p.push_back(hi ? up : lo);
    }
    r.push_back(opN(m.pole() ? m.cap : NO_ORDER, p));
  }
  return r;
}

// legal calls with values at which a formula degenerates or invites a special
// case: neutral gains, exact halves and quarters, very small and very large
inline std::vector<Op> specials(const Meta& m) {
  std::vector<Op> r;
  if (m.fam == SOS) {
    for (int k = 0; k < 3; ++k) { // a muted section, a section which passes everything, all of them pass everything
      std::vector<double> t = sosTable(m.cap, k);
      for (int j = 0; j < 6; ++j) { if (k == 0) { if (j < 3) t[6 * (m.cap / 2) + j] = 0; } else if (k == 1) t[6 * (m.cap / 2) + j] = j == 0 || j == 3; else for (int i = 0; i < m.cap; ++i) t[6 * i + j] = j == 0 || j == 3; }
      r.push_back(opN(NO_ORDER, t));
    }
    return r;
  }
  std::vector<double> b = base(m);
  const bool cheb = m.shelf() && m.fam != BUTTER && m.pole();
  for (size_t i = 0; i < b.size(); ++i) {
    std::vector<double> v;
    Role q = m.roles[i];
    if (m.shelf() && q == ATT) q = RIPPLE;
    switch (q) {
    case FREQ: v = {0.25, 1.0 / 6}; if (!(m.pole() && m.band()) && m.kind != R_BSH) { v.push_back(1e-4); v.push_back(0.4999); } break;
    case WIDTH: v = {0.25, 1e-3}; break;
    case GAIN: v = {60, -60}; if (!cheb) for (double d : {0.0, -0.0, 0.004, -1e-6}) v.push_back(d); break;
    case RIPPLE: v = {0.001, 3.0102999566398120}; break;
    case ATT: v = {3.0102999566398120, 96}; break;
    case QF: v = {0.5, 0.70710678118654752, 0.03, 200}; break;
    case BW: v = {2, 0.01}; break;
    case SLOPE: v = {1, 0.999999, 0.01}; break;
    }
    for (double d : v) { std::vector<double> p = b; p[i] = d; r.push_back(opN(m.pole() ? m.cap : NO_ORDER, p)); if (m.pole() && m.cap > 1 && q == GAIN) r.push_back(opN(m.cap - 1, p)); }
  }
  return r;
}

// dense lines: calls in which one argument moves over its range in N small
// steps while the others stand still (two base points), for all orders up to
// `orders`; fn(op) returns whether to go on along the line
template <class F> void denseLines(Report& R, const Meta& m, int N, int orders, F fn) {
  if (m.fam == SOS) return;
  const int chunks = 8;
  for (int n = 1; n <= (m.pole() ? std::min(m.cap, orders) : 1); ++n) for (size_t v = 0; v < m.roles.size() + 1; ++v) for (int b = 0; b < (v == m.roles.size() ? 1 : m.band() && m.pole() && v < 2 ? 3 : 2); ++b) {
    std::vector<double> x;
    for (size_t i = 0; i < m.roles.size(); ++i) {
      Role q = m.roles[i] == ATT && m.shelf() ? RIPPLE : m.roles[i];
      x.push_back(q == FREQ ? (b ? 0.137 : 0.31) : q == WIDTH ? (b ? 0.087 : 0.19) : q == GAIN ? (b ? -9.3 : 7.1) : q == RIPPLE ? (b ? 0.37 : m.shelf() ? 0.23 : 1.9) : q == ATT ? (b ? 23 : 47) : q == QF ? (m.kind == R_NOTCH ? (b ? 12 : 4) : b ? 2.3 : 0.63) : q == BW ? (b ? 0.4 : 1.3) : b ? 0.87 : 0.55);
    }
    const bool pb = m.band() && m.pole();
    if (b == 2) x[0] = 0.05, x[1] = 0.006; // a narrow band: only its place and width
    for (int c = 0; c < chunks; ++c) {
      if (!R.mine()) continue;
      for (int i = c; i <= N; i += chunks) {
        const double u = double(i) / N;
        auto lg = [&](double lo, double hi) { return lo * std::pow(hi / lo, u); };
        if (v == m.roles.size()) { // all arguments at once: the points of a lattice, in the middle of the ranges
          static const double alpha[] = {0.8566748838545029, 0.7338918566271259, 0.6287067210378087, 0.5385972572236101};
          double t[4];
          for (int k = 0; k < 4; ++k) t[k] = std::fmod(i * alpha[k], 1.0);
          auto pw = [](double lo, double hi, double z) { return lo * std::pow(hi / lo, z); };
          for (size_t k = 0; k < m.roles.size(); ++k) {
            Role q = m.roles[k] == ATT && m.shelf() ? RIPPLE : m.roles[k];
            x[k] = q == FREQ ? (pb ? 0.06 + 0.38 * t[k] : 0.02 + 0.46 * t[k]) : q == WIDTH ? pw(0.02, 2 * std::min(x[0] - 0.02, 0.48 - x[0]), t[k]) : q == GAIN ? (t[k] < 0.5 ? -1 : 1) * pw(1, 30, std::fmod(2 * t[k], 1.0)) :
              q == RIPPLE ? (m.shelf() ? pw(0.05, 0.8, t[k]) * std::fabs(x[k - 1]) : pw(0.05, 6, t[k])) : q == ATT ? pw(6, 50, t[k]) : q == QF ? pw(0.3, 30, t[k]) : q == BW ? pw(0.1, 2.5, t[k]) : 0.1 + 0.9 * t[k];
          }
        } else switch (m.roles[v]) {
        case FREQ: x[0] = b == 2 ? (i & 1 ? lg(0.0051, 0.4949) : 0.5 - lg(0.0051, 0.4949)) : pb ? 0.0021 + x[1] / 2 + (0.4958 - x[1]) * u : i & 1 ? lg(0.002, 0.498) : 0.5 - lg(0.002, 0.498); break;
        case WIDTH: x[1] = lg(0.003, 2 * std::min(x[0] - 0.0021, 0.4979 - x[0])); break;
        case GAIN: x[v] = -40 + 80 * u; if (m.pole() && m.fam != BUTTER && std::fabs(x[v]) <= 1.05 * x.back()) continue; break;
        case RIPPLE: case ATT: x[v] = m.shelf() ? lg(0.02, 0.9 * std::fabs(x[pb ? 2 : 1])) : m.roles[v] == RIPPLE ? lg(0.01, 15) : lg(2, 58); break;
        case QF: x[v] = lg(0.02, 500); break;
        case BW: x[v] = lg(0.01, 5); break;
        case SLOPE: x[v] = lg(0.02, 1); break;
        }
        if (m.kind == R_BSH && std::log(2.0) / 2 * x[2] * 2 * M_PI * x[0] / std::sin(2 * M_PI * x[0]) > 4) continue;
        if (!fn(opN(m.pole() ? n : NO_ORDER, x))) break;
      }
    }
  }
}

} // namespace mc
