// C36: the filters have no effect on the program around them: whatever is
// called, the floating point control state, the standard streams and their
// formatting, locale, handlers, signal actions, environment, random number
// generators, files and descriptors, working directory, threads and children
// of the process are what they were, nothing is printed, and memory taken
// during a call (exceptions, reports) is given back.  All call histories up to
// a depth, the state of the process compared after every call.
#include "core.hpp"
#include <clocale>
#include <csignal>
#include <cwchar>
#include <stdio_ext.h>
#include <dirent.h>
#include <fcntl.h>
#include <iostream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <xmmintrin.h>
using namespace mc;

// ------------------------------------------------------------ live memory
static volatile long live = 0;
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); void __libc_free(void*);
void* malloc(size_t n) { live++; return __libc_malloc(n); }
void* calloc(size_t n, size_t m) { live++; return __libc_calloc(n, m); }
void* realloc(void* p, size_t n) { if (!p) live++; return __libc_realloc(p, n); }
void free(void* p) { if (p) live--; __libc_free(p); }
void* memalign(size_t a, size_t n) { live++; return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { live++; return __libc_memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { live++; *r = __libc_memalign(a, n); return 0; }
}

// ----------------------------------------------------- state of the process
extern char** environ;
static char rngState[256];
struct World { // after every call
  unsigned mxcsr; unsigned short x87; // control bits
  std::ios_base::fmtflags fl[3]; std::streamsize prec[3], width[3]; char fill[3]; int state[3], exc[3]; void* buf[3]; void* tie[3];
  uint64_t locale, cpplocale, env, rng; unsigned short rng48[3];
  void *term, *neu; const void* punct; size_t bufs[3]; int lines[3], wide[3];
};
static void look(World& w) {
  memset(&w, 0, sizeof w);
  w.mxcsr = _mm_getcsr(); // all exception flags are set before, nothing may clear them
  asm volatile("fnstcw %0" : "=m"(w.x87));
  std::ostream* o[3] = {&std::cout, &std::cerr, &std::clog};
  for (int i = 0; i < 3; ++i) { w.fl[i] = o[i]->flags(); w.prec[i] = o[i]->precision(); w.width[i] = o[i]->width(); w.fill[i] = o[i]->fill(); w.state[i] = o[i]->rdstate(); w.exc[i] = o[i]->exceptions(); w.buf[i] = o[i]->rdbuf(); w.tie[i] = o[i]->tie(); }
  const char* l = setlocale(LC_ALL, nullptr); w.locale = fnv(l, strlen(l));
  { std::locale g; w.cpplocale = fnv(g.name().c_str(), g.name().size()); w.punct = &std::use_facet<std::numpunct<char>>(g); }
  FILE* fs[3] = {stdin, stdout, stderr}; for (int i = 0; i < 3; ++i) { w.bufs[i] = i ? __fbufsize(fs[i]) : 0; w.lines[i] = __flbf(fs[i]); w.wide[i] = fwide(fs[i], 0); }
  w.env = 1; for (char** e = environ; *e; ++e) w.env = fnv(*e, strlen(*e), w.env);
  w.rng = fnv(rngState, sizeof rngState);
  unsigned short z[3] = {1, 2, 3}; unsigned short* old = seed48(z); memcpy(w.rng48, old, 6); unsigned short back[3]; memcpy(back, w.rng48, 6); seed48(back);
  w.term = (void*) std::get_terminate(); w.neu = (void*) std::get_new_handler();
}
static std::string differ(const World& a, const World& b) {
  if (a.mxcsr != b.mxcsr) return fmt("the floating point control register (rounding, denormals, exception masks: %#x became %#x)", a.mxcsr, b.mxcsr);
  if (a.x87 != b.x87) return fmt("the x87 control word (%#x became %#x)", a.x87, b.x87);
  static const char* n[3] = {"std::cout", "std::cerr", "std::clog"};
  for (int i = 0; i < 3; ++i) {
    if (a.fl[i] != b.fl[i] || a.prec[i] != b.prec[i] || a.width[i] != b.width[i] || a.fill[i] != b.fill[i]) return std::string("the formatting of ") + n[i];
    if (a.state[i] != b.state[i] || a.exc[i] != b.exc[i] || a.buf[i] != b.buf[i] || a.tie[i] != b.tie[i]) return std::string("the state or buffer of ") + n[i];
  }
  if (a.locale != b.locale || a.cpplocale != b.cpplocale || a.punct != b.punct) return "the locale";
  if (memcmp(a.bufs, b.bufs, sizeof a.bufs) || memcmp(a.lines, b.lines, sizeof a.lines) || memcmp(a.wide, b.wide, sizeof a.wide)) return "the buffering or orientation of stdin, stdout or stderr";
  if (a.env != b.env) return "the environment";
  if (a.rng != b.rng || memcmp(a.rng48, b.rng48, 6)) return "the random number generators of the C library";
  if (a.term != b.term || a.neu != b.neu) return "the terminate or new handler";
  return memcmp(&a, &b, sizeof a) ? "the state of the process" : "";
}
static int countDir(const char* d) { DIR* x = opendir(d); int n = 0; if (!x) return -1; while (readdir(x)) n++; closedir(x); return n; }
struct Outer { // after every history
  uint64_t actions, cwd; int mask, fds, files, threads, nice; uint64_t limits, sigs; long children; struct itimerval real, prof;
};
static char scratch[] = "/tmp/iirmc-c36-XXXXXX";
static void look(Outer& w) {
  memset(&w, 0, sizeof w);
  w.actions = 1;
  for (int s = 1; s < 32; ++s) { struct sigaction sa; memset(&sa, 0, sizeof sa); if (!sigaction(s, nullptr, &sa)) { void* h = (void*) sa.sa_handler; w.actions = fnv(&h, sizeof h, w.actions); w.actions = fnv(&sa.sa_flags, sizeof sa.sa_flags, w.actions); } }
  char b[4096]; if (getcwd(b, sizeof b)) w.cwd = fnv(b, strlen(b));
  w.mask = umask(0); umask(w.mask);
  w.fds = countDir("/proc/self/fd"); w.files = countDir("."); w.threads = countDir("/proc/self/task");
  w.nice = getpriority(PRIO_PROCESS, 0);
  w.limits = 1; for (int r : {RLIMIT_CORE, RLIMIT_STACK, RLIMIT_AS, RLIMIT_DATA, RLIMIT_CPU, RLIMIT_NOFILE, RLIMIT_MEMLOCK}) { struct rlimit l; getrlimit((__rlimit_resource) r, &l); w.limits = fnv(&l, sizeof l, w.limits); }
  sigset_t ss; memset(&ss, 0, sizeof ss); sigprocmask(SIG_SETMASK, nullptr, &ss); w.sigs = fnv(&ss, 8); sigpending(&ss);
  getitimer(ITIMER_REAL, &w.real); getitimer(ITIMER_PROF, &w.prof); w.real.it_value = w.prof.it_value = timeval();
  siginfo_t si; memset(&si, 0, sizeof si); w.children = waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) == 0;
}
static std::string differ(const Outer& a, const Outer& b) {
  if (a.actions != b.actions || a.sigs != b.sigs) return "the signal actions or mask";
  if (a.cwd != b.cwd) return "the working directory";
  if (a.mask != b.mask) return "the file mode mask";
  if (a.fds != b.fds) return fmt("the number of open files (%d became %d)", a.fds, b.fds);
  if (a.files != b.files) return "the files in the working directory";
  if (a.threads != b.threads) return "the number of threads";
  if (a.children != b.children) return "the children of the process";
  return memcmp(&a, &b, sizeof a) ? "priority, limits or timers of the process" : "";
}

struct Step { Op o; int kind; }; // kind 0: op, 1: all sample types, 2: copy, 3: assign, 4: poles and zeros, 5: other users of the library, 6: queries
static const char* stepText(const Step& s) { static const char* t[] = {"", "f.filter() with samples of all types", "{ auto g = f; g.filter(1.0); }", "{ decltype(f) g; g = f; f = g; }", "f.getPoleZeros();", "{ OnePole, TwoPole and Biquad calls, accepted and rejected }", "f.response(...), out of range too"}; return t[s.kind]; }
static void others() {
  Iir::Custom::OnePole p; Iir::Custom::TwoPole q; Iir::Biquad b;
  try { Iir::DirectFormII st; p.setup(1, 0.5, -1); p.filter(1.0, st); p.response(0.2); p.getPoleZeros(); } catch (const std::invalid_argument&) {}
  try { p.setup(1, QNAN, 0); } catch (const std::invalid_argument&) {}
  try { Iir::DirectFormI st; q.setup(1, 0.9, 0.3, 1, 0.5); q.filter(1.0, st); q.getPoleZeros(); q.response(0.1); } catch (const std::invalid_argument&) {}
  try { q.setup(QNAN, 0.9, 0.3, 1, 0.5); } catch (const std::invalid_argument&) {}
  try { b.setCoefficients(1, 2, 3, 4, 5, 6); b.setTwoPole(cplx(0.1, 0.1), cplx(1), cplx(0.1, 0.2), cplx(1)); } catch (const std::invalid_argument&) {}
  try { b.setCoefficients(0, 0, 0, 0, 0, 0); } catch (const std::invalid_argument&) {}
  try { b.setOnePole(cplx(0.1, 0.1), cplx(1)); } catch (const std::invalid_argument&) {}
  try { b.setIdentity(); b.applyScale(QNAN); } catch (const std::invalid_argument&) {}
}
static void run(IFilter& f, const Entry& e, const Step& s) {
  static const double odd[] = {1, 5e-324, 1e-310, -1e300, INF, QNAN, 0, -0.0, 1e-40};
  switch (s.kind) {
  case 0: apply(f, s.o); break;
  case 1: for (double x : odd) { f.filter(x); f.filterF((float) x); } f.reset(); for (int x : {1, -7, 30000}) { f.filterI(x); f.filterS((short) x); f.filterL(x); } break;
  case 2: { std::unique_ptr<IFilter> g(f.clone()); g->filter(1.0); break; }
  case 3: { std::unique_ptr<IFilter> g(e.make(nullptr)); g->assign(f); f.assign(*g); f.assign(f); break; }
  case 4: for (int i = 0; i < 2; ++i) { try { f.poleZeros(); } catch (const std::invalid_argument&) {} try { f.poleZerosCascade(); } catch (const std::invalid_argument&) {} } break;
  case 5: others(); break;
  case 6: for (double fr : {0.0, 0.2, 0.5, -0.1, 0.7, QNAN, INF}) try { f.response(fr); } catch (const std::invalid_argument&) {} if (e.meta.pole()) for (int i : {-1, 0, 1000000}) try { f.used(i); } catch (const std::invalid_argument&) {} break;
  }
}
static Op hz(const Op& o, const Meta& m, double fs) { Op r = o; r.t = Op::SETUP; r.fs = fs; for (int i = 0; i < m.nfreq; ++i) r.p[i] *= fs; return r; }

int main(int argc, char** argv) {
  Report R(argc, argv);
  initstate(42, rngState, sizeof rngState);
  if (!mkdtemp(scratch) || chdir(scratch)) { R.fail("no scratch directory", ""); return R.finish(); }
  // a program with settings of its own
  std::cout.precision(9); std::cout << std::hex; std::cout.fill('*'); std::cerr.precision(3);
  setenv("IIRMC", "1", 1);
  if (!setlocale(LC_ALL, "C.UTF-8")) setlocale(LC_ALL, "C.utf8"); // where there is one
  struct OwnPunct : std::numpunct<char> { std::string do_truename() const { return "ja"; } };
  std::locale::global(std::locale(std::locale(), new OwnPunct));
  std::set_terminate([]() { abort(); }); std::set_new_handler([]() { throw std::bad_alloc(); });
  signal(SIGUSR1, SIG_IGN); signal(SIGFPE, [](int) { _exit(99); }); signal(SIGPIPE, SIG_IGN); umask(027);
  { sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGUSR2); sigprocmask(SIG_BLOCK, &ss, nullptr); }
  int cap = open("printed", O_RDWR | O_CREAT | O_TRUNC, 0600), o1 = dup(1), o2 = dup(2);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg); regSos(reg);
  const int depth = R.thorough ? 3 : 2;
  // default settings of the processor, and a program that wants other ones: rounding mode, flushed denormals
  const unsigned modes[] = {0, 0x8040, 0x2000};
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    std::vector<Step> al;
    std::vector<Op> l = legal(m), il = illegal(m), sp = specials(m), cl = clamped(m);
    for (const Op& o : thinned(l, 8)) al.push_back({o, 0});
    for (const Op& o : depth > 2 ? thinned(il, 8) : il) al.push_back({o, 0});
    for (const Op& o : thinned(sp, 6)) al.push_back({o, 0});
    for (const Op& o : thinned(cl, 2)) al.push_back({o, 0});
    if (m.fam != SOS) for (double fs : {44100.0, 0.0, QNAN}) al.push_back({hz(l[0], m, fs), 0});
    al.push_back({opT(Op::RESET), 0}); al.push_back({opT(Op::QUERY), 0}); al.push_back({opFilter({1, -0.5, 0}), 0});
    for (int k = 1; k <= 6; ++k) al.push_back({Op(), k});
    Arena a(e.size);
    std::vector<int> h;
    World w0, w1; Outer g0, g1;
    for (unsigned mode : modes) {
      for (size_t first = 0; first < al.size(); ++first) {
        if (!R.mine()) continue;
        R.cur(m.name + fmt(", histories that begin with operation %zu: ", first) + (al[first].kind ? stepText(al[first]) : cxx(al[first].o)));
        // what the library prints goes to a file
        std::string bad; std::vector<int> badh;
        fflush(stdout); std::cout.flush();
        dup2(cap, 1); dup2(cap, 2);
        int pass = 0; long grown[2] = {0, 0};
        std::function<void(int)> rec = [&](int d) {
          if (!bad.empty()) return;
          if (d == depth) {
            long l0 = live;
            a.fresh(e);
            for (int k = 0; k < d; ++k) {
              unsigned env = _mm_getcsr();
              _mm_setcsr((0x1fbf ^ mode));
              look(w0);
              run(*a.f, e, al[h[k]]);
              look(w1);
              _mm_setcsr(env);
              R.transitions++;
              if (memcmp(&w0, &w1, sizeof w0)) { bad = differ(w0, w1); badh = h; badh.resize(k + 1); return; }
            }
            a.drop();
            R.states++; R.traces++; R.evals++;
            if (live != l0) { grown[pass] += live - l0; badh = h; }
            return;
          }
          for (int i = 0; i < (int) al.size(); ++i) { if (d == 0 && i != (int) first) continue; h.push_back(i); rec(d + 1); h.pop_back(); }
        };
        // also one call again and again, in between another one
        auto again = [&]() {
          long l0 = live;
          for (int with : {(int) first, (int) al.size() - 7}) {
            a.fresh(e);
            _mm_setcsr(0x1fbf ^ mode); look(w0);
            for (int k = 0; k < 300; ++k) { run(*a.f, e, al[k % 2 ? with : first]); R.transitions++; }
            look(w1); _mm_setcsr(0x1f80);
            if (memcmp(&w0, &w1, sizeof w0) && bad.empty()) { bad = differ(w0, w1) + " (300 calls)"; badh = {(int) first, with}; }
          }
          a.drop();
          if (live != l0) { grown[pass] += live - l0; badh = {(int) first}; }
        };
        look(g0);
        for (pass = 0; pass < 2; ++pass) { rec(0); again(); } // memory which is taken once (first exception, for example) is no leak
        look(g1);
        fflush(stdout); fflush(stderr);
        std::cout.flush();
        dup2(o1, 1); dup2(o2, 2);
        off_t printed = lseek(cap, 0, SEEK_CUR);
        a.drop();
        auto text = [&]() { std::string s = "Iir::" + m.name + " f;\n"; if (mode) s += fmt("_mm_setcsr(%#x);\n", 0x1f80 ^ mode); for (int i : badh) s += (al[i].kind ? std::string(stepText(al[i])) : cxx(al[i].o)) + "\n"; return s; };
        if (bad.empty()) { std::string d = differ(g0, g1); if (!d.empty()) { bad = d; badh = {(int) first}; } }
        if (!bad.empty()) R.fail(m.name + ": a call changes " + bad, text());
        else if (grown[1] > 0) R.fail(m.name + fmt(": %ld blocks of memory are not given back", grown[1]), text());
        else if (printed) { badh = {(int) first}; R.fail(m.name + ": something is printed", text()); ftruncate(cap, 0); lseek(cap, 0, SEEK_SET); }
        R.outcome(fnv(&first, sizeof first, (uint64_t) al[first].kind * 77 + reg.size()) + (uint64_t) mode + (uint64_t) m.fam * 16 + (uint64_t) m.kind);
      }
    }
    R.sample(m.name + fmt(": all sequences of %d from %zu calls, three floating point modes", depth, al.size()));
  }
  int rc = R.finish();
  if (chdir("/") == 0) { unlink((std::string(scratch) + "/printed").c_str()); rmdir(scratch); }
  return rc;
}
