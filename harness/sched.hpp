// Run time of the thread explorers (C15, C31): the library is compiled with the
// thread sanitizer's instrumentation, whose run time is replaced by the
// functions below.  They own the order in which two threads run (one baton),
// record conflicting accesses (the switch points) and detect data races by
// happens-before over locks, atomics and guards of local statics.
#pragma once
#include "core.hpp"
#include <cstdarg>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
using namespace mc;

// ------------------------------------------------------------- run time
extern "C" char __data_start, _end;
namespace {
struct Cell { uintptr_t a; uint32_t w[2], r[2]; };
const size_t NC = 1 << 16;
struct Shared { // survives the child
  uint32_t ncells, points, switches, nconf, races, done;
  uintptr_t conf[4096], raceAt;
};
Cell* cells; // process private
Shared* sh;
uintptr_t known[4096]; int nknown; // conflicting bytes seen in earlier executions
int devs[8], ndev, bound;
int me_running; // baton holder
volatile bool active;
sem_t baton[2];
bool finished[2];
int nopreempt[2], atomics[2];
uint32_t vc[2][2];
struct Sync { uintptr_t a; uint32_t v[2]; } syncs[256]; int nsync;
char* stk[2]; const size_t STK = 1 << 20;
__thread int tid = -1;

// memory for which a race is reported: static data and, in C31, the shared object
uintptr_t objLo, objHi; bool anywhere;
bool raceCounts(uintptr_t b) { return anywhere || ((char*) b >= &__data_start && (char*) b < &_end) || (b >= objLo && b < objHi); }

Sync* syncOf(uintptr_t a) {
  for (int i = 0; i < nsync; ++i) if (syncs[i].a == a) return &syncs[i];
  if (nsync == 256) return &syncs[0];
  syncs[nsync].a = a; syncs[nsync].v[0] = syncs[nsync].v[1] = 0;
  return &syncs[nsync++];
}
void acq(uintptr_t a) { if (tid < 0 || !active) return; Sync* s = syncOf(a); for (int i = 0; i < 2; ++i) if (s->v[i] > vc[tid][i]) vc[tid][i] = s->v[i]; }
void rel(uintptr_t a) { if (tid < 0 || !active) return; Sync* s = syncOf(a); for (int i = 0; i < 2; ++i) if (vc[tid][i] > s->v[i]) s->v[i] = vc[tid][i]; vc[tid][tid]++; }

void switchTo(int o) {
  int m = tid;
  sh->switches++;
  me_running = o;
  sem_post(&baton[o]);
  while (sem_wait(&baton[m])) {}
}
void point() { // the current thread is about to touch shared memory
  if (tid < 0 || !active || nopreempt[tid] || finished[!tid]) return;
  int k = sh->points++;
  for (int i = 0; i < ndev; ++i) if (devs[i] == k) { switchTo(!tid); return; }
}
bool isKnown(uintptr_t a) {
  int l = 0, h = nknown;
  while (l < h) { int m = (l + h) / 2; if (known[m] < a) l = m + 1; else h = m; }
  return l < nknown && known[l] == a;
}
void access(void* p, size_t n, bool write, bool atomic = false) {
  if (tid < 0 || !active) return;
  uintptr_t a = (uintptr_t) p;
  if ((char*) p >= stk[tid] && (char*) p < stk[tid] + STK) return;
  for (size_t i = 0; i < n; ++i) if (isKnown(a + i)) { point(); break; }
  for (size_t i = 0; i < n; ++i) {
    uintptr_t b = a + i;
    size_t h = (b * 0x9E3779B97F4A7C15ull) >> 48;
    while (cells[h].a && cells[h].a != b) h = (h + 1) & (NC - 1);
    Cell& c = cells[h];
    if (!c.a) { if (sh->ncells > NC * 3 / 4) return; sh->ncells++; c.a = b; }
    int o = !tid;
    bool conflict = c.w[o] || (write && c.r[o]);
    if (conflict && !isKnown(b) && sh->nconf < 4096) {
      bool dup = false;
      for (uint32_t k = 0; k < sh->nconf; ++k) dup = dup || sh->conf[k] == b;
      if (!dup) sh->conf[sh->nconf++] = b;
    }
    if (!atomic && (c.w[o] > vc[tid][o] || (write && c.r[o] > vc[tid][o])) && raceCounts(b)) {
      if (!sh->races++) sh->raceAt = b;
    }
    if (!atomic) { if (write) c.w[tid] = vc[tid][tid]; else c.r[tid] = vc[tid][tid]; }
    else { // atomics conflict (switch points) but do not race with each other
      if (write) { if (!c.w[tid]) c.w[tid] = 1; } else if (!c.r[tid]) c.r[tid] = 1;
    }
  }
}
void atomicOp(void* p, size_t n, bool write) {
  if (tid < 0 || !active) return;
  access(p, n, write, true);
  acq((uintptr_t) p); rel((uintptr_t) p);
  if (++atomics[tid] % 1000 == 0 && !finished[!tid] && !nopreempt[tid]) switchTo(!tid); // spinning
}
}
// memory from the heap is new to everybody: reuse of a freed block is no conflict
#include <malloc.h>
static void* fresh(size_t n) {
  void* p = malloc(n ? n : 1);
  if (tid >= 0 && active) for (size_t i = 0, u = malloc_usable_size(p); i < u; ++i) {
    uintptr_t b = (uintptr_t) p + i; size_t h = (b * 0x9E3779B97F4A7C15ull) >> 48;
    while (cells[h].a && cells[h].a != b) h = (h + 1) & (NC - 1);
    if (cells[h].a) for (int t = 0; t < 2; ++t) cells[h].w[t] = cells[h].r[t] = 0;
  }
  return p;
}
void* operator new(size_t n) { return fresh(n); }
void* operator new[](size_t n) { return fresh(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
// The run time libraries are not instrumented: their writes to static data of
// the program and to the shared object are seen through these functions.
static void libAccess(const void* p, size_t n, bool write) {
  if (tid < 0 || !active || !n) return;
  uintptr_t a = (uintptr_t) p;
  if ((a >= (uintptr_t) &__data_start && a < (uintptr_t) &_end) || (a >= objLo && a < objHi)) access((void*) p, n, write);
}
extern "C" {
static inline void* rawCopy(void* d, const void* s, size_t n) { void* r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
void* memcpy(void* d, const void* s, size_t n) __THROW { libAccess(s, n, false); libAccess(d, n, true); return rawCopy(d, s, n); }
void* memmove(void* d, const void* s, size_t n) __THROW {
  libAccess(s, n, false); libAccess(d, n, true);
  if (d <= s || (char*) d >= (char*) s + n) return rawCopy(d, s, n);
  void* de = (char*) d + n - 1; const void* se = (const char*) s + n - 1;
  __asm__ volatile("std; rep movsb; cld" : "+D"(de), "+S"(se), "+c"(n) : : "memory");
  return d;
}
void* memset(void* d, int c, size_t n) __THROW { libAccess(d, n, true); void* r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
static size_t rawLen(const char* s, size_t max = ~(size_t) 0) { size_t n = 0; while (n < max && ((const volatile char*) s)[n]) ++n; return n; }
char* strcpy(char* d, const char* s) __THROW { size_t n = rawLen(s) + 1; libAccess(s, n, false); libAccess(d, n, true); rawCopy(d, s, n); return d; }
char* strncpy(char* d, const char* s, size_t m) __THROW {
  size_t n = rawLen(s, m); libAccess(s, n, false); libAccess(d, m, true); rawCopy(d, s, n);
  for (size_t i = n; i < m; ++i) ((volatile char*) d)[i] = 0; return d;
}
char* strcat(char* d, const char* s) __THROW { size_t k = rawLen(d), n = rawLen(s) + 1; libAccess(d, k, false); libAccess(s, n, false); libAccess(d + k, n, true); rawCopy(d + k, s, n); return d; }
char* strncat(char* d, const char* s, size_t m) __THROW { size_t k = rawLen(d), n = rawLen(s, m); libAccess(d, k, false); libAccess(s, n, false); libAccess(d + k, n + 1, true); rawCopy(d + k, s, n); ((volatile char*) d)[k + n] = 0; return d; }
int vsnprintf(char* d, size_t m, const char* f, va_list v) __THROW {
  static int (*r)(char*, size_t, const char*, va_list) = (int (*)(char*, size_t, const char*, va_list)) dlsym(RTLD_NEXT, "vsnprintf");
  int n = r(d, m, f, v); if (n >= 0 && m) libAccess(d, std::min(m, (size_t) n + 1), true); return n;
}
int snprintf(char* d, size_t m, const char* f, ...) __THROW { va_list v; va_start(v, f); int n = vsnprintf(d, m, f, v); va_end(v); return n; }
int sprintf(char* d, const char* f, ...) __THROW { va_list v; va_start(v, f); int n = vsnprintf(d, 0x7fffffff, f, v); va_end(v); return n; }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void* p) { access(p, n, false); } void __tsan_write##n(void* p) { access(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
  void __tsan_read_write##n(void* p) { access(p, n, false); access(p, n, true); } \
  void __tsan_unaligned_read_write##n(void* p) { access(p, n, false); access(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false); } void __tsan_volatile_write##n(void* p) { access(p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
void __tsan_vptr_read(void**) {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access((void*) s, n, false); access(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access((void*) s, n, false); access(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true); return memset(d, c, n); }
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T* p, int) { atomicOp((void*) p, sizeof(T), false); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##b##_store(volatile T* p, T v, int) { atomicOp((void*) p, sizeof(T), true); __atomic_store_n(p, v, 5); } \
  T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { atomicOp((void*) p, sizeof(T), true); return __atomic_exchange_n(p, v, 5); } \
  T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { atomicOp((void*) p, sizeof(T), true); return __atomic_fetch_add(p, v, 5); } \
  T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { atomicOp((void*) p, sizeof(T), true); return __atomic_fetch_sub(p, v, 5); } \
  T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { atomicOp((void*) p, sizeof(T), true); return __atomic_fetch_and(p, v, 5); } \
  T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { atomicOp((void*) p, sizeof(T), true); return __atomic_fetch_or(p, v, 5); } \
  T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { atomicOp((void*) p, sizeof(T), true); return __atomic_fetch_xor(p, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { atomicOp((void*) p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { atomicOp((void*) p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int) { atomicOp((void*) p, sizeof(T), true); __atomic_compare_exchange_n(p, &e, v, false, 5, 5); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { static char f; acq((uintptr_t) &f); rel((uintptr_t) &f); }
void __tsan_atomic_signal_fence(int) {}

// blocking calls: never block while holding the baton.  Locks inside the C/C++
// run time (unwinder, stdio) are no switch points.
static bool ours(void* m) { return (char*) m >= &__data_start && (char*) m < &_end; }
#define REAL(name) ((decltype(&name)) dlsym(RTLD_NEXT, #name))
#define LOCK(fn, tryfn, T) \
  int fn(T* m) { \
    if (tid < 0 || !active) { static decltype(&fn) r = (decltype(&fn)) dlsym(RTLD_NEXT, #fn); return r(m); } \
    if (ours(m)) point(); \
    int e; \
    while ((e = tryfn(m)) == EBUSY && !finished[!tid]) switchTo(!tid); \
    acq((uintptr_t) m); return e; }
LOCK(pthread_mutex_lock, pthread_mutex_trylock, pthread_mutex_t)
LOCK(pthread_rwlock_wrlock, pthread_rwlock_trywrlock, pthread_rwlock_t)
LOCK(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock, pthread_rwlock_t)
#define UNLOCK(fn, T) int fn(T* m) { static decltype(&fn) r = (decltype(&fn)) dlsym(RTLD_NEXT, #fn); rel((uintptr_t) m); int e = r(m); if (ours(m)) point(); return e; }
UNLOCK(pthread_mutex_unlock, pthread_mutex_t)
UNLOCK(pthread_rwlock_unlock, pthread_rwlock_t)
int pthread_once(pthread_once_t* o, void (*f)()) {
  static int (*r)(pthread_once_t*, void (*)()) = (int (*)(pthread_once_t*, void (*)())) dlsym(RTLD_NEXT, "pthread_once");
  if (tid < 0 || !active) return r(o, f);
  if (ours(o)) point();
  nopreempt[tid]++; int e = r(o, f); nopreempt[tid]--; acq((uintptr_t) o); rel((uintptr_t) o); return e;
}
int __cxa_guard_acquire(unsigned long* g) {
  static int (*r)(unsigned long*) = (int (*)(unsigned long*)) dlsym(RTLD_NEXT, "__cxa_guard_acquire");
  if (tid < 0 || !active) return r(g);
  point(); nopreempt[tid]++; int e = r(g); acq((uintptr_t) g); if (!e) nopreempt[tid]--; return e;
}
void __cxa_guard_release(unsigned long* g) {
  static void (*r)(unsigned long*) = (void (*)(unsigned long*)) dlsym(RTLD_NEXT, "__cxa_guard_release");
  rel((uintptr_t) g); r(g); if (tid >= 0 && active) { nopreempt[tid]--; point(); }
}
void __cxa_guard_abort(unsigned long* g) {
  static void (*r)(unsigned long*) = (void (*)(unsigned long*)) dlsym(RTLD_NEXT, "__cxa_guard_abort");
  r(g); if (tid >= 0 && active) nopreempt[tid]--;
}
}


// ------------------------------------------------------------ exploration
typedef std::function<void(std::vector<double>&)> Body; // pushes what the user sees
static const Body* g_body[2];
static std::vector<double>* g_res[2];
static void* threadMain(void* arg) {
  tid = (int) (intptr_t) arg;
  while (sem_wait(&baton[tid])) {}
  (*g_body[tid])(*g_res[tid]);
  finished[tid] = true;
  int t = tid; tid = -1;
  me_running = !t;
  sem_post(&baton[!t]);
  return nullptr;
}
// one schedule in a child; returns the results of both threads concatenated.
// prepare runs in the child before the threads start, after (if given) at the end
static bool schedule(const Body& a, const Body& b, const std::function<void()>& prepare, const Body& after, int first, std::vector<double>& res) {
  sh->points = sh->switches = sh->nconf = sh->races = sh->done = sh->ncells = 0;
  return inChild(res, [&]() {
    alarm(60);
    if (prepare) prepare();
    std::vector<double> v[3];
    v[0].reserve(4096); v[1].reserve(4096);
    g_body[0] = &a; g_body[1] = &b; g_res[0] = &v[0]; g_res[1] = &v[1];
    cells = (Cell*) mmap(nullptr, NC * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < 2; ++i) { sem_init(&baton[i], 0, 0); stk[i] = (char*) mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); vc[i][i] = 1; }
    pthread_t t[2];
    for (int i = 0; i < 2; ++i) { pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stk[i], STK); pthread_create(&t[i], &at, threadMain, (void*) (intptr_t) i); }
    active = true;
    me_running = first;
    sem_post(&baton[first]);
    pthread_join(t[first], nullptr); pthread_join(t[!first], nullptr);
    active = false;
    if (after) after(v[2]);
    std::vector<double> r;
    r.push_back(v[0].size());
    for (auto& x : v) r.insert(r.end(), x.begin(), x.end());
    return r;
  });
}
// all schedules with up to 2 preemptions at conflicting accesses, breadth first
// in the number of preemptions; the set of conflicting bytes is found on the way
static void exploreThreads(Report& R, const Body& a, const Body& b, const std::function<void()>& prepare, const Body& after, const std::vector<double>& want,
                           const std::string& who, const std::string& text) {
  nknown = 0;
  const int bound = 2;
  uint64_t budget = R.thorough ? 20000 : 1500, n = 0;
  bool grown = true;
  struct S { int first; std::vector<int> d; };
  while (grown) {
    grown = false;
    std::vector<S> work;
    for (int s = 1; s >= 0; --s) work.push_back(S{s, {}});
    std::set<uintptr_t> found(known, known + nknown);
    for (size_t w = 0; w < work.size() && !grown; ++w) {
      if (n++ >= budget) { R.exhaustive = false; R.counts["pairs_capped"]++; break; }
      S s = work[w];
      ndev = (int) s.d.size();
      for (int x = 0; x < ndev; ++x) devs[x] = s.d[x];
      std::vector<double> got;
      bool ok = schedule(a, b, prepare, after, s.first, got);
      R.counts["thread_schedules"]++; R.states++; R.traces++; R.transitions += sh->switches + 2; R.evals++;
      R.counts["switch_points"] += sh->points;
      std::string sch = fmt("thread %c first, preempted at shared access", s.first ? 'B' : 'A'); for (int x : s.d) sch += fmt(" %d", x);
      if (!ok) { R.fail(who + ": crash or deadlock (" + sch + ")", text + "\n" + sch); R.counts["conflicting_bytes"] += nknown; return; }
      int d = firstDiff(got, want, 0, 0);
      if (d >= 0) { R.fail(who + fmt(": value %d differs from running alone (", d) + sch + ")", text + "\n" + sch); return; }
      if (sh->races) {
        Dl_info di; std::string at = dladdr((void*) sh->raceAt, &di) && di.dli_sname ? di.dli_sname : sh->raceAt >= objLo && sh->raceAt < objHi ? fmt("the object, byte %lu", (unsigned long) (sh->raceAt - objLo)) : fmt("static data + 0x%lx", (unsigned long) (sh->raceAt - (uintptr_t) &__data_start));
        R.fail(who + ": data race (" + sch + ")", text + "\n" + sch + "\nat " + at); return;
      }
      for (uint32_t c = 0; c < sh->nconf; ++c) if (found.insert(sh->conf[c]).second) grown = true;
      if (grown && found.size() < 4000) { nknown = 0; for (uintptr_t x : found) known[nknown++] = x; break; }
      grown = false;
      if (ndev < bound) for (int x = s.d.empty() ? 0 : s.d.back() + 1; x < (int) sh->points; ++x) { S t = s; t.d.push_back(x); work.push_back(t); }
    }
    if (n >= budget) break;
  }
  R.counts["conflicting_bytes"] += nknown;
}
