// C16: no dynamic memory: construction, accepted setups, filtering, reset,
// queries of coefficients and response, copying and assignment never call the
// allocator, whatever was done before.  All operation sequences up to a depth
// with malloc & co. replaced by counting versions.
#include "core.hpp"
using namespace mc;

static volatile bool watch = false;
static volatile unsigned long allocs = 0;
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); void __libc_free(void*);
void* malloc(size_t n) { if (watch) allocs++; return __libc_malloc(n); }
void* calloc(size_t n, size_t m) { if (watch) allocs++; return __libc_calloc(n, m); }
void* realloc(void* p, size_t n) { if (watch) allocs++; return __libc_realloc(p, n); }
void free(void* p) { if (watch && p) allocs++; __libc_free(p); }
void* memalign(size_t a, size_t n) { if (watch) allocs++; return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { if (watch) allocs++; return __libc_memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { if (watch) allocs++; *r = __libc_memalign(a, n); return 0; }
}

int main(int argc, char** argv) {
  Report R(argc, argv);
  { std::set<int>* probe; watch = true; probe = new std::set<int>; probe->insert(1); watch = false; if (allocs < 2) { R.fail("the allocation counter does not work", ""); } delete probe; allocs = 0; }
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg); regSos(reg);
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    const int depth = m.cap > 20 ? 2 : R.thorough ? 5 : 4;
    Arena a(e.size), b(e.size);
    std::vector<Op> cf = legal(m, R.thorough), al, bad = illegal(m);
    size_t stepc = std::max<size_t>(1, cf.size() / (m.cap > 8 ? 3 : R.thorough ? 7 : 6));
    for (size_t i = 0; i < cf.size(); i += stepc) al.push_back(cf[i]);
    al.push_back(cf.back());
    if (m.fam != SOS) { Op o = cf[0]; o.t = Op::SETUP; o.fs = 1000; for (int i = 0; i < m.nfreq; ++i) o.p[i] *= 1000; al.push_back(o); }
    if (!bad.empty()) al.push_back(bad[bad.size() / 2]);
    al.push_back(opT(Op::RESET));
    al.push_back(opFilter({1, 0, -0.5}));
    al.push_back(opT(Op::QUERY)); // without the pole/zero report, which returns a container
    Op cp = opT(Op::ELSE); cp.order = 1; al.push_back(cp); // copy construction
    Op as = opT(Op::ELSE); as.order = 2; al.push_back(as); // assignment
    std::vector<int> h;
    double xs[2][8];
    std::function<void()> rec = [&]() {
      if ((int) h.size() == depth) {
        const char* what = "construction";
        allocs = 0;
        watch = true; a.fresh(e, 0x11); b.fresh(e); watch = false;
        int k = 0;
        unsigned long seen = allocs;
        for (; k < depth && !seen; ++k) {
          const Op& o = al[h[k]];
          R.transitions++;
          IFilter& f = *a.f;
          if (isSetup(o)) {
            what = "an accepted setup";
            volatile bool ok = true;
            allocs = 0; watch = true;
            try { if (o.t == Op::SETUP) f.setup(o.order, o.fs, o.p.data()); else f.setupN(o.order, o.p.data()); } catch (...) { watch = false; ok = false; }
            watch = false;
            if (!ok) allocs = 0; // the exception object
          } else if (o.t == Op::FILTER) {
            what = "filter()";
            allocs = 0; watch = true; for (double x : o.p) { f.filter(x); f.filterF((float) x); f.filterI((int) x); f.filterS((short) x); f.filterL((long long) x); } watch = false;
          } else if (o.t == Op::RESET) { what = "reset()"; allocs = 0; watch = true; f.reset(); watch = false; }
          else if (o.t == Op::QUERY) {
            what = "response() or coefficient queries";
            allocs = 0; watch = true; f.response(0.1); f.response(0.5); int n = f.numStages(); for (int i = 0; i < n; ++i) f.used(i); for (int i = 0; i < f.maxStages(); ++i) f.stage(i); watch = false;
          } else if (o.order == 1) { what = "copy construction"; b.drop(); allocs = 0; watch = true; b.f = f.clone(b.mem); watch = false; }
          else { what = "assignment"; allocs = 0; watch = true; b.f->assign(f); watch = false; b.f->filter(1); }
          seen = allocs;
        }
        if (seen) {
          std::vector<Op> ops; for (int i = 0; i < k; ++i) ops.push_back(al[h[i]]);
          R.fail(m.name + fmt(": %s calls the allocator %lu times", what, seen), cxx(m, ops));
        }
        R.states++; R.traces++; R.evals++;
        if (R.states % 64 == 0) R.outcome(fnv(coefs(*a.f)));
        return;
      }
      for (int i = 0; i < (int) al.size(); ++i) {
        if (h.size() == 1 && !R.mine()) continue;
        h.push_back(i); rec(); h.pop_back();
      }
    };
    (void) xs;
    R.cur(m.name);
    rec();
    R.sample(m.name + fmt(": %zu operations, all sequences of length %d, e.g. ", al.size(), depth) + cxx(al[0]) + " " + cxx(al[al.size() - 4]));
  }
  return R.finish();
}
