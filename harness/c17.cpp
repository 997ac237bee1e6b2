// C17: no memory error and no undefined behaviour: all operation sequences up
// to a depth over an adversarial alphabet (legal, boundary, huge, infinite and
// NaN arguments; any order and index), for every template order, in a build
// with address and undefined-behaviour sanitizers; objects live on the heap,
// on the stack and between guard bytes.
#include "core.hpp"
using namespace mc;

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg); regSos(reg);
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    const int depth = m.cap > 10 ? 2 : R.thorough ? 4 : 3;
    std::vector<Op> cf = legal(m), bad = illegal(m), al;
    size_t s1 = std::max<size_t>(1, cf.size() / 5), s2 = std::max<size_t>(1, bad.size() / 5);
    for (size_t i = 0; i < cf.size(); i += s1) al.push_back(cf[i]);
    for (size_t i = 0; i < bad.size(); i += s2) al.push_back(bad[i]);
    std::vector<Op> single; // each after every other operation, and alone
    if (m.pole()) for (int o : {0, 1, m.cap - 1, m.cap, m.cap + 1, m.cap + 2, 2 * m.cap, 2 * m.cap + 1, 1000, 2147483647, 1073741824, -1, -2, -2147483647 - 1, 16, 17, 24, 25, 31, 32, 33, 39, 63, 64, 65, 127, 128, 129}) single.push_back(opN(o, base(m)));
    if (m.fam != SOS) {
      std::vector<double> b = base(m);
      for (size_t i = 0; i < b.size(); ++i)
        for (double d : {0.0, -0.0, 1e-308, 1e-5, 0.4999999, 0.5, 1.0, 100.0, 1e9, 1e308, -1e-5, -1.0, -1e308, INF, -INF, QNAN}) { std::vector<double> p = b; p[i] = d; single.push_back(opN(m.pole() ? m.cap : NO_ORDER, p)); }
      for (double fs : {0.0, -1.0, 1e-300, INF, QNAN}) { Op o = opN(NO_ORDER, b); o.t = Op::SETUP; o.fs = fs; single.push_back(o); }
    } else {
      for (int i = 0; i < 6; ++i) for (double d : {0.0, 1e308, INF, QNAN}) { std::vector<double> p = base(m); p[6 * (m.cap - 1) + i] = d; single.push_back(opN(NO_ORDER, p)); }
    }
    al.push_back(opT(Op::QUERY)); al.push_back(opT(Op::RESET)); al.push_back(opFilter({1, 0, -0.25, 1e300}));
    Op cp = opT(Op::ELSE); cp.order = 1; al.push_back(cp);
    Op as = opT(Op::ELSE); as.order = 2; al.push_back(as);
    const size_t G = 64; // guard bytes
    size_t n = (e.size + 63) & ~size_t(63);
    unsigned char* mem = (unsigned char*) aligned_alloc(64, n + 2 * G);
    std::vector<Op> run;
    auto go = [&]() {
      memset(mem, 0xC3, n + 2 * G);
      std::string t = cxx(m, run);
      R.cur(t);
      IFilter* f = e.make(mem + G);
      std::unique_ptr<IFilter> heap(e.make(nullptr)), copy;
      std::vector<double> h;
      for (IFilter* p : {f, heap.get()}) for (const Op& o : run) {
        R.transitions++;
        if (o.t == Op::ELSE) { if (o.order == 1) { copy.reset(p->clone()); copy->filter(1); } else { if (!copy) copy.reset(e.make(nullptr)); copy->assign(*p); copy->filter(1); p->assign(*copy); p->assign(*p); } continue; }
        h.push_back(apply(*p, o));
        if (o.t == Op::QUERY || run.size() < 3) {
          int k = p->numStages();
          for (int i : {-1, -2147483647 - 1, k, k + 1, 1000000, 2147483647}) if (m.pole()) {
            bool thrown = false;
            try { p->used(i); } catch (const std::invalid_argument&) { thrown = true; }
            if (!thrown) R.fail(m.name + fmt(": section %d of a filter with %d sections can be read", i, k), t);
          }
          for (double fr : {-1.0, -0.1, 0.50001, 1e300, INF}) try { p->response(fr); } catch (const std::invalid_argument&) {}
          try { p->poleZeros(); p->poleZerosCascade(); } catch (const std::invalid_argument&) {}
          p->filterF(1); p->filterF(0);
        }
      }
      h.push_back(f->filter(0.5));
      R.outcome(fnv(h));
      f->~IFilter();
      for (size_t i = 0; i < G; ++i) if (mem[i] != 0xC3 || mem[G + n + i] != 0xC3) { R.fail(m.name + ": writes outside of the object", t); break; }
      for (size_t i = e.size; i < n; ++i) if (mem[G + i] != 0xC3) { R.fail(m.name + ": writes behind the object", t); break; }
      R.states++; R.traces++; R.evals++;
    };
    for (size_t s = 0; s < single.size(); ++s) {
      if (!R.mine()) continue;
      run = {single[s]}; go();
      for (const Op& o : al) { run = {o, single[s]}; go(); run = {single[s], o}; go(); }
    }
    std::function<void()> rec = [&]() {
      if ((int) run.size() == depth) { go(); return; }
      for (const Op& o : al) {
        if (run.size() == 1 && !R.mine()) continue;
        run.push_back(o); std::vector<Op> keep = run; rec(); run = keep; run.pop_back();
      }
    };
    run.clear();
    rec();
    free(mem);
    R.sample(m.name + fmt(": %zu extreme calls each alone, before and after %zu others; all sequences of length %d of these", single.size(), al.size(), depth));
  }
  return R.finish();
}
