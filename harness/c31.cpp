// C31: queries only read.  Two threads use the same object: one filters (or
// queries, or copies) while the other queries (or copies, if nobody filters).
// All schedules with up to 2 preemptions at conflicting accesses are executed;
// data races on the object or static memory are found by happens-before, and
// every value must be the one of the same thread running alone.
#include "sched.hpp"

static void pz(std::vector<double>& v, const std::vector<Iir::PoleZeroPair>& z) {
  v.push_back(z.size());
  for (auto& q : z) for (cplx c : {q.poles.first, q.poles.second, q.zeros.first, q.zeros.second}) { v.push_back(c.real()); v.push_back(c.imag()); }
}
static IFilter* shared;
static size_t sharedSize;
enum Kind2 { FILTER, RESPONSE, POLES, COEF, ALLQ, COPY };
static const char* kname[] = {"filters samples", "asks for responses", "asks for poles and zeros", "reads coefficients", "makes all queries", "copies the filter and assigns it to another"};
static void run(int k, const Entry* e, std::vector<double>& v) {
  IFilter& f = *shared;
  switch (k) {
  case FILTER: v.push_back(f.filter(1)); v.push_back(f.filterF(-0.5f)); v.push_back(f.filterI(7)); v.push_back(f.filter(0)); v.push_back(f.filterS(-3)); v.push_back(f.filterL(1000000)); break;
  case RESPONSE: for (double fr : {0.13, 0.0, 0.5, 0.13, 0.3}) { cplx r = f.response(fr); v.push_back(r.real()); v.push_back(r.imag()); } break;
  case POLES:
    for (int i = 0; i < 2; ++i) {
      try { pz(v, f.poleZeros()); } catch (const std::invalid_argument&) { v.push_back(-77); }
      try { pz(v, f.poleZerosCascade()); } catch (const std::invalid_argument&) { v.push_back(-77); }
    }
    break;
  case COEF: { v.push_back(f.numStages()); for (int i = 0; i < f.numStages(); ++i) { Coef c = f.used(i); for (double d : {c.a0, c.a1, c.a2, c.b0, c.b1, c.b2}) v.push_back(d); } if (e->meta.pole()) try { f.used(f.numStages()); } catch (const std::invalid_argument&) { v.push_back(-78); } break; }
  case ALLQ: for (int q = RESPONSE; q <= COEF; ++q) run(q, e, v); break;
  case COPY: { std::unique_ptr<IFilter> g(f.clone()), h(e->make(nullptr)); h->assign(f); for (IFilter* x : {g.get(), h.get()}) { for (double d : {1.0, 0.0, 0.5}) v.push_back(x->filter(d)); cplx r = x->response(0.2); v.push_back(r.real()); v.push_back(r.imag()); } break; }
  }
}

int main(int argc, char** argv) {
  Report R(argc, argv);
  R.maxviol = 2;
  sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg); regSos(reg);
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    // histories before the threads start
    std::vector<Op> l = legal(m, R.thorough), bad = illegal(m);
    std::vector<std::vector<Op>> hs = {{}, {l[0]}, {l[0], opFilter({1, -1, 3})}, {l.back(), opFilter({1, 0.5}), l[l.size() / 2]}, {l[0], bad[bad.size() / 2]}, {l[l.size() / 2], opT(Op::QUERY), opFilter({1}), opT(Op::RESET), opFilter({2})}};
    if (R.thorough) for (const Op& o : l) for (const Op& p : {l[0], l.back()}) hs.push_back({o, opFilter({1, -1}), p});
    Arena ar(e.size);
    for (auto& h : hs) {
      auto prepare = [&]() { shared = &ar.fresh(e); for (const Op& o : h) apply(*shared, o); };
      objLo = (uintptr_t) ar.mem; objHi = objLo + ar.n;
      const int pairs[][2] = {{FILTER, RESPONSE}, {FILTER, POLES}, {FILTER, COEF}, {FILTER, ALLQ}, {RESPONSE, RESPONSE}, {POLES, POLES}, {COEF, COEF}, {ALLQ, ALLQ}, {COPY, ALLQ}, {COPY, COPY}};
      for (auto& pr : pairs) {
        if (!R.mine()) continue;
        std::string who = m.name + ": one object, thread A " + kname[pr[0]] + " while thread B " + kname[pr[1]];
        R.cur(who + "\n" + cxx(m, h));
        // alone: each thread's work on the object in the same state, the queries last and first
        std::vector<double> w[2], want;
        bool ok = true;
        for (int t = 0; t < 2; ++t) ok = inChild(w[t], [&]() { std::vector<double> v; prepare(); run(pr[t], &e, v); return v; }) && ok;
        std::vector<double> end;
        Body after = [&](std::vector<double>& v) { for (double d : {1.0, 0.0, 0.25}) v.push_back(shared->filter(d)); std::vector<double> c = coefs(*shared); v.insert(v.end(), c.begin(), c.end()); };
        ok = inChild(end, [&]() { std::vector<double> v, x; prepare(); if (pr[0] == FILTER) run(FILTER, &e, x); after(v); return v; }) && ok;
        if (!ok) { R.fail(who + ": does not even run alone", cxx(m, h)); continue; }
        want.push_back(w[0].size());
        for (auto* x : {&w[0], &w[1], &end}) want.insert(want.end(), x->begin(), x->end());
        R.outcome(fnv(want));
        auto part = [&](int t) { int k = pr[t]; const Entry* ep = &e; return [k, ep](std::vector<double>& v) { run(k, ep, v); }; };
        exploreThreads(R, part(0), part(1), prepare, after, want, who, cxx(m, h) + "A " + kname[pr[0]] + ", B " + kname[pr[1]]);
        R.counts["pairs"]++;
      }
    }
  }
  R.sample("every class: histories before the threads start x {filter, response, poles/zeros, coefficients, all queries, copy} in two threads on the same object");
  return R.finish();
}
