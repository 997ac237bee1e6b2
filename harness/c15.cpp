// C15: filter objects are independent of each other, in any interleaving.
// (a) all interleavings, at call granularity, of the operations on two objects
// of any two classes; (b) two real threads, each using its own object, under a
// scheduler that owns every instruction-level access to memory that both
// threads touch: the library is compiled with the thread sanitizer's
// instrumentation, whose run time is replaced by the functions below.  Accesses
// by both threads (one of them a write) are the switch points; all schedules
// with up to 2 preemptions there are executed, one forked process each.
// Oracle: every value the user sees is the one from running alone in a pristine
// process, and there is no data race (happens-before over locks, atomics,
// guards of local statics) on static memory.
#include "sched.hpp"

// --------------------------------------------------------------- programs
struct Prog { const Entry* e; Op op; std::string text() const { return "Iir::" + e->meta.name + " f; " + cxx(op) + " filter 1, 0.5, 0; a rejected setup; response; poles/zeros; copy; reset"; } };
static Op badOp(const Meta& m) { std::vector<Op> b = illegal(m); return b.empty() ? opT(Op::QUERY) : b[b.size() / 2]; }
// step k of a program on its object; what the user sees goes to v
static const int NSTEP = 5;
static void step(const Prog& p, IFilter*& f, int k, std::vector<double>& v) {
  switch (k) {
  case 0: f = p.e->make(nullptr); v.push_back(apply(*f, p.op)); break;
  case 1: v.push_back(f->filter(1)); v.push_back(f->filter(0.5)); break;
  case 2: { // rejected call, queries
    v.push_back(apply(*f, badOp(p.e->meta)));
    cplx r = f->response(0.13); v.push_back(r.real()); v.push_back(r.imag());
    try { for (auto& q : f->poleZeros()) { v.push_back(q.poles.first.real()); v.push_back(q.poles.second.imag()); v.push_back(q.zeros.first.real()); v.push_back(q.zeros.second.imag()); } }
    catch (const std::invalid_argument&) { v.push_back(-77); }
    break; }
  case 3: { std::unique_ptr<IFilter> g(f->clone()); v.push_back(g->filter(0)); v.push_back(f->filter(0)); g->assign(*f); v.push_back(g->filterF(0)); v.push_back(f->filterI(3)); break; }
  case 4: { std::vector<double> c = coefs(*f); v.insert(v.end(), c.begin(), c.end()); f->reset(); for (int i = 0; i < 3; ++i) v.push_back(f->filter(i == 0)); delete f; f = nullptr; break; }
  }
}
int main(int argc, char** argv) {
  Report R(argc, argv);
  R.maxviol = 2;
  sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg); regSos(reg);
  // programs: every class with two settings
  std::vector<Prog> ps;
  for (Entry& e : reg) {
    std::vector<Op> l = legal(e.meta);
    ps.push_back(Prog{&e, l[0]});
    ps.push_back(Prog{&e, l.back()});
    if (R.thorough) ps.push_back(Prog{&e, l[l.size() / 2]});
  }
  // alone, each in its own pristine process
  std::vector<std::vector<double>> alone(ps.size());
  for (size_t i = 0; i < ps.size(); ++i) {
    if (!inChild(alone[i], [&]() { std::vector<double> v; IFilter* f = nullptr; for (int k = 0; k < NSTEP; ++k) step(ps[i], f, k, v); return v; }))
      R.fail(ps[i].e->meta.name + ": the program does not run alone", ps[i].text());
    R.outcome(fnv(alone[i]));
  }
  // (b) two threads; first, so that every process forked here has no history
  for (size_t i = 0; i < ps.size(); ++i) for (size_t j = i; j < ps.size(); ++j) {
    if (!R.mine()) continue;
    R.cur("threads A: " + ps[i].text() + "\nB: " + ps[j].text());
    std::vector<double> want;
    want.push_back(alone[i].size()); want.insert(want.end(), alone[i].begin(), alone[i].end()); want.insert(want.end(), alone[j].begin(), alone[j].end());
    auto whole = [](const Prog& p) { const Prog* q = &p; return [q](std::vector<double>& v) { IFilter* f = nullptr; for (int k = 0; k < NSTEP; ++k) step(*q, f, k, v); }; };
    exploreThreads(R, whole(ps[i]), whole(ps[j]), nullptr, nullptr, want, ps[i].e->meta.name + " and " + ps[j].e->meta.name + " in two threads, each its own object", "A: " + ps[i].text() + "\nB: " + ps[j].text());
    R.counts["pairs"]++;
  }
  // (a) all interleavings of the calls on two objects (one process: also any history)
  std::vector<std::vector<int>> il;
  { std::vector<int> h; std::function<void(int, int)> rec = [&](int x, int y) { if (x == NSTEP && y == NSTEP) { il.push_back(h); return; } if (x < NSTEP) { h.push_back(0); rec(x + 1, y); h.pop_back(); } if (y < NSTEP) { h.push_back(1); rec(x, y + 1); h.pop_back(); } }; rec(0, 0); }
  for (size_t i = 0; i < ps.size(); ++i) for (size_t j = i; j < ps.size(); ++j) {
    if (!R.mine()) continue;
    R.cur("A: " + ps[i].text() + "\nB: " + ps[j].text());
    bool same = ps[i].e == ps[j].e || R.thorough;
    for (size_t q = 0; q < il.size(); q += same ? 1 : 7) {
      IFilter* f[2] = {nullptr, nullptr};
      std::vector<double> v[2];
      int k[2] = {0, 0};
      for (int t : il[q]) { step(t ? ps[j] : ps[i], f[t], k[t], v[t]); k[t]++; R.transitions++; }
      R.states++; R.traces++; R.evals += 2;
      for (int t = 0; t < 2; ++t) {
        int d = firstDiff(v[t], alone[t ? j : i], 0, 0);
        if (d >= 0) {
          std::string s; for (int x : il[q]) s += x ? 'B' : 'A';
          R.fail(ps[i].e->meta.name + " and " + ps[j].e->meta.name + fmt(": calls on one object change what the other one does (value %d of object %c, interleaving ", d, t ? 'B' : 'A') + s + ")", "A: " + ps[i].text() + "\nB: " + ps[j].text() + "\nsteps: " + s);
          q = il.size(); break;
        }
      }
    }
  }
  R.sample("A: " + ps[0].text() + " | B: " + ps[1].text() + fmt(": %zu interleavings of the calls; all thread schedules with <= 2 preemptions at conflicting accesses", il.size()));
  R.sample(fmt("%zu programs, all unordered pairs incl. equal ones", ps.size()));
  return R.finish();
}
