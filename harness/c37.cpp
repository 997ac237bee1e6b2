// C37: filters can be used at any time in the life of a program: before main
// (objects with static storage duration), in main, in a thread, while a thread
// ends, and after main.  The life of a filter (construction, setup, samples,
// queries, changes, copies, destruction) is cut into five steps and every way
// to distribute them over the phases of the program is executed for every class;
// each value must be the one of the same life spent in main.
#include "core.hpp"
#include <thread>
using namespace mc;

enum { PRE, STATICS, MAIN, THREAD, THREADEND, ATEXIT, POST, NPHASE };
static const char* phaseName[] = {"before all constructors of static objects", "among the constructors of static objects", "in main", "in another thread", "in the destructor of a thread's thread_local object", "in an exit handler, among the destructors of static objects", "after main and all destructors of static objects"};
static const int NSTEP = 5;
static const char* stepName[] = {"construction", "setup and samples", "queries", "rejected and second setup, samples", "copy, assignment, reset, destruction"};

struct Life { int cls, cfg, at[NSTEP]; IFilter* f; int k; uint64_t h[NSTEP]; };
// no objects with constructors: this exists before they would run
static Report* R; static Registry* reg; static std::vector<std::vector<Op>>* cfgs; static std::vector<Life>* lives; static std::vector<Life>* ref;
static std::map<std::pair<int, int>, int>* refIdx;

static void step(Life& l, std::vector<double>& v) {
  const Entry& e = (*reg)[l.cls];
  const Op& o = (*cfgs)[l.cls][l.cfg];
  switch (l.k) {
  case 0: l.f = e.make(nullptr); break;
  case 1: v.push_back(apply(*l.f, o)); for (double x : {1.0, 0.0, -0.5}) v.push_back(l.f->filter(x)); v.push_back(l.f->filterF(0.25f)); break;
  case 2: {
    for (double fr : {0.0, 0.13, 0.5}) { cplx r = l.f->response(fr); v.push_back(r.real()); v.push_back(r.imag()); }
    try { for (auto& q : l.f->poleZeros()) { v.push_back(q.poles.first.real()); v.push_back(q.poles.second.imag()); v.push_back(q.zeros.first.real()); v.push_back(q.zeros.second.imag()); } }
    catch (const std::invalid_argument&) { v.push_back(-77); }
    v.push_back(l.f->numStages()); for (int i = 0; i < l.f->numStages(); ++i) { Coef c = l.f->used(i); for (double d : {c.a0, c.a1, c.a2, c.b0, c.b1, c.b2}) v.push_back(d); }
    break; }
  case 3: {
    std::vector<Op> bad = illegal(e.meta); v.push_back(apply(*l.f, bad[bad.size() / 2])); v.push_back(l.f->filter(0.5));
    std::vector<Op> lg = legal(e.meta); v.push_back(apply(*l.f, lg[(l.cfg * 5 + 3) % lg.size()])); for (double x : {1.0, 0.0, 3.0}) v.push_back(l.f->filter(x)); v.push_back(l.f->filterI(1000)); v.push_back(l.f->filterS(-1000));
    break; }
  case 4: {
    std::unique_ptr<IFilter> g(l.f->clone()), h(e.make(nullptr)); h->assign(*l.f);
    for (IFilter* x : {l.f, g.get(), h.get()}) { v.push_back(x->filter(1)); x->reset(); for (double d : {1.0, 0.0, 0.5, 0.0}) v.push_back(x->filter(d)); }
    delete l.f; l.f = nullptr; break; }
  }
}
static void phase(int p, std::vector<Life>& all) {
  for (Life& l : all) while (l.k < NSTEP && l.at[l.k] == p) {
    snprintf(g_cur, sizeof g_cur, "%s, setup %d, %s %s", (*reg)[l.cls].meta.name.c_str(), l.cfg, stepName[l.k], phaseName[p]);
    std::vector<double> v; step(l, v);
    l.h[l.k] = fnv(v); l.k++; R->transitions++;
  }
}
static void last() {
  for (Life& l : *lives) {
    const Life& w = (*ref)[(*refIdx)[std::make_pair(l.cls, l.cfg)]];
    R->states++; R->traces++; R->evals++;
    for (int k = 0; k < NSTEP; ++k) {
      R->outcome(l.h[k]);
      if (l.h[k] == w.h[k]) continue;
      std::string t = "Iir::" + (*reg)[l.cls].meta.name + " f; setup: " + cxx((*cfgs)[l.cls][l.cfg]) + "\n";
      for (int i = 0; i < NSTEP; ++i) t += std::string(stepName[i]) + ": " + phaseName[l.at[i]] + "\n";
      R->fail((*reg)[l.cls].meta.name + ": " + stepName[k] + " gives another result " + phaseName[l.at[k]] + " than in main", t);
      break;
    }
  }
}
// 101: first of all constructors, last of all destructors
__attribute__((constructor(101))) static void beforeAll(int argc, char** argv, char**) {
  R = new Report(argc, argv); R->maxviol = 3;
  reg = new Registry;
  regButter(*reg); regCheb1(*reg); regCheb2(*reg); regRbj(*reg); regSos(*reg);
  cfgs = new std::vector<std::vector<Op>>; lives = new std::vector<Life>; ref = new std::vector<Life>; refIdx = new std::map<std::pair<int, int>, int>;
  for (size_t c = 0; c < reg->size(); ++c) {
    const Meta& m = (*reg)[c].meta;
    std::vector<Op> cf = thinned(legal(m), R->thorough ? 12 : 4), sp = specials(m), co = corners(m);
    for (const Op& o : thinned(sp, R->thorough ? 8 : 2)) cf.push_back(o);
    cf.insert(cf.end(), co.begin(), co.end());
    cfgs->push_back(cf);
    for (size_t q = 0; q < cf.size(); ++q) {
      if (!R->mine()) continue;
      Life l; memset(&l, 0, sizeof l); l.cls = c; l.cfg = q;
      for (int i = 0; i < NSTEP; ++i) l.at[i] = MAIN;
      (*refIdx)[std::make_pair((int) c, (int) q)] = ref->size(); ref->push_back(l);
      int at[NSTEP];
      std::function<void(int, int)> rec = [&](int i, int p) {
        if (i == NSTEP) { memcpy(l.at, at, sizeof at); lives->push_back(l); return; }
        for (int x = p; x < NPHASE; ++x) { at[i] = x; rec(i + 1, x); }
      };
      rec(0, 0);
    }
  }
  phase(PRE, *lives);
}
__attribute__((destructor(101))) static void afterAll() {
  phase(POST, *lives);
  last();
  R->sample("every class and setup: construction | setup, samples | queries | changes | copies, reset, destruction, distributed over 7 phases of the program in every order of time");
  int rc = R->finish();
  fflush(nullptr);
  _exit(rc);
}
struct Statics { Statics() { phase(STATICS, *lives); } ~Statics() { phase(ATEXIT, *lives); } };
static Statics statics;
struct End { int x = 1; ~End() { phase(THREADEND, *lives); } };
static thread_local End end;

int main() {
  phase(MAIN, *ref);
  phase(MAIN, *lives);
  std::thread t([]() { end.x++; phase(THREAD, *lives); });
  t.join();
  return 0;
}
