// C30: real time: the number of steps (basic blocks executed in the library) of
// one filter() call is bounded by the number of sections, whatever the sample,
// the state of the delay lines and the time since the start; a setup takes a
// number of steps bounded by the order, whatever the parameters.  All sequences
// of samples from an alphabet with all kinds of floating point values, long
// runs, products of setup arguments; the library is compiled with a counter in
// every basic block.
#include "core.hpp"
using namespace mc;
static unsigned long steps;
static Report* g_report;
extern "C" void __sanitizer_cov_trace_pc() {
  if (++steps == 20000000ul) { // no need to wait for the end, if there is one
    g_report->exhaustive = false;
    g_report->fail(std::string(g_cur) + ": a single call takes more than 20000000 basic blocks", g_cur);
    g_report->finish(); _exit(1);
  }
}

// one call within the allowance, whatever its arguments
template <class Fn> static void bounded(Report& R, Fn fn, unsigned long allow, const std::string& what) {
  R.cur(what);
  steps = 0;
  try { fn(); } catch (const std::invalid_argument&) {}
  unsigned long n = steps;
  R.states++; R.transitions++; R.traces++; R.evals++; R.outcome(n); R.maximum("most_blocks_per_coefficient_call", n);
  if (n > allow) R.fail(what + fmt(" takes %lu basic blocks", n), what);
}
static void coefficientApi(Report& R) {
  std::vector<double> v = {0, 1, -0.5, 5e-324, 1e-300, 7, 1e3, 1e6, 1e9, 1e18, 1e300, -1e3, -1e9, -1e300, INF, -INF, QNAN};
  for (double s : {1.0, 1e300, QNAN}) for (double p : v) for (double z : v) {
    Iir::Custom::OnePole f;
    bounded(R, [&]() { f.setup(s, p, z); }, 400, fmt("Iir::Custom::OnePole f; f.setup(%.17g, %.17g, %.17g);", s, p, z));
    bounded(R, [&]() { f.response(p); }, 400, fmt("OnePole: response(%.17g)", p));
    bounded(R, [&]() { f.getPoleZeros(); }, 4000, "OnePole: getPoleZeros()");
    for (double q : v) for (double y : v) {
      Iir::Custom::TwoPole g;
      bounded(R, [&]() { g.setup(s, p, q, z, y); }, 400, fmt("Iir::Custom::TwoPole f; f.setup(%.17g, %.17g, %.17g, %.17g, %.17g);", s, p, q, z, y));
      if (s == 1) {
        bounded(R, [&]() { g.response(q); }, 400, fmt("TwoPole: response(%.17g)", q));
        bounded(R, [&]() { g.getPoleZeros(); }, 4000, "TwoPole: getPoleZeros()");
        Iir::Biquad b;
        bounded(R, [&]() { b.setCoefficients(p, q, z, y, s, q); b.applyScale(z); }, 400, fmt("Iir::Biquad b; b.setCoefficients(%.17g, %.17g, %.17g, %.17g, %.17g, %.17g); b.applyScale(%.17g);", p, q, z, y, s, q, z));
      }
    }
  }
}

int main(int argc, char** argv) {
  Report R(argc, argv);
  g_report = &R;
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg); regSos(reg);
  const double xs[] = {1, 0, -1, 5e-324, 1e-310, 1e-160, 1e300, -1e308, INF, -INF, QNAN, 0.1};
  const int NX = 12, L = R.thorough ? 5 : 4;
  if (R.mine()) coefficientApi(R);
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    std::vector<Op> lg = legal(m), cf;
    for (size_t i = 0; i < lg.size(); i += R.thorough ? 2 : std::max<size_t>(1, lg.size() / 5)) cf.push_back(lg[i]);
    if (m.cap <= 4) { std::vector<Op> sp = specials(m); cf.insert(cf.end(), sp.begin(), sp.end()); }
    Arena a(e.size);
    unsigned long allowF = 0;
    for (const Op& o : cf) {
      if (!R.mine()) continue;
      R.cur(m.name + " " + cxx(o));
      a.fresh(e);
      if (apply(*a.f, o) != OK) continue;
      int ms = a.f->maxStages();
      // generous: a few branches per section and sample are fine
      steps = 0; a.f->filter(1);
      unsigned long first = steps, allow = 12 + 24 * ms;
      allowF = allow;
      R.maximum("blocks_per_section", (double) first / ms);
      std::vector<double> hist;
      auto one = [&](double x, const char* how) {
        steps = 0; a.f->filter(x); unsigned long n = steps;
        R.transitions++;
        R.maximum("most_blocks_per_sample", n);
        if (n > allow) { R.fail(m.name + ": " + cxx(o) + fmt(": filter(%s) takes %lu basic blocks with %d sections (%s), the first call took %lu", num(x).c_str(), n, ms, how, first), cxx(m, {o})); return false; }
        R.outcome(n * 1000 + ms);
        return true;
      };
      int total = 1; for (int i = 0; i < L; ++i) total *= NX;
      bool go = true;
      for (int k = 0; k < total && go; ++k) {
        a.f->reset();
        int q = k;
        for (int i = 0; i < L && go; ++i) { go = one(xs[q % NX], fmt("sequence %d", k).c_str()); q /= NX; }
        R.states++; R.traces++; R.evals++;
      }
      // long runs: rising, decaying, constant, alternating
      const long N = R.thorough ? 2000000 : 70000;
      for (int pat = 0; pat < 4 && go; ++pat) {
        a.f->reset();
        for (long k = 0; k < N && go; ++k) { if (pat == 3 && k % 5000 == 0) { a.f->reset(); } go = one(pat == 0 ? k == 0 : pat == 1 ? 1 : pat == 2 ? (k & 1 ? -1e3 : 1e3) : std::ldexp(1.0, int(k % 2000) - 1000), "long run"); }
        R.states++; R.traces++; R.evals++;
      }
      steps = 0; a.f->reset();
      if (steps > 12 + 24u * ms) R.fail(m.name + fmt(": reset() takes %lu basic blocks with %d sections", steps, ms), cxx(m, {o}));
    }
    // setups
    std::vector<Op> all = legal(m, true), bad = illegal(m);
    all.insert(all.end(), bad.begin(), bad.end());
    if (m.fam != SOS) {
      std::vector<double> b = base(m);
      for (int o = 0; o <= (m.pole() ? m.cap : 0); ++o)
        for (size_t i = 0; i < b.size(); ++i)
          for (double d : {0.0, 5e-324, 1e-300, 1e-12, 1e-5, 0.01, 0.3, 0.499999, 0.49999999999, 0.5, 1.0, 3.0, 1e3, 1e9, 1e300, -1e-9, -0.1, -1e300, INF, -INF, QNAN}) { std::vector<double> p = b; p[i] = d; all.push_back(opN(m.pole() ? o : NO_ORDER, p)); }
    }
    if (m.pole()) for (int o : {-1, -1000000, m.cap + 1, 1000000, 2147483647, -2147483647 - 1}) all.push_back(opN(o, base(m)));
    if (R.mine()) for (const Op& o : all) {
      a.fresh(e);
      R.cur(m.name + " " + cxx(o));
      for (int k = 0; k < 2; ++k) {
        steps = 0; apply(*a.f, o);
        unsigned long n = steps, allow = 2000 + 700 * (m.cap + 1);
        R.maximum("most_blocks_per_setup", n); R.maximum("blocks_per_setup_and_order", double(n) / (m.cap + 1));
        R.states++; R.transitions++; R.traces++; R.evals++;
        R.outcome(n);
        if (n > allow) R.fail(m.name + ": " + cxx(o) + fmt(" takes %lu basic blocks", n), cxx(m, {o}));
      }
    }
    R.sample(m.name + fmt(": %zu designs, all sequences of %d samples from %d values, 4 long runs; %zu setups", cf.size(), L, NX, all.size()));
  }
  return R.finish();
}
