// C11: reset() puts a filter into the state of a new object with the same
// setup, whatever it went through, and touches nothing else.  All histories of
// setups, sample bursts (also infinite, NaN and huge ones) and resets up to a
// depth, then reset, against a new object.
#include "core.hpp"
using namespace mc;

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg); regSos(reg);
  const int fullDepth = R.thorough ? 6 : 5;
  static const std::vector<double> post = {0, 0, 1, 0, 0, -2, 0.3, 0, 0, 0};
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    Arena a(e.size), b(e.size);
    std::vector<Op> lg = legal(m), al, sp = specials(m);
    // ordinary setups to the full depth, then special values to a smaller one
    for (size_t var = 0; var <= sp.size(); ++var) {
    const int depth = var ? fullDepth - 2 : fullDepth;
    al.clear();
    if (var) al.push_back(sp[var - 1]);
    else { al.push_back(lg[0]); al.push_back(lg[lg.size() / 2]); al.push_back(lg.back()); }
    if (R.thorough && lg.size() > 4) al.push_back(lg[1]);
    size_t nset = al.size();
    al.push_back(opT(Op::RESET));
    al.push_back(opFilter({1}));
    al.push_back(opFilter({0, -3, 2, 0.25, 7}));
    al.push_back(opFilter({QNAN}));
    al.push_back(opFilter({INF, 1}));
    al.push_back(opFilter({1e300, -1e300}));
    al.push_back(opFilter({1e-310}));
    // reference: output of a new object per setup; [nset] = never set up
    std::vector<std::vector<double>> ref;
    for (size_t i = 0; i <= nset; ++i) {
      b.fresh(e);
      if (i < nset && apply(*b.f, al[i]) != OK) { R.fail(m.name + " rejects " + cxx(al[i]), cxx(m, {al[i]})); }
      std::vector<double> v = coefs(*b.f);
      for (double x : post) v.push_back(b.f->filter(x));
      ref.push_back(v);
    }
    std::vector<int> h;
    std::function<void()> rec = [&]() {
      if (!h.empty()) {
        a.fresh(e);
        int last = (int) nset;
        for (int i : h) { if (i < (int) nset) last = i; apply(*a.f, al[i]); R.transitions++; }
        // reading the coefficients, resetting, resetting twice
        for (int twice = 0; twice < 2; ++twice) {
          a.f->reset();
          std::vector<double> v = coefs(*a.f);
          for (double x : post) v.push_back(a.f->filter(x));
          R.evals++; R.outcome(fnv(v));
          int d = firstDiff(v, ref[last]), n = 1 + 6 * a.f->maxStages();
          if (d >= 0) {
            std::vector<Op> ops; for (int i : h) ops.push_back(al[i]);
            R.fail(m.name + (twice ? " (second reset)" : "") + ": after reset " + (d < n ? sigName(*a.f, d) : fmt("output %d", d - n)) + " is " + num(v[d]) + " but " + num(ref[last][d]) + " on a new object with the same setup",
                   cxx(m, ops) + "f.reset();\n" + cxx(opFilter(post)));
            return;
          }
        }
        R.states++; R.traces++;
      }
      if ((int) h.size() == depth) return;
      for (int i = 0; i < (int) al.size(); ++i) {
        if (h.empty()) { if (!R.mine()) continue; R.cur(m.name + " history starting with " + cxx(al[i])); }
        h.push_back(i); rec(); h.pop_back();
      }
    };
    rec();
    // many cycles of use and reset, also with other setups and rejected calls in between
    if (R.mine()) for (size_t s = 0; s < nset; ++s) for (int kind = 0; kind < 4; ++kind) {
      a.fresh(e); apply(*a.f, al[s]);
      std::vector<Op> bad = illegal(m);
      for (int i = 1; i <= 600; ++i) {
        a.f->filter(1); a.f->filter(-0.3); R.transitions += 3;
        if (kind == 1) apply(*a.f, al[s]);
        if (kind == 2) { apply(*a.f, al[i % nset]); a.f->filter(2); apply(*a.f, al[s]); }
        if (kind == 3 && !bad.empty()) apply(*a.f, bad[i % bad.size()]);
        a.f->reset();
        if (i % 5 && (i & (i - 1))) continue;
        R.evals++; R.states++;
        std::vector<double> v = coefs(*a.f);
        for (double x : post) v.push_back(a.f->filter(x));
        a.f->reset();
        int d = firstDiff(v, ref[s]);
        if (d >= 0) { R.fail(m.name + fmt(": after %d cycles of filtering and reset() %s differs from a new object", i, d < 1 + 6 * a.f->maxStages() ? sigName(*a.f, d).c_str() : "the output"), cxx(m, {al[s]}) + fmt("// %d times: f.filter(1); f.filter(-0.3); %s f.reset();", i, kind == 0 ? "" : kind == 1 ? "the same setup;" : kind == 2 ? "another setup, f.filter(2); the first setup;" : "a rejected setup;")); break; }
      }
      R.traces++;
    }
    // samples of every size in small steps before the reset
    if (!var) for (size_t s = 0; s < nset; ++s) {
      if (!R.mine()) continue;
      a.fresh(e); apply(*a.f, al[s]);
      const int N = R.thorough ? 300000 : 30000;
      for (int i = 0; i <= N; ++i) {
        double u = double(i) / N, x = i & 1 ? (i & 2 ? -1 : 1) * std::pow(10, -320 + 628 * u) : -4 + 8 * u;
        a.f->filter(x); if (i % 3 == 0) a.f->filter(-x); if (i % 5 == 0) for (int k = 0; k < 5; ++k) a.f->filter(0);
        a.f->reset();
        R.evals++; R.states++; R.transitions += 2;
        size_t k = 0, n = 1 + 6 * a.f->maxStages();
        for (; k < post.size(); ++k) if (!near(a.f->filter(post[k]), ref[s][n + k])) break;
        if (k < post.size()) { R.fail(m.name + fmt(": output %zu after samples of size %.17g and reset() is not that of a new object with the same setup", k, x), cxx(m, {al[s], opFilter({x}), opT(Op::RESET)}) + cxx(opFilter(post))); break; }
        a.f->reset();
      }
    }
    // long run before the reset
    if (!var && R.mine()) for (size_t s = 0; s < nset; ++s) {
      a.fresh(e); apply(*a.f, al[s]);
      for (int i = 0; i < 140000; ++i) a.f->filter(i % 7 == 0 ? 1.0 : i % 3 == 0 ? -1 : 0.0);
      a.f->reset();
      std::vector<double> v = coefs(*a.f);
      for (double x : post) v.push_back(a.f->filter(x));
      R.evals++; R.states++; R.transitions += 140000;
      int d = firstDiff(v, ref[s]);
      if (d >= 0) R.fail(m.name + ": reset after 140000 samples leaves something behind", cxx(m, {al[s]}) + "// 140000 samples, f.reset();");
    }
    R.sample(m.name + fmt(": %zu operations, depth %d, e.g. ", al.size(), depth) + cxx(al[1]) + " " + cxx(al[5]) + " f.reset();");
    }
  }
  return R.finish();
}
