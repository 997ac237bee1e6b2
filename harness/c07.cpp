// C07: a filter with room for a higher order which is set up with a lower order
// is the filter whose template has that order; the remaining sections pass the
// signal through and are not counted.  All pairs (capacity, order), all
// sequences of orders up to a length on one object.
#include "core.hpp"
using namespace mc;

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg);
  auto find = [&](const Meta& m, int cap) -> Entry* {
    for (Entry& e : reg) if (e.meta.fam == m.fam && e.meta.kind == m.kind && e.meta.cap == cap) return &e;
    return nullptr;
  };
  auto stagesFor = [](const Meta& m, int o) { return m.band() ? o : (o + 1) / 2; };
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    size_t np = m.roles.size();
    Arena a(e.size);
    // parameter sets
    std::vector<std::vector<double>> ps;
    std::vector<double> p(np);
    std::function<void(size_t)> rec = [&](size_t i) {
      if (i == np) { ps.push_back(p); return; }
      for (double v : valuesFor(m, i, R.thorough || np == 1 || m.cap < 10)) { p[i] = v; rec(i + 1); }
    };
    rec(0);
    for (size_t k = 0; k < ps.size(); ++k) {
      if (!R.mine()) continue;
      R.cur(m.name);
      // reference per order: the exact template
      std::vector<std::vector<double>> refc(m.cap + 1), refy(m.cap + 1), refpz(m.cap + 1);
      for (int o = 1; o <= m.cap; ++o) {
        Entry* x = find(m, o);
        if (!x) continue;
        std::unique_ptr<IFilter> f(x->make(nullptr));
        Op op = opN(NO_ORDER, ps[k]);
        if (apply(*f, op) != OK) continue;
        std::vector<double> s = signature(*f);
        int n = 1 + 6 * f->maxStages();
        refc[o].assign(s.begin(), s.begin() + n);
        refy[o].assign(s.begin() + n, s.end());
        if (f->maxStages() != stagesFor(m, o)) R.fail(x->meta.name + fmt(" reserves %d sections for order %d", f->maxStages(), o), cxx(x->meta, {op}));
      }
      int depth = R.thorough ? 3 : 2;
      std::vector<int> seq;
      std::function<void()> orders = [&]() {
        if (!seq.empty()) {
          int o = seq.back();
          if (refc[o].empty()) return;
          a.fresh(e);
          std::vector<Op> h;
          for (size_t i = 0; i < seq.size(); ++i) {
            // earlier calls use the other parameters of the list in turn
            Op op = opN(seq[i], ps[i + 1 == seq.size() ? k : (k + i + 1) % ps.size()]);
            h.push_back(op);
            if (apply(*a.f, op) != OK && i + 1 == seq.size()) { R.fail(m.name + ": " + cxx(op) + " is rejected", cxx(m, h)); return; }
            if (i + 1 < seq.size()) { for (double x : {1.0, -2.0, 0.5}) a.f->filter(x); R.transitions++; }
          }
          R.states++; R.transitions++; R.traces++; R.evals++;
          std::vector<double> s = signature(*a.f);
          R.outcome(fnv(s));
          int n = 1 + 6 * a.f->maxStages(), used = stagesFor(m, o);
          std::string t = m.name + ": " + cxx(h.back());
          if ((int) s[0] != used) { R.fail(t + fmt(" uses %d sections instead of %d", (int) s[0], used), cxx(m, h)); return; }
          for (int i = 0; i < a.f->maxStages(); ++i)
            for (int c = 0; c < 6; ++c) {
              double want = i < used ? refc[o][1 + 6 * i + c] : (c == 0 || c == 3) ? 1 : 0;
              if (i < used ? !near(s[1 + 6 * i + c], want) : s[1 + 6 * i + c] != want) { R.fail(t + ": " + sigName(*a.f, 1 + 6 * i + c) + " is " + num(s[1 + 6 * i + c]) + " instead of " + num(want), cxx(m, h) + fmt("// compare with the template of order %d", o)); return; }
            }
          std::vector<double> rest(s.begin() + n, s.end());
          int d = firstDiff(rest, refy[o]);
          if (d >= 0) { R.fail(t + fmt(" differs from the template of order %d: ", o) + sigName(*a.f, d + n) + " is " + num(rest[d]), cxx(m, h)); return; }
        }
        if ((int) seq.size() == depth) return;
        for (int o = 1; o <= m.cap; ++o) { seq.push_back(o); orders(); seq.pop_back(); }
      };
      orders();
    }
    {
      std::vector<std::unique_ptr<IFilter>> exact(m.cap + 1);
      for (int o = 1; o <= m.cap; ++o) if (Entry* x = find(m, o)) exact[o].reset(x->make(nullptr));
      std::unique_ptr<IFilter> f(e.make(nullptr));
      denseLines(R, m, R.thorough ? 20000 : 4000, 12, [&](const Op& op) {
        if (!exact[op.order]) return false;
        IFilter& g = *exact[op.order]; Op q = op; q.order = NO_ORDER;
        R.cur(m.name + " " + cxx(op));
        if (apply(*f, op) != OK || apply(g, q) != OK) { R.fail(m.name + ": " + cxx(op) + " is rejected", cxx(m, {op})); return false; }
        R.states++; R.transitions += 2; R.traces++; R.evals++;
        if (f->numStages() != g.numStages()) { R.fail(m.name + ": " + cxx(op) + fmt(" uses %d sections instead of %d", f->numStages(), g.numStages()), cxx(m, {op})); return false; }
        for (int s = 0; s < f->maxStages(); ++s) {
          Coef a = f->stage(s), b; if (s < g.numStages()) b = g.stage(s); else { b.a0 = b.b0 = 1; b.a1 = b.a2 = b.b1 = b.b2 = 0; }
          double x[6] = {a.a0, a.a1, a.a2, a.b0, a.b1, a.b2}, y[6] = {b.a0, b.a1, b.a2, b.b0, b.b1, b.b2};
          for (int i = 0; i < 6; ++i) if (!near(x[i], y[i])) { R.fail(m.name + ": " + cxx(op) + fmt(": coefficient %d of section %d is ", i, s) + num(x[i]) + " instead of " + num(y[i]), cxx(m, {op})); return false; }
        }
        return true;
      });
    }
    R.sample(m.name + fmt(": %zu parameter sets, all sequences of orders 1..%d", ps.size(), m.cap));
  }
  return R.finish();
}
