// C12: a running filter keeps its delay lines when it is set up again: calling
// setup with the parameters in use, rejected calls, queries and changes which
// are taken back have no effect on the output, and a real change continues from
// the delay lines with the new coefficients.  All operation sequences up to a
// depth against the state equations of the topology.
#include "model.hpp"
using namespace mc;

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg); regSos(reg);
  const int depth = R.thorough ? 7 : 5;
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    Arena a(e.size);
    // setups which use the same number of sections
    std::vector<Op> cf, bad = illegal(m), al;
    for (const Op& o : legal(m)) if (!m.pole() || o.order == NO_ORDER || o.order == m.cap) cf.push_back(o);
    std::vector<Op> set = {cf[0], cf[cf.size() / 2], cf.back()};
    if (m.pole()) { Op same = cf[0]; same.order = m.cap; set.push_back(same); }
    for (const Op& o : corners(m)) set.push_back(o); // far jumps of every parameter at once
    size_t nset = set.size();
    // reference coefficients per setup, from new objects
    std::vector<Model> ref;
    for (auto& o : set) { a.fresh(e); if (apply(*a.f, o) != OK) R.fail(m.name + " rejects " + cxx(o), cxx(m, {o})); Model q(m.topo, a.f->maxStages()); q.load(*a.f); ref.push_back(q); }
    al = set;
    if (!bad.empty()) al.push_back(bad[bad.size() / 2]);
    if (bad.size() > 1) al.push_back(bad[0]);
    al.push_back(opT(Op::QUERY));
    al.push_back(opT(Op::RESET));
    al.push_back(opFilter({1}));
    al.push_back(opFilter({-2, 0, 0.3}));
    std::vector<int> h;
    std::function<void()> rec = [&]() {
      if ((int) h.size() == depth) {
        a.fresh(e);
        apply(*a.f, set[0]);
        Model q = ref[0];
        double big = 1;
        auto fail = [&](int k, double y, double w) {
          std::vector<Op> ops = {set[0]};
          for (int i = 0; i <= k && i < (int) h.size(); ++i) ops.push_back(al[h[i]]);
          R.fail(m.name + ": output after " + fmt("%d", k + 1) + " operations on the running filter is " + num(y) + " instead of " + num(w), cxx(m, ops) + (k >= (int) h.size() ? "// then filter zeros" : ""));
        };
        for (int k = 0; k < depth; ++k) {
          const Op& o = al[h[k]];
          R.transitions++;
          if (o.t == Op::FILTER) {
            for (double x : o.p) { double y = a.f->filter(x), w = q.step(x); big = std::max(big, std::fabs(w)); if (!near(y, w, 1e-9, 1e-9 * big)) { fail(k, y, w); return; } }
          } else {
            apply(*a.f, o);
            if (h[k] < (int) nset) for (size_t i = 0; i < q.s.size(); ++i) { Model::Sec z = ref[h[k]].s[i]; memcpy(z.z, q.s[i].z, sizeof z.z); q.s[i] = z; }
            if (o.t == Op::RESET) q.reset();
          }
        }
        for (int k = 0; k < 3; ++k) { double y = a.f->filter(k == 1), w = q.step(k == 1); big = std::max(big, std::fabs(w)); R.outcome(fnv(&y, 8)); if (!near(y, w, 1e-9, 1e-9 * big)) { fail(depth, y, w); return; } }
        R.states++; R.traces++; R.evals++;
        return;
      }
      for (int i = 0; i < (int) al.size(); ++i) {
        if (h.size() == 1 && !R.mine()) continue;
        h.push_back(i);
        if (h.size() == 2) R.cur(m.name + " running, then " + cxx(al[h[0]]) + " " + cxx(al[h[1]]));
        rec(); h.pop_back();
      }
    };
    rec();
    // running on with a lower order: the sections keep their delay lines
    if (m.pole() && R.mine()) {
      std::vector<Op> lo;
      for (const Op& o : legal(m)) if (o.order > 0 && o.order < m.cap) lo.push_back(o);
      for (int o = 1; o < m.cap; ++o) lo.push_back(opN(o, cf[cf.size() / 2].p));
      for (const Op& hi : {set[0], set[1], set[2]}) for (const Op& o : lo) for (int n = 1; n <= o.order; ++n) { // n: lower once more
        a.fresh(e);
        Model q(m.topo, a.f->maxStages());
        Op l2 = o; l2.order = n;
        double big = 1; bool good = true;
        for (int i = 0; i < 3 && good; ++i) {
          const Op& s = i == 0 ? hi : i == 1 ? o : l2;
          if (apply(*a.f, s) != OK) { R.fail(m.name + " rejects " + cxx(s), cxx(m, {s})); break; }
          Model r(m.topo, a.f->maxStages()); r.load(*a.f); R.transitions++;
          for (size_t k = 0; k < q.s.size(); ++k) { Model::Sec z = r.s[k]; if (i) memcpy(z.z, q.s[k].z, sizeof z.z); q.s[k] = z; }
          for (int t = 0; t < 4 && good; ++t) {
            double x = i == 2 ? 0 : 1 - t, y = a.f->filter(x), w = q.step(x);
            big = std::max(big, std::fabs(w));
            if (!near(y, w, 1e-9, 1e-9 * big)) { good = false; R.fail(m.name + fmt(": output %d after the setup number %d of the running filter is ", t, i + 1) + num(y) + " instead of " + num(w), cxx(m, {hi, opFilter({1, 0, -1, -2}), o, opFilter({1, 0, -1, -2}), l2, opFilter({0, 0, 0, 0})})); }
          }
        }
        R.states++; R.traces++; R.evals++;
        if (!good) break;
      }
    }
    // swept in small steps while it runs, every setup given twice
    {
      std::unique_ptr<IFilter> f, g;
      Model q(m.topo, 1); int order = -7; uint64_t k = 0; double big = 1; Op prev;
      denseLines(R, m, R.thorough ? 8000 : 2000, 12, [&](const Op& op) {
        R.cur(m.name + " " + cxx(op));
        g.reset(e.make(nullptr));
        if (apply(*g, op) != OK) { R.fail(m.name + " rejects " + cxx(op), cxx(m, {op})); return false; }
        if (!f || order != op.order) { f.reset(e.make(nullptr)); order = op.order; q = Model(m.topo, f->maxStages()); big = 1; prev = op; }
        apply(*f, op); apply(*f, op);
        Model r(m.topo, f->maxStages()); r.load(*g); R.transitions += 2;
        for (size_t s = 0; s < q.s.size(); ++s) { memcpy(r.s[s].z, q.s[s].z, sizeof r.s[s].z); q.s[s] = r.s[s]; }
        R.states++; R.traces++; R.evals++;
        for (int t = 0; t < 2; ++t) {
          double x = (++k) % 7 == 0 ? 1 : k % 3 == 0 ? -0.3 : 0, y = f->filter(x), w = q.step(x);
          big = std::max(big, std::fabs(w));
          if (!near(y, w, 1e-8, 1e-8 * big)) { R.fail(m.name + ": output of the running filter after its parameters moved a little, to " + cxx(op) + ", is " + num(y) + " instead of " + num(w), cxx(m, {prev, opFilter({1, 0, 0, -0.3}), op, op, opFilter({x})})); return false; }
        }
        prev = op;
        if (k % 128 == 0 || !(big < 1e6)) { f->reset(); q.reset(); big = 1; }
        return true;
      });
    }
    // retuned hundreds of times while it runs
    if (R.mine()) for (size_t i = 0; i < nset; ++i) for (size_t j = 0; j < nset; ++j) for (int kind = 0; kind < 3; ++kind) {
      a.fresh(e);
      Model q = ref[i]; q.reset();
      double big = 1; bool good = true;
      for (int k = 0; k < 600 && good; ++k) {
        size_t c = k % 2 ? j : i;
        apply(*a.f, set[c]); R.transitions++;
        for (size_t s = 0; s < q.s.size(); ++s) { Model::Sec z = ref[c].s[s]; memcpy(z.z, q.s[s].z, sizeof z.z); q.s[s] = z; }
        if (kind == 1 && !bad.empty()) apply(*a.f, bad[k % bad.size()]);
        if (kind == 2 && k % 40 == 39) { a.f->reset(); q.reset(); }
        double x = k % 7 == 0 ? 1 : k % 3 == 0 ? -0.3 : 0, y = a.f->filter(x), w = q.step(x);
        big = std::max(big, std::fabs(w));
        if (!(big < 1e100)) break; // two designs in turn need not be stable
        if (!near(y, w, 1e-8, 1e-8 * big)) { good = false; R.fail(m.name + fmt(": output %d of a filter which is set up before every sample is ", k) + num(y) + " instead of " + num(w), cxx(m, {set[i], opFilter({1}), set[j], opFilter({0})}) + fmt("// in turn, %d times", k + 1)); }
      }
      R.states++; R.traces++; R.evals++;
      if (!good) break;
    }
    // passing through special values (gain 0, exact fractions): set, run, special, run, special or back, run
    if (R.mine()) {
      std::vector<Op> sp = { set[0] };
      for (const Op& o : specials(m)) if (!m.pole() || o.order == m.cap) sp.push_back(o);
      std::vector<Model> sr;
      for (auto& o : sp) { a.fresh(e); if (apply(*a.f, o) != OK) R.fail(m.name + " rejects " + cxx(o), cxx(m, {o})); Model q(m.topo, a.f->maxStages()); q.load(*a.f); sr.push_back(q); }
      const size_t n = sp.size();
      for (size_t k = 0; k < n * n * n; ++k) {
        size_t seq[] = {0, k % n, k / n % n, k / n / n};
        for (int burst = 0; burst < 2; ++burst) { // with and without samples in between
          a.fresh(e);
          Model q = sr[0];
          double big = 1; bool good = true;
          for (int i = 0; i < 4 && good; ++i) {
            apply(*a.f, sp[seq[i]]); R.transitions++;
            for (size_t s = 0; s < q.s.size(); ++s) { Model::Sec z = sr[seq[i]].s[s]; memcpy(z.z, q.s[s].z, sizeof z.z); q.s[s] = z; }
            for (int t = 0; t < (burst || i == 0 || i == 3 ? 3 : 0) && good; ++t) {
              double x = i == 3 ? 0 : 1 - t, y = a.f->filter(x), w = q.step(x);
              big = std::max(big, std::fabs(w));
              if (!near(y, w, 1e-9, 1e-9 * big)) { good = false; R.fail(m.name + fmt(": output %d after the setup number %d of the running filter is ", t, i + 1) + num(y) + " instead of " + num(w), cxx(m, {sp[seq[0]], opFilter({1, 0, -1}), sp[seq[1]], burst ? opFilter({1, 0, -1}) : opT(Op::QUERY), sp[seq[2]], burst ? opFilter({1, 0, -1}) : opT(Op::QUERY), sp[seq[3]], opFilter({0, 0, 0})})); }
            }
          }
          R.states++; R.traces++; R.evals++;
          if (!good) { k = n * n * n; break; }
        }
      }
    }
    R.sample(m.name + fmt(": %zu operations, all sequences of length %d, e.g. ", al.size(), depth) + cxx(al[al.size() - 1]) + cxx(al[1]) + " " + cxx(al[0]));
  }
  return R.finish();
}
