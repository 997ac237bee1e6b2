// C01: the result of an accepted setup depends on its own arguments only.
// Every history of calls up to a depth, and breadth first search over the real
// object's states (raw bytes) until no new state appears or the cap is hit;
// oracle: the same call on a new object in a process that did nothing before.
#include "core.hpp"
#include <deque>
using namespace mc;

static void applyTo(Arena& a, const Entry& e, std::unique_ptr<IFilter>& other, const Op& o, Res& r) {
  if (o.t == Op::ELSE) {
    if (!other) other.reset(e.make(nullptr));
    r = apply(*other, opElse(o));
    other->filter(1.0);
  } else if (o.t == Op::RENEW) { a.renew(e); r = OK; }
  else r = apply(*a.f, o);
}

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg); regSos(reg);
  struct Work { Entry* e; std::vector<Op> al; std::vector<int> acc; std::vector<std::vector<double>> ref; size_t nset, c0, c1; };
  std::vector<Work> ws(reg.size());
  // references first: nothing of the library has run in this process yet
  for (size_t k = 0; k < reg.size(); ++k) {
    Work& w = ws[k];
    w.e = &reg[k];
    w.al = legal(reg[k].meta, R.thorough);
    std::vector<Op> bad = illegal(reg[k].meta), cl = clamped(reg[k].meta);
    if (reg[k].meta.cap > 8) { // a large template order: fewer calls
      w.al = thinned(w.al, R.thorough ? 30 : 14); bad = thinned(bad, 3); cl = thinned(cl, 2);
    }
    w.al.insert(w.al.end(), cl.begin(), cl.end());
    w.al.insert(w.al.end(), bad.begin(), bad.end());
    std::vector<Op> co = correlated(reg[k].meta); // at most one of these in the longest histories
    for (const Op& o : specials(reg[k].meta)) if (co.size() < 40) co.push_back(o);
    w.c0 = w.al.size(); w.al.insert(w.al.end(), co.begin(), co.end()); w.c1 = w.al.size();
    w.nset = w.al.size();
    for (size_t i = 0; i < w.nset; ++i) {
      std::vector<double> v;
      bool ok = inChild(v, [&]() {
        std::unique_ptr<IFilter> f(w.e->make(nullptr));
        Res r = apply(*f, w.al[i]);
        std::vector<double> s;
        s.push_back(r);
        if (r == OK) { std::vector<double> t = signature(*f); s.insert(s.end(), t.begin(), t.end()); }
        return s;
      });
      if (!ok) { R.fail("setup of a new object crashes: " + w.e->meta.name + " " + cxx(w.al[i]), cxx(w.e->meta, {w.al[i]})); continue; }
      w.acc.push_back((int) v[0]);
      v.erase(v.begin());
      w.ref.push_back(v);
    }
    Op o = opT(Op::ELSE); o.p = base(w.e->meta); if (w.e->meta.pole() && w.e->meta.cap > 1) o.order = w.e->meta.cap - 1;
    w.al.push_back(o);
    w.al.push_back(opFilter({1, -2, 3, 0.5}));
    w.al.push_back(opT(Op::RESET));
    w.al.push_back(opT(Op::QUERY));
    w.al.push_back(opT(Op::RENEW));
    w.al.push_back(opT(Op::POKE));
  }
  const int depth = R.thorough ? 4 : 3;
  const size_t cap = R.thorough ? 200000 : 6000;

  for (Work& w : ws) {
    const Meta& m = w.e->meta;
    Arena a(w.e->size);
    auto check = [&](const std::vector<int>& h) {
      // the last call of h is an accepted setup; the object is in the state reached
      std::vector<double> s = signature(*a.f);
      R.evals++;
      R.outcome(fnv(s));
      int d = firstDiff(s, w.ref[h.back()]);
      if (d < 0) return;
      std::vector<Op> ops;
      for (int i : h) ops.push_back(w.al[i]);
      std::string what = m.name + ": after " + fmt("%d", (int) h.size()) + " calls, " + sigName(*a.f, d) + " is " +
          (d < (int) s.size() ? num(s[d]) : "missing") + " but the last setup on a new object gives " +
          (d < (int) w.ref[h.back()].size() ? num(w.ref[h.back()][d]) : "nothing");
      R.fail(what, cxx(m, ops) + "// expected: as if only the last setup had been called");
    };
    auto history = [&](const std::vector<int>& h) { // replay on a new object; verdict of the last call
      a.fresh(*w.e);
      std::unique_ptr<IFilter> other;
      Res r = OK;
      for (int i : h) applyTo(a, *w.e, other, w.al[i], r);
      R.transitions += h.size();
      R.traces++;
      return r;
    };
    // --- all histories up to the depth, ending with a setup
    std::vector<int> small; // ops in the middle of the longest histories
    int n = (int) w.al.size();
    auto isco = [&](int i) { return i >= (int) w.c0 && i < (int) w.c1; };
    std::function<void(std::vector<int>&)> rec = [&](std::vector<int>& h) {
      if (!h.empty() && h.back() < (int) w.nset) {
        R.cur(m.name);
        Res r = history(h);
        R.states++;
        if (r == OK) check(h);
      }
      if ((int) h.size() == depth) return;
      // longest histories (thorough): every second op is from a thinned alphabet
      for (int i = 0; i < n; ++i) {
        if (h.empty() && !R.mine()) continue;
        if (h.size() >= 2 && isco(i) + isco(h[0]) + isco(h[1]) + (h.size() > 2 ? isco(h[2]) : 0) > 1) continue;
        if (depth > 3 && h.size() + 1 == (size_t) depth && i % 3 != (h[0] + h[1]) % 3) continue;
        h.push_back(i); rec(h); h.pop_back();
      }
    };
    std::vector<int> h;
    rec(h);
    // --- two calls in turn, hundreds of times, with use in between; after every call the coefficients, at the end everything
    {
      std::vector<int> few;
      size_t st = std::max<size_t>(1, w.nset / 9);
      for (size_t i = 0; i < w.nset; i += st) few.push_back((int) i);
      for (int i : few) for (int j : few) {
        if (!R.mine()) continue;
        R.cur(m.name);
        a.fresh(*w.e);
        for (int k = 0; k < 300; ++k) {
          int o = k % 2 ? j : i;
          Res r = apply(*a.f, w.al[o]); R.transitions++;
          a.f->filter(1);
          if (k % 3 == 0) a.f->reset();
          if (k % 50 == 7) apply(*a.f, opT(Op::QUERY));
          if (r != w.acc[o]) { R.fail(m.name + fmt(": call %d of two calls in turn is %s, but %s on a new object", k + 1, r == OK ? "accepted" : "not accepted", w.acc[o] == OK ? "accepted" : "not accepted"), cxx(m, {w.al[i], opFilter({1}), w.al[j], opFilter({1})})); break; }
          if (r != OK) continue;
          std::vector<double> c = k > 270 ? signature(*a.f) : coefs(*a.f);
          std::vector<double> wanted(w.ref[o].begin(), w.ref[o].begin() + (k > 270 ? w.ref[o].size() : std::min(c.size(), w.ref[o].size())));
          R.evals++;
          int d = firstDiff(c, wanted);
          if (d >= 0) { R.fail(m.name + fmt(": after %d setups, alternating between two, ", k + 1) + sigName(*a.f, d) + " is " + (d < (int) c.size() ? num(c[d]) : "missing") + " instead of " + (d < (int) wanted.size() ? num(wanted[d]) : "nothing"), cxx(m, {w.al[i], opFilter({1}), w.al[j], opFilter({1})}) + fmt("// in turn, %d setups in all", k + 1)); break; }
        }
        R.states++; R.traces++;
      }
    }
    // --- breadth first search over object states
    if (!R.mine()) continue;
    std::unordered_set<uint64_t> seen;
    std::deque<std::vector<int>> q;
    a.fresh(*w.e); seen.insert(a.hash()); q.push_back({});
    size_t maxd = 0; bool closed = true;
    while (!q.empty()) {
      std::vector<int> g = q.front(); q.pop_front();
      for (int i = 0; i < (int) w.nset; ++i) {
        g.push_back(i);
        R.cur(m.name);
        Res r = history(g);
        uint64_t hh = a.hash();
        if (r == OK) check(g);
        if (seen.size() < cap) { if (seen.insert(hh).second) { q.push_back(g); maxd = std::max(maxd, g.size()); } }
        else if (!seen.count(hh)) closed = false;
        g.pop_back();
      }
    }
    R.states += seen.size();
    R.maximum("max_search_depth", (double) maxd);
    R.counts[closed ? "classes_with_state_space_closed" : "classes_with_state_space_capped"]++;
    if (!closed) R.exhaustive = false;
    R.sample(m.name + fmt(": %zu calls in the alphabet, %zu object states, depth %zu", w.al.size(), seen.size(), maxd) + (closed ? ", closed; e.g. " : ", capped; e.g. ") + cxx(w.al[0]) + " " + cxx(w.al[w.nset - 1]) + " " + cxx(w.al[2]));
  }
  return R.finish();
}
