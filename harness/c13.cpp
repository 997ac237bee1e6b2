// C13 (copy construction) and C14 (assignment): all histories of operations on
// an original, a copy taken at any point, then all interleavings of operations
// on both, also after the original is destroyed and its memory overwritten.
// Oracle: twins which were never copied.
#include "core.hpp"
using namespace mc;

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg); regSos(reg);
  const bool T = R.thorough;
  const int dpre = T ? 3 : 2, dpost = T ? 4 : 3;
  static const std::vector<double> probe = {0, 0.9, 0, -0.1, 2, 0, 0, 0};
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    Arena A(e.size), B(e.size), TA(e.size), TB(e.size);
    std::vector<Op> lg = legal(m), bad = illegal(m), al, sp = specials(m);
    // ordinary setups to the full depth, then special values, two at a time, to a smaller one
    const size_t vsamples = (sp.size() + 1) / 2 + 1; // and samples which leave infinite, NaN, denormal or huge delay lines
    for (size_t var = 0; var <= vsamples + 1; ++var) {
    al.clear();
    if (var == vsamples + 1) { al.push_back(lg[lg.size() / 2]); al.push_back(opT(Op::POKE)); } // coefficients written by the user
    else if (var == vsamples) { al.push_back(lg[lg.size() / 2]); al.push_back(opFilter({INF, 1})); al.push_back(opFilter({std::nan("")})); al.push_back(opFilter({3e-310, -1e-309, -0.0})); al.push_back(opFilter({1e300, -1e300})); }
    else if (var) { al.push_back(sp[2 * var - 2]); if (2 * var - 1 < sp.size()) al.push_back(sp[2 * var - 1]); }
    else { al.push_back(lg[0]); al.push_back(lg[lg.size() / 2]); al.push_back(lg.back()); if (!bad.empty()) al.push_back(bad[bad.size() / 2]); }
    al.push_back(opFilter({1, -2, 0.3}));
    if (!var) al.push_back(opT(Op::RESET));
    int n = (int) al.size();
    auto text = [&](const std::vector<int>& pre, const std::vector<int>& tgt, const std::vector<int>& post, int mode) {
      std::string s = "Iir::" + m.name + " a; // original\n";
      for (int i : pre) s += "try { " + cxx(al[i], "a") + " } catch (std::invalid_argument&) {}\n";
#ifdef ASSIGN
      s += "Iir::" + m.name + " b;\n";
      for (int i : tgt) s += "try { " + cxx(al[i], "b") + " } catch (std::invalid_argument&) {}\n";
      s += "b = a;\n";
#else
      s += "Iir::" + m.name + " b(a);\n";
#endif
      if (mode) s += "/* a is destroyed and its memory overwritten */\n";
      for (int i : post) s += "try { " + cxx(al[i % n], i < n ? "b" : "a") + " } catch (std::invalid_argument&) {}\n";
      return s + "// then compare coefficients, response, poles/zeros and output with filters which were never copied";
    };
    auto look = [&](IFilter& f) { // continue, then everything visible
      std::vector<double> v;
      for (double x : probe) v.push_back(f.filter(x));
      std::vector<double> s = signature(f);
      v.insert(v.end(), s.begin(), s.end());
      return v;
    };
    auto run = [&](const std::vector<int>& pre, const std::vector<int>& tgt, const std::vector<int>& post, int mode) {
      A.fresh(e); TA.fresh(e); TB.fresh(e);
      for (int i : pre) { apply(*A.f, al[i]); apply(*TA.f, al[i]); apply(*TB.f, al[i]); }
#ifdef ASSIGN
      B.fresh(e);
      for (int i : tgt) apply(*B.f, al[i]);
      B.f->assign(*A.f);
      if (m.pole()) TB.f->reset(); // designed filters start from cleared delay lines
#else
      B.drop(); memset(B.mem, 0xA5, B.n);
      B.f = A.f->clone(B.mem);
#endif
      if (mode) { A.drop(); memset(A.mem, 0xFF, A.n); }
      for (int i : post) {
        R.transitions++;
        if (i < n) { apply(*B.f, al[i]); apply(*TB.f, al[i]); }
        else if (!mode) { apply(*A.f, al[i - n]); apply(*TA.f, al[i - n]); }
      }
      R.states++; R.traces++; R.evals += 2;
      std::vector<double> b = look(*B.f), tb = look(*TB.f);
      R.outcome(fnv(b));
      int d = firstDiff(b, tb), np = (int) probe.size();
      auto nm = [&](IFilter& f, int k) { return k < np ? fmt("output %d", k) : sigName(f, k - np); };
      if (d >= 0) { R.fail(m.name + ": the copy differs: " + nm(*B.f, d) + " is " + num(d < (int) b.size() ? b[d] : 0) + " instead of " + num(d < (int) tb.size() ? tb[d] : 0), text(pre, tgt, post, mode)); return; }
      if (!mode) {
        std::vector<double> a = look(*A.f), ta = look(*TA.f);
        d = firstDiff(a, ta);
        if (d >= 0) R.fail(m.name + ": the original is changed by its copy: " + nm(*A.f, d) + " is " + num(a[d]) + " instead of " + num(ta[d]), text(pre, tgt, post, mode));
      }
    };
    // the other forms: moved, by value, through containers, over many generations
    auto other = [&](const std::vector<int>& pre, const std::vector<int>& tgt, int form, int post) {
      A.fresh(e); TA.fresh(e); TB.fresh(e);
      for (int i : pre) { apply(*A.f, al[i]); apply(*TA.f, al[i]); apply(*TB.f, al[i]); }
      R.cur(text(pre, tgt, {}, 0));
#ifdef ASSIGN
      B.fresh(e);
      for (int i : tgt) apply(*B.f, al[i]);
      const bool gone = form == AS_MOVE; const char* how = ASTEXT[form];
      Arena TT(e.size); TT.fresh(e);
      for (int i : tgt) apply(*TT.f, al[i]);
      B.f->assignBy(form, *A.f);
      // whether designed filters keep their delay lines is a matter of copying, not of moving
      if (m.pole()) { TB.f->reset(); TT.f->reset(); B.f->reset(); if (form == AS_SWAP) A.f->reset(); }
      IFilter* ta = form == AS_SWAP ? TT.f : TA.f;
#else
      B.drop(); memset(B.mem, 0x5A, B.n);
      const bool gone = form == BY_MOVE; const char* how = BYTEXT[form];
      B.f = A.f->cloneBy(form, B.mem);
      IFilter* ta = TA.f;
#endif
      auto t2 = [&]() { return text(pre, tgt, post < 0 ? std::vector<int>() : std::vector<int>{post}, 0) + "\n// the copy being made by: typedef Iir::" + m.name + " F; " + how; };
      R.transitions += 2; R.states++; R.traces++; R.evals += 2;
      if (post >= n && gone) { // what was moved from can be set up again
        if (isSetup(al[post - n])) apply(*A.f, al[post - n]);
        A.f->filter(3);
      } else if (post >= n) { apply(*A.f, al[post - n]); apply(*ta, al[post - n]); }
      else if (post >= 0) { apply(*B.f, al[post]); apply(*TB.f, al[post]); }
      std::vector<double> b = look(*B.f), tb = look(*TB.f);
      int d = firstDiff(b, tb), np = (int) probe.size();
      auto nm = [&](IFilter& f, int k) { return k < np ? fmt("output %d", k) : sigName(f, k - np); };
      if (d >= 0) { R.fail(m.name + ": the copy (" + how + ") differs: " + nm(*B.f, d) + " is " + num(d < (int) b.size() ? b[d] : 0) + " instead of " + num(d < (int) tb.size() ? tb[d] : 0), t2()); return; }
      if (gone) { // and then is like another one
        if (!isSetup(al[0])) return;
        Res ra = apply(*A.f, al[0]);
        A.f->reset(); TA.fresh(e); Res rt = apply(*TA.f, al[0]);
        std::vector<double> sa = look(*A.f), st = look(*TA.f);
        d = ra != rt ? 0 : firstDiff(sa, st);
        if (d >= 0 && m.fam != SOS) R.fail(m.name + ": a filter which was moved from and set up again differs from a new one: " + nm(*A.f, d), t2());
        return;
      }
      std::vector<double> a = look(*A.f), w = look(*ta);
      d = firstDiff(a, w);
      if (d >= 0) R.fail(m.name + ": the original is not as expected after the copy (" + how + "): " + nm(*A.f, d) + " is " + num(a[d]) + " instead of " + num(w[d]), t2());
    };
    std::vector<std::vector<int>> pres, posts[2], tgts;
    std::function<void(std::vector<std::vector<int>>&, std::vector<int>&, int, int)> gen = [&](std::vector<std::vector<int>>& out, std::vector<int>& h, int d, int k) {
      out.push_back(h);
      if ((int) h.size() == d) return;
      for (int i = 0; i < k; ++i) { h.push_back(i); gen(out, h, d, k); h.pop_back(); }
    };
    std::vector<int> h;
    gen(pres, h, dpre, n);
#ifdef ASSIGN
    gen(tgts, h, T ? 2 : 1, n);
    gen(posts[0], h, var ? 1 : T ? 3 : 2, 2 * n);
    gen(posts[1], h, var ? 1 : T ? 3 : 2, n);
#else
    tgts.push_back({});
    gen(posts[0], h, var ? 1 : m.topo == DF2 || m.fam == RBJF || T ? 3 : 2, 2 * n);
    gen(posts[1], h, var ? 1 : dpost, n);
#endif
    for (auto& pre : pres) for (auto& tgt : tgts) {
      if (!R.mine()) continue;
      R.cur(text(pre, tgt, {}, 0));
      for (int mode = 0; mode < 2; ++mode) for (auto& post : posts[mode]) run(pre, tgt, post, mode);
#ifdef ASSIGN
      for (int form = 0; form < NAS; ++form) for (int post = -1; post < 2 * n; ++post) if (!var || post < 1 || post >= 2 * n - 2) other(pre, tgt, form, post);
      // self assignment, chains a = b = c
      A.fresh(e); TA.fresh(e); B.fresh(e);
      for (int i : pre) { apply(*A.f, al[i]); apply(*TA.f, al[i]); }
      A.f->assign(*A.f);
      for (int i : tgt) apply(*B.f, al[i]);
      if (m.pole()) TA.f->reset(); // designed filters start from cleared delay lines
      R.states++; R.evals++;
      int d = firstDiff(look(*A.f), look(*TA.f));
      if (d >= 0) R.fail(m.name + ": self assignment changes the filter", text(pre, {}, {}, 0) + "\na = a;");
      Arena C(e.size); C.fresh(e);
      C.f->assign(*A.f); B.f->assign(*C.f); C.drop(); memset(C.mem, 0xEE, C.n); A.drop(); memset(A.mem, 0xFF, A.n);
      B.f->reset();
      R.evals++;
      d = firstDiff(look(*B.f), look(*TA.f));
      if (d >= 0) R.fail(m.name + ": a filter assigned through an intermediate object differs from the original", text(pre, tgt, {}, 1));
#else
      for (int form = 0; form < NBY; ++form) for (int post = -1; post < 2 * n; ++post) if (!var || post < 1 || post >= 2 * n - 2) other(pre, tgt, form, post);
      // a copy of a copy, with the first copy gone
      A.fresh(e); TA.fresh(e);
      for (int i : pre) { apply(*A.f, al[i]); apply(*TA.f, al[i]); }
      B.drop(); B.f = A.f->clone(B.mem);
      Arena C(e.size); C.f = B.f->clone(C.mem);
      B.drop(); memset(B.mem, 0xFF, B.n); A.drop(); memset(A.mem, 0xFF, A.n);
      R.states++; R.evals++;
      int d = firstDiff(look(*C.f), look(*TA.f));
      if (d >= 0) R.fail(m.name + ": a copy of a copy differs from the original", text(pre, tgt, {}, 1));
      // heap copy through new
      A.fresh(e); for (int i : pre) apply(*A.f, al[i]);
      std::unique_ptr<IFilter> q(A.f->clone());
      A.drop(); memset(A.mem, 0x7F, A.n);
      TA.fresh(e); for (int i : pre) apply(*TA.f, al[i]);
      if (firstDiff(look(*q), look(*TA.f)) >= 0) R.fail(m.name + ": a copy on the heap differs from the original", text(pre, tgt, {}, 1));
#endif
    }
    if (!var) R.sample(text(pres[pres.size() / 2], tgts.back(), posts[0][posts[0].size() / 2], 0));
    }
  }
  return R.finish();
}
