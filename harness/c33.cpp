// C33: every build behaves the same.  One enumeration of calls and histories
// runs in programs built with different compilers, optimisation levels,
// language standards, with and without NDEBUG, with fused multiply-add; the
// records are compared one by one with those of the reference build.
#include "core.hpp"
#include <climits>
using namespace mc;
static const int NV = 44;
struct Rec { uint64_t hash; double c[NV]; };

static void observe(IFilter& f, std::vector<double>& s) {
  s.push_back(f.numStages());
  Coef k[2] = {f.stage(0), f.stage(f.maxStages() - 1)};
  for (Coef& c : k) for (double d : {c.a0, c.a1, c.a2, c.b0, c.b1, c.b2}) s.push_back(d);
  for (double fr : {0.0, 0.1, 0.37}) { cplx r = f.response(fr); s.push_back(r.real()); s.push_back(r.imag()); }
  for (double x : {1.0, 0.0, -0.5, 0.0}) s.push_back(f.filter(x));
}
template <class Sink> static void enumerate(Report& R, Registry& reg, Sink sink) {
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    // (a) single calls: products of legal and illegal values
    std::vector<Op> calls = legal(m, true), bad = illegal(m), cl = clamped(m), sp = specials(m);
    calls.insert(calls.end(), sp.begin(), sp.end());
    size_t nlegal = calls.size();
    calls.insert(calls.end(), cl.begin(), cl.end());
    calls.insert(calls.end(), bad.begin(), bad.end());
    if (m.fam != SOS) {
      std::vector<double> b = base(m);
      for (size_t i = 0; i < b.size(); ++i) for (double d : {0.001, 0.01, 0.49, 1e9, -1e9}) { std::vector<double> p = b; p[i] = d; if (m.roles[i] == FREQ || d > 0) calls.push_back(opN(NO_ORDER, p)); }
      for (int fs = 0; fs < 3; ++fs) { Op o = opN(NO_ORDER, b); o.t = Op::SETUP; o.fs = fs == 0 ? 48000 : fs == 1 ? 1 : -1; for (int k = 0; k < m.nfreq; ++k) o.p[k] *= o.fs; calls.push_back(o); }
      if (m.pole()) for (int o : {0, 1, 2, m.cap - 1, INT_MAX, INT_MIN}) calls.push_back(opN(o, b));
    }
    std::vector<Op> second = thinned(legal(m), R.thorough ? 40 : 7);
    for (size_t ci = 0; ci < calls.size(); ++ci) {
      const Op& o = calls[ci];
      if (!R.mine()) continue;
      R.cur(m.name + " " + cxx(o));
      for (size_t j = 0; j <= second.size(); ++j) {
        // setup, samples, another setup, samples of other types, copy, assignment, reset
        std::vector<Op> h = {o, opFilter({1, -0.25}), opT(Op::QUERY)};
        if (j < second.size()) h.push_back(second[j]);
        std::vector<double> s, v;
        std::unique_ptr<IFilter> f(e.make(nullptr)), g(e.make(nullptr));
        for (const Op& x : h) v.push_back(apply(*f, x));
        double verdict = 0; for (double d : v) verdict = verdict * 3 + d;
        s.push_back(verdict);
        observe(*f, s);
        s.push_back(f->filterF(0.5f)); s.push_back(f->filterI(100000)); s.push_back(f->filterL(-70000));
        std::unique_ptr<IFilter> c(f->clone());
        s.push_back(c->filter(1)); c->reset(); s.push_back(c->filter(2));
        g->assign(*f); s.push_back(g->filter(1)); s.push_back(g->filter(0));
        f->filter(INFINITY); f->reset(); s.push_back(f->filter(1)); s.push_back(f->filter(0));
        try { auto z = f->poleZeros(); s.push_back(z.size()); if (!z.empty()) { s.push_back(std::abs(z[0].poles.first)); s.push_back(z[0].poles.first.real()); } } catch (const std::invalid_argument&) { s.push_back(-1); }
        for (double& d : s) if (std::isnan(d)) d = QNAN;
        Rec q; memset(&q, 0, sizeof q);
        q.hash = fnv(s);
        for (size_t k = 0; k < s.size() && k < (size_t) NV; ++k) q.c[k] = s[k];
        sink([&]() { return cxx(m, h); }, q, ci < nlegal || ci >= nlegal + cl.size() && ci < nlegal + cl.size() + bad.size());
      }
    }
  }
  // (b) sections: coefficient, pole/zero and one/two pole interfaces
  std::vector<double> cv = {1, -0.5, 0.3, 0};
  for (int k = 0; k < 4096; ++k) {
    if (!R.mine()) continue;
    double c[6]; for (int j = 0; j < 6; ++j) c[j] = cv[k >> (2 * j) & 3];
    Iir::Biquad b; Iir::Custom::OnePole op; Iir::Custom::TwoPole tp; Iir::Custom::SOSCascade<1> sc; Iir::Custom::SOSCascade<1, Iir::TransposedDirectFormII> st;
    std::vector<double> s;
    auto call = [&](std::function<void()> fn) { try { fn(); s.push_back(OK); } catch (const std::invalid_argument&) { s.push_back(REJ); } };
    double row[1][6] = {{c[0], c[1], c[2], c[3] == 0 ? 1 : c[3], c[4], c[5]}};
    call([&]() { b.setCoefficients(row[0][3], c[4], c[5], c[0], c[1], c[2]); });
    call([&]() { sc.setup(row); }); call([&]() { st.setup(row); });
    call([&]() { op.setup(c[0], c[1], c[2]); }); call([&]() { tp.setup(c[0], c[1], c[2], c[3], c[4]); });
    call([&]() { b.setOnePole(cplx(c[0], c[1] == 0 ? 0 : 0.5), cplx(c[2], c[3] == 0 ? 0 : 0.5)); });
    call([&]() { b.setTwoPole(cplx(c[0], c[1]), cplx(c[2], c[3]), cplx(c[0], c[4]), cplx(c[2], c[5])); });
    Coef g = coef(b); for (double d : {g.a0, g.a1, g.a2, g.b0, g.b1, g.b2}) s.push_back(d);
    for (int i = 0; i < 4; ++i) { s.push_back(sc.filter(i == 0 ? 1.0 : 0.0)); s.push_back(st.filter(i == 0 ? 1.0f : 0.0f)); }
    for (Iir::Biquad* x : {(Iir::Biquad*) &op, (Iir::Biquad*) &tp}) { Coef y = coef(*x); for (double d : {y.a1, y.a2, y.b0, y.b1, y.b2}) s.push_back(d); }
    for (double& d : s) if (std::isnan(d)) d = QNAN;
    Rec q; memset(&q, 0, sizeof q);
    q.hash = fnv(s);
    for (size_t i = 0; i < s.size() && i < (size_t) NV; ++i) q.c[i] = s[i];
    sink([&]() { return fmt("coefficient, pole and zero calls with %g %g %g %g %g %g", c[0], c[1], c[2], c[3], c[4], c[5]); }, q, true);
  }
}

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg); regSos(reg);
#ifdef VARIANT
  FILE* f = fopen(R.out.c_str(), "wb");
  enumerate(R, reg, [&](std::function<std::string()>, const Rec& q, bool) { fwrite(&q, sizeof q, 1, f); });
  fclose(f);
  return 0;
#else
  const char* names[][2] = {{"--gcc0", "g++ -O0 -std=c++20"}, {"--gcc3", "g++ -O3 -DNDEBUG -std=c++17"}, {"--clang0", "clang++ -O0 -std=c++14 -D_GLIBCXX_ASSERTIONS"},
                            {"--clang3", "clang++ -O3 -DNDEBUG -std=c++20"}, {"--gccs", "g++ -Os -std=c++23 -fPIC"}, {"--fma", "g++ -O2 -DNDEBUG -mfma -ffp-contract=fast"}, {"--o2", "g++ -O2 -g -DNDEBUG (the default build)"}};
  struct Other { std::string name, file; FILE* f; bool fma; };
  std::vector<Other> os;
  for (int i = 1; i + 1 < argc; ++i) for (auto& n : names) if (!strcmp(argv[i], n[0])) {
    bool fma = !strcmp(n[0], "--fma");
    if (fma && !__builtin_cpu_supports("fma")) { R.notes.push_back("this processor has no fused multiply-add, build left out"); continue; }
    Other o; o.name = n[1]; o.fma = fma; o.file = R.out + n[0];
    int rc = system((argv[i + 1] + fmt(" --shard %d/%d --tier %s --out ", R.shard, R.nshards, R.tier.c_str()) + o.file).c_str());
    o.f = fopen(o.file.c_str(), "rb");
    if (rc || !o.f) { 
      std::string crash; if (FILE* c = fopen((o.file + ".crash").c_str(), "r")) { char b[2000]; size_t k = fread(b, 1, sizeof b, c); crash.assign(b, k); fclose(c); }
      R.fail("the build with " + o.name + " crashes or ends abnormally", fmt("exit status %d\n", rc) + crash); if (!o.f) continue; }
    os.push_back(o);
  }
  uint64_t n = 0;
  enumerate(R, reg, [&](std::function<std::string()> text, const Rec& q, bool ordinary) {
    ++n; R.states++; R.transitions += os.size() + 1; R.traces++; R.evals += os.size();
    R.outcome(q.hash);
    for (Other& x : os) {
      Rec o;
      if (!x.f) continue;
      if (fread(&o, sizeof o, 1, x.f) != 1) { R.fail("the build with " + x.name + " stopped early", text()); fclose(x.f); x.f = nullptr; continue; }
      if (o.hash == q.hash) { R.counts["identical"]++; continue; }
      if (x.fma && !ordinary) { R.counts["extreme_calls_not_compared_with_fma"]++; continue; } // 0/0 at clamped band edges
      int d = -1;
      double big = 0; for (int k = 0; k < NV; ++k) if (std::isfinite(q.c[k])) big = std::max(big, std::fabs(q.c[k]));
      for (int k = 0; k < NV && d < 0; ++k)
        if (!near(q.c[k], o.c[k], 1e-7, 1e-9)) { // integers may be truncated to the neighbour
          if (q.c[k] == std::floor(q.c[k]) && o.c[k] == std::floor(o.c[k]) && std::fabs(q.c[k] - o.c[k]) <= 1 && k > 20 && std::fabs(q.c[k]) > 1) continue;
          d = k;
        }
      if (d < 0) { R.counts["equal_up_to_rounding"]++; continue; }
      R.fail("g++ -O1 and " + x.name + fmt(" differ: observation %d (0: verdicts of the calls, then sections, coefficients, response, samples, reports) is %s and %s", d, num(q.c[d]).c_str(), num(o.c[d]).c_str()), text());
    }
    if (n % 5000 == 1) R.sample(text());
  });
  for (Other& x : os) if (x.f) { fclose(x.f); unlink(x.file.c_str()); }
  if (R.shard == 0) R.counts["builds"] = os.size() + 1;
  return R.finish();
#endif
}
