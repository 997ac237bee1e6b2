// C05: with IIR1_NO_EXCEPTIONS the library compiles with -fno-exceptions,
// behaves identically for accepted calls and calls abort() exactly where the
// default build throws.  The same enumeration runs in two programs, built in
// the two configurations, and the records are compared one by one.
#include "core.hpp"
#include <climits>
#include <csetjmp>
using namespace mc;

static sigjmp_buf jb;
static bool armed = false;
#ifdef IIR1_NO_EXCEPTIONS
extern "C" void abort() noexcept {
  if (armed) siglongjmp(jb, 1);
  signal(SIGABRT, SIG_DFL); raise(SIGABRT); _exit(98);
}
#endif
template <class Fn> static Res guarded(Fn fn) {
#ifdef IIR1_NO_EXCEPTIONS
  volatile Res r = REJ;
  armed = true;
  if (sigsetjmp(jb, 0) == 0) { fn(); r = OK; }
  armed = false;
  return r;
#else
  try { fn(); } catch (const std::invalid_argument&) { return REJ; } catch (...) { return OTHER; }
  return OK;
#endif
}

struct Rec { double verdict; uint64_t hash; double c[8]; };

// calls sink(text-maker, record) for every call of the enumeration
template <class Sink> static void enumerate(Report& R, Registry& reg, Sink sink) {
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    std::vector<std::vector<double>> al(m.roles.size());
    for (size_t i = 0; i < al.size(); ++i) {
      al[i] = valuesFor(m, i, R.thorough || m.cap < 10);
      std::vector<double> x;
      switch (m.roles[i]) {
      case FREQ: x = {0.5, -0.1, QNAN, 0, 0.4999, INF, 0.7}; break;
      case WIDTH: x = {-0.05, QNAN, 0, 0.7}; break;
      case GAIN: x = {QNAN, 0, 700, -7000}; break;
      default: x = {QNAN, 0, -1, 700, INF}; break;
      }
      al[i].insert(al[i].end(), x.begin(), x.end());
    }
    std::vector<int> os = {NO_ORDER};
    if (m.pole()) for (int o : {-1, 0, 1, 2, 3, m.cap, m.cap + 1, INT_MAX}) os.push_back(o);
    std::vector<double> p(al.size());
    std::function<void(size_t)> rec = [&](size_t i) {
      if (i == p.size()) {
        for (int o : os) for (int fs = 0; fs < 2; ++fs) {
          Op op = opN(o, p);
          if (fs) { op.t = Op::SETUP; op.fs = 48000; for (int k = 0; k < m.nfreq; ++k) op.p[k] *= 48000; }
          IFilter* volatile f = e.make(nullptr);
          Rec q; memset(&q, 0, sizeof q);
          q.verdict = guarded([&]() { if (op.t == Op::SETUP) f->setup(op.order, op.fs, op.p.data()); else f->setupN(op.order, op.p.data()); });
          if (q.verdict == OK) {
            std::vector<double> s = coefs(*f);
            for (double x : PROBE) s.push_back(f->filter(x));
            cplx r = f->response(0.1); s.push_back(r.real()); s.push_back(r.imag());
            q.verdict += 10 * guarded([&]() { f->response(0.6); }) + 100 * guarded([&]() { f->used(f->numStages()); }) + 1000 * guarded([&]() { f->poleZeros(); });
            for (double& d : s) if (std::isnan(d)) d = QNAN;
            q.hash = fnv(s);
            for (int k = 0; k < 8; ++k) q.c[k] = s[k < 7 ? k : s.size() - 5];
          }
          delete (IFilter*) f;
          sink([&]() { return "Iir::" + m.name + " f; " + cxx(op); }, q);
        }
        return;
      }
      for (double v : al[i]) { if (i == 0 && !R.mine()) continue; p[i] = v; rec(i + 1); }
    };
    R.cur(m.name);
    rec(0);
  }
  // coefficient interfaces
  std::vector<double> cv = {1, -0.5, 0, QNAN};
  if (!R.mine()) return;
  for (int k = 0; k < 4096; ++k) {
    double c[6]; for (int j = 0; j < 6; ++j) c[j] = cv[k >> (2 * j) & 3];
    Iir::Biquad b; Iir::Custom::SOSCascade<2> s2; Iir::Custom::OnePole op; Iir::Custom::TwoPole tp;
    Rec q; memset(&q, 0, sizeof q);
    q.verdict = guarded([&]() { b.setCoefficients(c[0], c[1], c[2], c[3], c[4], c[5]); });
    if (q.verdict == OK) { Coef g = coef(b); std::vector<double> v = {g.a0, g.a1, g.a2, g.b0, g.b1, g.b2}; for (double& d : v) if (std::isnan(d)) d = QNAN; q.hash = fnv(v); q.c[0] = g.b0; }
    double t[2][6] = {{c[0], c[1], c[2], c[3], c[4], c[5]}, {c[3], c[4], c[5], c[0], c[1], c[2]}};
    q.verdict += 10 * guarded([&]() { s2.setup(t); }) + 100 * guarded([&]() { op.setup(c[0], c[1], c[2]); }) +
                 1000 * guarded([&]() { tp.setup(c[0], c[1], c[2], c[3], c[4]); }) +
                 10000 * guarded([&]() { b.setOnePole(cplx(c[0], c[1] == 0 ? 0 : 0.5), cplx(c[2], c[3] == 0 ? 0 : 0.5)); }) +
                 100000 * guarded([&]() { b.setTwoPole(cplx(c[0], c[1]), cplx(c[2], c[3]), cplx(c[0], c[4]), cplx(c[2], c[5])); });
    sink([&]() { return fmt("coefficient calls with %g %g %g %g %g %g", c[0], c[1], c[2], c[3], c[4], c[5]); }, q);
  }
}

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg);
#ifdef IIR1_NO_EXCEPTIONS
  FILE* f = fopen(R.out.c_str(), "wb");
  enumerate(R, reg, [&](std::function<std::string()>, const Rec& q) { fwrite(&q, sizeof q, 1, f); });
  fclose(f);
  return 0;
#else
  std::string other;
  for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--noexc") other = argv[i + 1];
  std::string rec = R.out + ".rec";
  int rc = system((other + fmt(" --shard %d/%d --tier %s --out ", R.shard, R.nshards, R.tier.c_str()) + rec).c_str());
  FILE* f = fopen(rec.c_str(), "rb");
  if (!f) { R.fail("the build without exceptions crashes", fmt("exit status %d", rc)); return R.finish(); }
  uint64_t n = 0;
  enumerate(R, reg, [&](std::function<std::string()> text, const Rec& q) {
    Rec o;
    ++n; R.states++; R.transitions += 2; R.traces++; R.evals++;
    if ((long) q.verdict % 10 == OK) R.counts["accepted"]++; else R.counts["with_a_rejection"]++;
    R.outcome(q.hash + (uint64_t) q.verdict);
    if (fread(&o, sizeof o, 1, f) != 1) { R.fail("the build without exceptions stopped early at: " + text(), text()); R.finish(); _exit(1); }
    if (o.verdict != q.verdict)
      R.fail(text() + fmt(": with exceptions verdict %g, with IIR1_NO_EXCEPTIONS %g (0 accepted, 1 rejected / aborted; tens: response(0.6), hundreds: operator[] out of range, thousands: pole/zero report)", q.verdict, o.verdict), text());
    else if (o.hash != q.hash) {
      bool same = true;
      for (int k = 0; k < 8; ++k) same = same && near(q.c[k], o.c[k], 1e-9);
      if (!same) R.fail(text() + fmt(": the filter differs between the two builds, e.g. b0 of stage 0 is %s and %s", num(q.c[4]).c_str(), num(o.c[4]).c_str()), text());
      else R.counts["equal_up_to_rounding_only"]++;
    }
    if (n % 40000 == 1) R.sample(text());
  });
  fclose(f); unlink(rec.c_str());
  if (rc) R.fail("the build without exceptions ends abnormally", fmt("exit status %d", rc));
  return R.finish();
#endif
}
