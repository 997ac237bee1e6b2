// C18: a filter which was never set up successfully passes its input through,
// for every sequence of samples, calls which do not configure it and rejected
// setups; response 1, and it stays so after reset, copy and assignment.
#include "core.hpp"
using namespace mc;

template <class F> static void direct(Report& R, const char* name) {
  // on the stack and heap, over dirty memory
  static const double xs[] = {0, 1, -1, 0.1, 1e-300, 1e300, -3.25, 1.0 / 3};
  const int L = 4;
  int total = 1; for (int i = 0; i < L; ++i) total *= 8;
  for (int fill : {0x00, 0xFF, 0x5A}) for (int k = 0; k < total; ++k) {
    static unsigned char mem[sizeof(F) + 64] __attribute__((aligned(64)));
    memset(mem, fill, sizeof mem);
    F* f = new (mem) F;
    int q = k;
    for (int i = 0; i < L; ++i) {
      double x = xs[q % 8]; q /= 8;
      double y = f->filter(x);
      R.transitions++;
      if (y != x) { R.fail(std::string(name) + " never set up: filter(" + num(x) + ") gives " + num(y) + fmt(" (sample %d)", i), std::string("Iir::") + name + " f; // samples index " + fmt("%d", k)); f->~F(); return; }
    }
    R.states++; R.traces++;
    f->~F();
  }
}

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg); regSos(reg);
  const int depth = R.thorough ? 5 : 4;
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    Arena a(e.size), b(e.size);
    std::vector<Op> al;
    for (double x : {1.0, -0.3, 0.0, 1e18, 1e-200}) al.push_back(opFilter({x}));
    al.push_back(opFilter({1.0 / 3, -7, 0.1, 0, 0, 5}));
    al.push_back(opT(Op::RESET));
    std::vector<Op> bad = illegal(m);
    for (size_t i = 0; i < bad.size(); i += R.thorough ? 1 : (bad.size() + 4) / 5) al.push_back(bad[i]);
    if (m.fam != RBJF) al.push_back(opT(Op::ELSE)), al.back().p = base(m); // an other object is set up
    Op used = opN(NO_ORDER, base(m));
    std::vector<int> h;
    std::function<void()> rec = [&]() {
      if ((int) h.size() == depth) {
        for (int copy = 0; copy < 3; ++copy) {
          // what was in the memory: bytes, or an object of the class which was in use
          static const int fills[] = {0xFF, 0x40, 0xA5, 0x00, -1};
          auto born = [&](Arena& x, int fill) {
            x.fresh(e, fill < 0 ? 0 : fill);
            if (fill < 0) { apply(*x.f, used); x.f->filter(1); x.f->filter(-3); x.renew(e); }
          };
          born(a, fills[R.states % 5]); born(b, fills[(R.states + copy) % 5]);
          IFilter* f = a.f;
          std::unique_ptr<IFilter> other;
          std::vector<Op> ops;
          for (size_t i = 0; i < h.size(); ++i) {
            const Op& o = al[h[i]];
            ops.push_back(o);
            R.transitions++;
            if (i == 2 && copy == 1) { b.drop(); memset(b.mem, 0xA5, b.n); b.f = a.f->clone(b.mem); f = b.f; }
            if (i == 2 && copy == 2) { b.f->assign(*a.f); f = b.f; }
            if (o.t == Op::FILTER) { for (double x : o.p) { double y = f->filter(x); if (y != x) { R.fail(m.name + " never set up successfully: filter(" + num(x) + ") gives " + num(y) + (copy ? copy == 1 ? " (copied after 2 operations)" : " (assigned after 2 operations)" : ""), cxx(m, ops)); return; } } }
            else if (o.t == Op::ELSE) { if (!other) other.reset(e.make(nullptr)); apply(*other, opElse(o)); other->filter(1); }
            else if (isSetup(o)) { if (apply(*f, o) == OK) R.fail(m.name + ": " + cxx(o) + " is accepted", cxx(m, ops)); }
            else apply(*f, o);
          }
          R.states++; R.traces++; R.evals++;
          R.outcome(fnv(coefs(*f)));
          for (double fr : {0.0, 0.1, 0.25, 0.5}) {
            cplx r = f->response(fr);
            if (!(std::abs(r - 1.0) <= 1e-12)) R.fail(m.name + " never set up successfully: response(" + num(fr) + ") is not 1", cxx(m, ops));
          }
        }
        return;
      }
      for (int i = 0; i < (int) al.size(); ++i) {
        if (h.size() == 1 && !R.mine()) continue;
        h.push_back(i); rec(); h.pop_back();
      }
    };
    R.cur(m.name);
    rec();
    // samples of every size in small steps
    for (int which = 0; which < 3; ++which) if (R.mine()) {
      b.fresh(e, 0xA5);
      const int N = (R.thorough ? 1000000 : 100000) * (which == 1 ? 4 : 1);
      for (int i = 0; i <= N; ++i) {
        double u = double(i) / N, x = which == 0 ? (i & 1 ? -1 : 1) * std::pow(10, -306 + 612 * u) : which == 1 ? -4 + 8 * u : i - N / 2;
        double y = b.f->filter(x); R.transitions++; R.states++;
        if (y != x) { R.fail(m.name + ": never set up: filter(" + num(x) + ") gives " + num(y), "Iir::" + m.name + " f; f.filter(" + num(x) + ");"); break; }
        double q = 0.5 * u; cplx r = b.f->response(q); R.evals++;
        if (!(std::abs(r - 1.0) <= 1e-12)) { R.fail(m.name + ": never set up: response(" + num(q) + ") is not 1", "Iir::" + m.name + " f; f.response(" + num(q) + ");"); break; }
      }
    }
    // many objects, many samples, many rejected calls and resets
    if (R.mine()) {
      std::vector<std::unique_ptr<IFilter>> crowd;
      auto pass = [&](IFilter& f, double x, const char* what, int k) {
        double y = f.filter(x); R.transitions++;
        if (y == x) return true;
        R.fail(m.name + fmt(": never set up, %s %d: filter(", what, k) + num(x) + ") gives " + num(y), "Iir::" + m.name + " f; // " + what); return false;
      };
      bool good = true;
      for (int k = 0; k < 520 && good; ++k) {
        crowd.emplace_back(e.make(nullptr));
        good = pass(*crowd.back(), 0.1 * k - 3, "object number", k);
        if (k % 3 == 0) { apply(*crowd.back(), used); crowd.back()->filter(1); } // every third one is then used
        if (good && k > 1 && k % 3 == 1) good = pass(*crowd[k / 6 * 3 + 1], 0.3, "an earlier object, before number", k);
      }
      for (int k = 0; k < 520 && good; ++k) { // short lived objects
        std::unique_ptr<IFilter> f(e.make(nullptr));
        good = pass(*f, 1.0 / (k + 1), "short lived object", k);
        apply(*f, used); f->filter(k);
      }
      b.fresh(e);
      for (int k = 0; k < 3000 && good; ++k) {
        good = pass(*b.f, k % 11 ? 1.0 / (k + 7) : -k, "sample", k);
        if (k % 5 == 0 && !bad.empty()) apply(*b.f, bad[k / 5 % bad.size()]);
        if (k % 7 == 0) b.f->reset();
      }
      R.states += 1041; R.traces++;
    }
    R.sample(m.name + fmt(": %zu operations, all sequences of length %d", al.size(), depth));
  }
  if (R.mine()) {
    direct<Iir::Butterworth::LowPass<1>>(R, "Butterworth::LowPass<1>");
    direct<Iir::Butterworth::BandStop<8, Iir::TransposedDirectFormII>>(R, "Butterworth::BandStop<8,TransposedDirectFormII>");
    direct<Iir::Butterworth::LowShelf<20, Iir::DirectFormI>>(R, "Butterworth::LowShelf<20,DirectFormI>");
    direct<Iir::ChebyshevI::BandShelf<7>>(R, "ChebyshevI::BandShelf<7>");
    direct<Iir::ChebyshevII::HighPass<30>>(R, "ChebyshevII::HighPass<30>");
    direct<Iir::ChebyshevII::BandPass<>>(R, "ChebyshevII::BandPass<>");
  }
  if (R.mine()) {
    direct<Iir::RBJ::LowPass>(R, "RBJ::LowPass"); direct<Iir::RBJ::HighPass>(R, "RBJ::HighPass"); direct<Iir::RBJ::BandPass1>(R, "RBJ::BandPass1");
    direct<Iir::RBJ::BandPass2>(R, "RBJ::BandPass2"); direct<Iir::RBJ::BandStop>(R, "RBJ::BandStop"); direct<Iir::RBJ::IIRNotch>(R, "RBJ::IIRNotch");
    direct<Iir::RBJ::LowShelf>(R, "RBJ::LowShelf"); direct<Iir::RBJ::HighShelf>(R, "RBJ::HighShelf"); direct<Iir::RBJ::BandShelf>(R, "RBJ::BandShelf"); direct<Iir::RBJ::AllPass>(R, "RBJ::AllPass");
  }
  if (R.mine()) {
    direct<Iir::Custom::SOSCascade<4>>(R, "Custom::SOSCascade<4>"); direct<Iir::Custom::SOSCascade<1, Iir::DirectFormI>>(R, "Custom::SOSCascade<1,DirectFormI>");
    direct<Iir::Custom::SOSCascade<12, Iir::TransposedDirectFormII>>(R, "Custom::SOSCascade<12,TransposedDirectFormII>");
  }
  return R.finish();
}
