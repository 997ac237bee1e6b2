// C08: a section computes its difference equation, in every topology.
// All coefficient sets of a small dyadic alphabet x all sample sequences up to
// a length (all double operations are exact there, so the comparison is exact
// whatever the order of the operations), all power-of-two amplitudes, and long
// runs of systems with bounded integer states.
#include "core.hpp"
using namespace mc;

struct C5 { double b0, b1, b2, a1, a2; };
struct Ref { // the difference equation, literally
  C5 c; double x1 = 0, x2 = 0, y1 = 0, y2 = 0;
  explicit Ref(const C5& q) : c(q) {}
  double step(double x) {
    double y = c.b0 * x + c.b1 * x1 + c.b2 * x2 - c.a1 * y1 - c.a2 * y2;
    x2 = x1; x1 = x; y2 = y1; y1 = y;
    return y;
  }
};
static const char* TN[] = {"DirectFormI", "DirectFormII", "TransposedDirectFormII", "RBJ object (DirectFormI)",
                           "SOSCascade<1,DirectFormI>", "SOSCascade<1,DirectFormII>", "SOSCascade<1,TransposedDirectFormII>", "SOSCascade<1> (default state)"};
enum { NT = 8 };
struct Sut {
  virtual ~Sut() {}
  virtual double step(double x) = 0;
};
template <class S> struct St : Sut { Iir::Biquad b; S s; double step(double x) override { return b.filter(x, s); } };
struct Rb : Sut { Iir::RBJ::LowPass f; double step(double x) override { return f.filter(x); } };
template <class S> struct So : Sut { Iir::Custom::SOSCascade<1, S> f; double step(double x) override { return f.filter(x); } };
struct Sd : Sut { Iir::Custom::SOSCascade<1> f; double step(double x) override { return f.filter(x); } };

// a0: the coefficients handed over are multiplied by it
static Sut* mk(int t, const C5& c, double a0, void* w) {
  auto set = [&](Iir::Biquad& b) { b.setCoefficients(a0, c.a1 * a0, c.a2 * a0, c.b0 * a0, c.b1 * a0, c.b2 * a0); };
  double sos[1][6] = {{c.b0 * a0, c.b1 * a0, c.b2 * a0, a0, c.a1 * a0, c.a2 * a0}};
  switch (t) {
  case 0: { auto* s = new (w) St<Iir::DirectFormI>; set(s->b); return s; }
  case 1: { auto* s = new (w) St<Iir::DirectFormII>; set(s->b); return s; }
  case 2: { auto* s = new (w) St<Iir::TransposedDirectFormII>; set(s->b); return s; }
  case 3: { auto* s = new (w) Rb; set(s->f); return s; }
  case 4: { auto* s = new (w) So<Iir::DirectFormI>; s->f.setup(sos); return s; }
  case 5: { auto* s = new (w) So<Iir::DirectFormII>; s->f.setup(sos); return s; }
  case 6: { auto* s = new (w) So<Iir::TransposedDirectFormII>; s->f.setup(sos); return s; }
  default: { auto* s = new (w) Sd; s->f.setup(sos); return s; }
  }
}
static std::string text(int t, const C5& c, double a0, const std::vector<double>& x) {
  std::string s = fmt("// %s\nIir::Biquad b; b.setCoefficients(%g, %g, %g, %g, %g, %g); // a0 a1 a2 b0 b1 b2\n// samples:", TN[t], a0, c.a1 * a0, c.a2 * a0, c.b0 * a0, c.b1 * a0, c.b2 * a0);
  for (size_t i = 0; i < x.size() && i < 64; ++i) s += " " + num(x[i]);
  return s;
}

int main(int argc, char** argv) {
  Report R(argc, argv);
  static unsigned char arena[1024] __attribute__((aligned(64)));
  const std::vector<double> cv = R.thorough ? std::vector<double>{-1, -0.5, 0, 0.25, 1, 2} : std::vector<double>{-1, 0, 0.5, 2};
  const std::vector<double> av = R.thorough ? std::vector<double>{-1.5, -1, -0.5, 0, 0.5, 1} : std::vector<double>{-1, -0.5, 0, 0.5, 1};
  const std::vector<double> xs = {0, 1, -1, 3};
  const int L = R.thorough ? 7 : 6;
  // --- all coefficient sets, all sequences (tree walk; the state is copied at a branch)
  for (double b0 : cv) for (double b1 : cv) for (double b2 : cv) for (double a1 : av) for (double a2 : av) {
    if (!R.mine()) continue;
    C5 c = {b0, b1, b2, a1, a2};
    for (int t = 0; t < NT; ++t) {
      double a0 = t < 4 ? 1 : 2;
      R.cur(text(t, c, a0, {}));
      std::vector<double> seq;
      bool stop = false;
      size_t len = 1; for (int i = 0; i < L; ++i) len *= xs.size();
      if (t == 3 || t >= 5) { if (t != 7) len /= 4; } // shared code: shorter sequences
      int LL = 0; for (size_t q = 1; q < len; q *= xs.size()) ++LL;
      // every sequence from a new object (no state copying): prefixes are covered on the way
      for (size_t k = 0; k < len && !stop; ++k) {
        Sut* s = mk(t, c, a0, arena);
        Ref r(c);
        size_t q = k;
        for (int i = 0; i < LL; ++i) {
          double x = xs[q % xs.size()]; q /= xs.size();
          double y = s->step(x), w = r.step(x);
          R.transitions++;
          if (y != w) {
            seq.clear(); q = k; for (int j = 0; j <= i; ++j) { seq.push_back(xs[q % xs.size()]); q /= xs.size(); }
            R.fail(fmt("%s: output %d is %s instead of %s", TN[t], i, num(y).c_str(), num(w).c_str()), text(t, c, a0, seq)); stop = true; break;
          }
        }
        R.states++; R.traces++;
        s->~Sut();
      }
    }
    R.outcome(fnv(&c, sizeof c));
  }
  // --- amplitudes: every power of two, exact by linearity
  std::vector<C5> some = {{1, 0, 0, 0, 0}, {0.5, 1, 0.5, -0.5, 0.25}, {1, -2, 1, 1.5, 0.5}, {0.25, 0, -0.25, -1, 0.5}, {0, 1, 0, 0, -0.5}, {0, 0, 2, 0.5, 0}, {1, -1, 0, 0, 0}, {2, 0, 0, -0.5, 0}};
  std::vector<std::vector<double>> pat = {{1, 0, 0, 0, 0, 0, 0, 0}, {1, -1, 1, -1, 1, -1, 1, -1}, {3, 1, 0, -2, 0, 0, 5, 0}, {0, 0, 1, 1, 1, 1, 1, 1}, {1, 1024, -1, 0, 1.0 / 1024, 0, -1024, 1}};
  for (const C5& c : some) for (auto& p : pat) for (int e = -960; e <= 960; e += R.thorough ? 1 : 5) {
    if (!R.mine()) continue;
    for (int t = 0; t < NT; ++t) for (double a0 : {1.0, -1.0, 0.5, 8.0}) {
      Sut* s = mk(t, c, a0, arena);
      Ref r(c);
      for (size_t i = 0; i < p.size(); ++i) {
        double x = std::ldexp(p[i], e), y = s->step(x), w = std::ldexp(r.step(p[i]), e);
        R.transitions++;
        if (y != w) { std::vector<double> q = p; for (double& d : q) d = std::ldexp(d, e); R.fail(fmt("%s: output %zu is %s instead of %s (amplitude 2^%d)", TN[t], i, num(y).c_str(), num(w).c_str(), e), text(t, c, a0, q)); break; }
      }
      R.states++; R.traces++;
      s->~Sut();
    }
  }
  // --- full mantissas: nothing is rounded to less than double precision
  std::vector<double> g = {0.1, -0.3, 1.7 / 3, -1.0 / 7, 0.9};
  for (double b0 : g) for (double b1 : g) for (double b2 : g) for (double a1 : {-1.3 / 3, 0.7 / 3, 1.1}) for (double a2 : {0.33, -0.1, 1.0 / 3}) {
    if (!R.mine()) continue;
    C5 c = {b0, b1, b2, a1, a2};
    for (int t = 0; t < NT; ++t) for (int k = 0; k < 64; ++k) {
      Sut* s = mk(t, c, 1, arena);
      Ref r(c);
      std::vector<double> seq;
      for (int i = 0; i < 24; ++i) {
        double x = i < 6 ? (k >> i & 1 ? 1.0 / 3 : -0.1 * (i + 1)) : i % 5 == 0 ? 1e6 / 7 : 0, y = s->step(x), w = r.step(x);
        seq.push_back(x);
        R.transitions++;
        if (!(std::fabs(y - w) <= 1e-11 * (1 + (i >= 10 ? 1e6 : 0)))) { R.fail(fmt("%s: output %d is %s instead of %s", TN[t], i, num(y).c_str(), num(w).c_str()), text(t, c, 1, seq)); break; }
        if (i < 10) R.maximum("rounding_difference", std::fabs(y - w));
      }
      R.states++; R.traces++;
      s->~Sut();
    }
  }
  // --- dense lines: one coefficient, or the size of the samples, in small steps
  for (int which = 0; which < 9; ++which) for (int base = 0; base < 2; ++base) for (int t = 0; t < NT; ++t) {
    if (!R.mine()) continue;
    const int N = R.thorough ? 400000 : 40000;
    for (int i = 0; i <= N; ++i) {
      const double u = double(i) / N;
      C5 c = base ? C5{0.7, -0.9, 0.31, -0.83, 0.37} : C5{1, 0.5, -0.25, 0.4, -0.3};
      double a0 = base ? 1 : 0.7, sc = 1;
      auto lg = [&](double r) { return (i & 2 ? -1 : 1) * std::pow(10, -r + 2 * r * u); };
      switch (which) {
      case 0: case 1: case 2: (&c.b0)[which] = i & 1 ? -3 + 6 * u : lg(6); break;
      case 3: c.a1 = (1 + c.a2) * (2 * u - 1) * 0.98; break;
      case 4: c.a2 = std::fabs(c.a1) - 1 + (2 - std::fabs(c.a1)) * (0.01 + 0.98 * u); break;
      case 5: a0 = lg(6); break;
      case 6: sc = lg(280); break;
      case 7: sc = -3 + 6 * u; break;
      case 8: sc = i - N / 2; break;
      }
      Sut* s = mk(t, c, a0, arena);
      Ref r(c);
      double big = 0;
      std::vector<double> seq;
      const double x[12] = {1, 0, 0, -0.5, 2, 1, 1, 0, 0, 0, 0, 0.25};
      for (int k = 0; k < 12; ++k) {
        double v = sc * x[k], y = s->step(v), w = r.step(v);
        seq.push_back(v);
        big = std::max(big, std::max(std::fabs(w), std::fabs(v) * (std::fabs(c.b0) + std::fabs(c.b1) + std::fabs(c.b2))));
        if (!(std::fabs(y - w) <= 1e-11 * big)) { R.fail(fmt("%s: output %d is %s instead of %s", TN[t], k, num(y).c_str(), num(w).c_str()), text(t, c, a0, seq)); i = N; break; }
      }
      R.transitions += 12; R.states++; R.traces++;
      s->~Sut();
    }
  }
  // --- long runs, exact for ever: integer systems with poles on the unit circle or at 0
  struct LR { C5 c; const char* what; };
  std::vector<LR> lr = {{{1, 0, 0, 0, 1}, "poles at +-j"}, {{1, 2, 1, 0, 0}, "FIR"}, {{1, 0, -1, 1, 1}, "poles at exp(+-2 pi j/3)"}, {{1, -1, 0, -1, 1}, "poles at exp(+-pi j/3)"}, {{1, -1, 0, -1, 0}, "pole at 1, zero at 1"}, {{0, 0, 1, 0, -1}, "poles at +-1"}};
  const long N = R.thorough ? 5000000 : 300000;
  for (auto& l : lr) for (int in = 0; in < 3; ++in) for (int t = 0; t < NT; ++t) {
    if (!R.mine()) continue;
    Sut* s = mk(t, l.c, 1, arena);
    Ref r(l.c);
    uint64_t lfsr = 0xACE1u;
    for (long i = 0; i < N; ++i) {
      double x = 0; // 0: impulse then silence, 1: rare impulses of both signs, 2: short burst every 1000 samples
      if (in == 0) x = i == 0;
      else if (in == 1) { if (i % 61 == 0) x = (i / 61) % 2 ? -1 : 1; }
      else if (i % 1000 < 10) { lfsr = (lfsr >> 1) ^ (-(lfsr & 1) & 0xB400u); x = (double) (lfsr & 3) - 1; }
      double y = s->step(x), w = r.step(x);
      if (y != w) { R.fail(fmt("%s: output %ld of a long run (%s, input %d) is %s instead of %s", TN[t], i, l.what, in, num(y).c_str(), num(w).c_str()), text(t, l.c, 1, {})); break; }
    }
    R.transitions += N; R.states++; R.traces++;
    s->~Sut();
  }
  // --- long runs with full mantissas: stable systems, compared up to rounding
  for (C5 c : {C5{0.1, 0.2, 0.1, -1.8, 0.85}, C5{0.3, -0.1, 0.7, 0.4, -0.3}, C5{1.0 / 3, 0, 0, -0.99, 0}}) for (int in = 0; in < 3; ++in) for (int t = 0; t < NT; ++t) {
    if (!R.mine()) continue;
    Sut* s = mk(t, c, 1, arena);
    Ref r(c);
    double top = 0;
    for (long i = 0; i < N; ++i) {
      double x = in == 0 ? 1.0 / 3 : in == 1 ? (i % 14 < 7 ? 0.7 : -0.3) : std::ldexp(1.0 / 7, -(int) (i % 400)), y = s->step(x), w = r.step(x);
      top = std::max(top, std::fabs(w));
      if (!(std::fabs(y - w) <= 1e-11 * top)) { R.fail(fmt("%s: output %ld of a long run (input %d) is %s instead of %s", TN[t], i, in, num(y).c_str(), num(w).c_str()), text(t, c, 1, {})); break; }
      R.maximum("rounding_difference_in_long_runs", std::fabs(y - w) / top);
    }
    R.transitions += N; R.states++; R.traces++;
    s->~Sut();
  }
  // --- very long runs: an impulse every 4096 samples into integer systems with
  // poles at 0 and on the unit circle; the expected output is periodic or simple
  const uint64_t M = R.thorough ? (1ull << 32) + 100000 : (1ull << 28) + 100000;
  for (int t = 0; t < NT; ++t) {
    if (!R.mine()) continue;
    C5 c = {1, 2, 3, 0, 1}; // y[n] + y[n-2] = x[n] + 2 x[n-1] + 3 x[n-2]
    R.cur(text(t, c, 1, {}));
    Sut* s = mk(t, c, 1, arena);
    Ref r(c);
    for (uint64_t i = 0; i < M; ++i) {
      double x = (i & 4095) == 1 ? 1 : (i & 4095) == 3 ? -1 : 0;
      double y = s->step(x), w = r.step(x);
      if (y != w) { R.fail(fmt("%s: output %llu of a very long run is %s instead of %s", TN[t], (unsigned long long) i, num(y).c_str(), num(w).c_str()), text(t, c, 1, {}) + " an impulse 1 at 4096k+1 and -1 at 4096k+3"); break; }
      if ((i & 0xFFFFF) == 0) R.transitions += 0x100000;
    }
    R.states++; R.traces++;
    s->~Sut();
  }
  R.maximum("longest_run_samples", (double) M);
  R.sample(text(1, some[1], 1, pat[2]));
  R.evals = R.transitions;
  return R.finish();
}
