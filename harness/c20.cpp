// C20: the reported poles and zeros are those of the filter: both reports (the
// one of the filter object and the one recovered from the coefficients) describe
// the same rational function as the response, come as conjugate or real pairs,
// and a section rebuilt from its report is the same section.  Product of designs
// and of section coefficients.
#include "core.hpp"
using namespace mc;

typedef std::vector<Iir::PoleZeroPair> PZ;

// magnitude of prod (z - zeros) / prod (z - poles) at frequency f; single: first of the pair only
static double mag(const PZ& v, double f, bool lastSingle) {
  cplx z = std::polar(1.0, 2 * M_PI * f);
  double r = 1;
  for (size_t i = 0; i < v.size(); ++i) {
    r *= std::abs(z - v[i].zeros.first) / std::abs(z - v[i].poles.first);
    if (!(lastSingle && i + 1 == v.size())) r *= std::abs(z - v[i].zeros.second) / std::abs(z - v[i].poles.second);
  }
  return r;
}
static bool paired(const Iir::ComplexPair& c) {
  if (c.first.imag() == 0) return c.second.imag() == 0;
  return std::abs(c.second - std::conj(c.first)) <= 1e-9 * (1 + std::abs(c.first));
}

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg);
  const double fr[] = {0.013, 0.07, 0.11, 0.19, 0.23, 0.29, 0.34, 0.41, 0.47};
  const int NF = 9;
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    size_t np = m.roles.size();
    std::vector<double> p(np);
    auto design = [&](const Op& op, int o) {
      R.cur(m.name + " " + cxx(op));
      std::unique_ptr<IFilter> f(e.make(nullptr));
      if (apply(*f, op) != OK) return;
      R.states++; R.traces++; R.transitions++;
      bool infinite = false; // a zero at infinity: outside of the domain
      for (int s = 0; s < f->numStages(); ++s) { Coef c = f->used(s); if (std::fabs(c.b0) < 1e-9 * (std::fabs(c.b1) + std::fabs(c.b2))) infinite = true; }
      if (infinite) { R.counts["designs_with_a_zero_at_infinity_skipped"]++; return; }
      int poles = !m.pole() ? 2 : m.band() ? 2 * o : o;
      auto fail = [&](const std::string& w) { R.fail(m.name + ": " + cxx(op) + ": " + w, cxx(m, {op}) + "f.getPoleZeros();"); };
      double r[NF];
      for (int k = 0; k < NF; ++k) r[k] = std::abs(f->response(fr[k]));
      for (int which = 0; which < 2; ++which) {
        const char* wn = which ? "pole/zero report recovered from the coefficients" : "pole/zero report";
        PZ v;
        try { v = which ? f->poleZerosCascade() : f->poleZeros(); } catch (std::invalid_argument&) { fail(std::string(wn) + " throws"); break; }
        R.evals++;
        if ((int) v.size() != (poles + 1) / 2) { fail(fmt("%s has %zu pairs for %d poles", wn, v.size(), poles)); break; }
        bool single = poles & 1, ok = true;
        for (size_t k = 0; k < v.size() && ok; ++k) {
          if (single && k + 1 == v.size()) { if (v[k].poles.first.imag() != 0 || v[k].zeros.first.imag() != 0 || !v[k].isSinglePole()) { fail(fmt("%s: the single pole or zero is not real", wn)); ok = false; } }
          else if (!paired(v[k].poles) || !paired(v[k].zeros)) { fail(fmt("%s: pair %zu is neither real nor complex conjugate", wn, k)); ok = false; }
        }
        if (!ok) break;
        // same shape as the response: compare ratios
        double q[NF], lo = INF, hi = 0;
        for (int k = 0; k < NF; ++k) { q[k] = mag(v, fr[k], single); if (!std::isfinite(q[k]) || !std::isfinite(r[k]) || (r[k] > 1e-5 && !(q[k] > 0))) lo = -1, hi = INF; if (r[k] > 1e-8 && q[k] > 0) { double g = r[k] / q[k]; lo = std::min(lo, g); hi = std::max(hi, g); } }
        if (lo <= hi) { // (some frequency is not in a zero)
          R.maximum("gain_spread", hi / lo - 1);
          if (!(hi / lo - 1 < 2e-7)) { fail(fmt("%s does not describe the response: the gain factor varies between %g and %g", wn, lo, hi)); break; }
        }
      }
      R.outcome(fnv(r, sizeof r));
      // every section: rebuild from its own report
      for (int s = 0; s < f->numStages(); ++s) {
        Coef c = f->used(s);
        Iir::Biquad b, g;
        b.setCoefficients(c.a0, c.a1, c.a2, c.b0, c.b1, c.b2);
        Iir::BiquadPoleState ps(b);
        // the two roots of a pair may miss being conjugate by rounding
        if (ps.poles.second != std::conj(ps.poles.first) && ps.poles.first.imag() != 0) continue;
        g.setPoleZeroForm(ps);
        R.evals++;
        double x[5] = {c.a1 / c.a0, c.a2 / c.a0, c.b0 / c.a0, c.b1 / c.a0, c.b2 / c.a0}, y[5] = {g.getA1() / g.getA0(), g.getA2() / g.getA0(), g.getB0() / g.getA0(), g.getB1() / g.getA0(), g.getB2() / g.getA0()};
        double gs = std::fabs(x[2]) + std::fabs(x[3]) + std::fabs(x[4]);
        for (int k = 0; k < 5; ++k) if (!(std::fabs(x[k] - y[k]) < 1e-9 * (k < 2 ? 1 : gs))) { fail(fmt("section %d rebuilt from its poles, zeros and gain has coefficient %d %.12g instead of %.12g", s, k, y[k], x[k])); break; }
      }
    };
    std::function<void(size_t)> rec = [&](size_t i) {
      if (i < np) {
        std::vector<double> vs = valuesFor(m, i, R.thorough || np < 3 || m.cap < 10);
        if (m.roles[i] == FREQ && !m.band()) for (double d : {0.02, 0.48, 0.0005, 0.003, 0.4985}) vs.push_back(d);
        if (m.roles[i] == WIDTH) vs.push_back(0.003);
        for (double v : vs) { p[i] = v; rec(i + 1); }
        return;
      }
      for (int o = 1; o <= (m.pole() ? m.cap : 1); ++o) {
        if (!R.mine()) continue;
        design(opN(m.pole() ? o : NO_ORDER, p), o);
      }
    };
    rec(0);
    // dense lines: one argument in small steps
    denseLines(R, m, R.thorough ? 12000 : 2000, 12, [&](const Op& op) { size_t v = R.viol.size(); design(op, m.pole() ? op.order : 1); return R.viol.size() == v; });
    // sections whose poles and zeros coincide are reported like all others
    if (R.mine()) for (size_t g = 0; g < np; ++g) if (m.roles[g] == GAIN && !(m.pole() && m.fam != BUTTER))
      for (double fc : {0.05, 0.2, 0.25, 0.4}) for (int o = 1; o <= (m.pole() ? m.cap : 1); ++o) {
        std::vector<double> q = base(m); q[0] = fc; q[g] = 0;
        Op op = opN(m.pole() ? o : NO_ORDER, q);
        R.cur(m.name + " " + cxx(op));
        std::unique_ptr<IFilter> f(e.make(nullptr));
        R.states++; R.traces++; R.transitions++;
        if (apply(*f, op) != OK) { R.fail(m.name + ": " + cxx(op) + " is rejected", cxx(m, {op})); continue; }
        int poles = !m.pole() ? 2 : m.band() ? 2 * o : o;
        for (int which = 0; which < 2; ++which) {
          PZ v; bool bad = false;
          try { v = which ? f->poleZerosCascade() : f->poleZeros(); } catch (std::invalid_argument&) { bad = true; }
          R.evals++;
          if (bad || (int) v.size() != (poles + 1) / 2) { R.fail(m.name + ": " + cxx(op) + fmt(": the pole/zero report %s", bad ? "throws" : fmt("has %zu pairs for %d poles", v.size(), poles).c_str()), cxx(m, {op}) + "f.getPoleZeros();"); break; }
          for (size_t k = 0; k < v.size(); ++k) if (!(std::abs(v[k].poles.first - v[k].zeros.first) < 1e-6) && !(std::abs(v[k].poles.first - v[k].zeros.second) < 1e-6)) { R.fail(m.name + ": " + cxx(op) + fmt(": pair %zu of the report has different poles and zeros", k), cxx(m, {op}) + "f.getPoleZeros();"); break; }
        }
      }
    R.sample(m.name + ": " + cxx(opN(m.pole() ? m.cap : NO_ORDER, p)));
  }
  // sections: all combinations of first and second order numerators and denominators
  std::vector<double> v = {-1.5, -1, -0.5, 0, 0.25, 1, 2}, v0 = {1, -2, 0.5};
  if (R.thorough) v = {-1.9, -1.5, -1, -0.5, -0.1, 0, 0.25, 0.81, 1, 1.3, 2};
  auto section = [&](double a0, double a1, double a2, double b0, double b1, double b2) {
      Iir::Biquad b;
      b.setCoefficients(a0, a1, a2, b0, b1, b2);
      std::string t = fmt("Iir::Biquad b; b.setCoefficients(%.17g, %.17g, %.17g, %.17g, %.17g, %.17g); b.getPoleZeros();", a0, a1, a2, b0, b1, b2);
      R.cur(t);
      PZ q;
      try { q = b.getPoleZeros(); } catch (std::invalid_argument&) { R.fail("Biquad: pole/zero report throws", t); return; }
      R.evals++; R.states++; R.transitions++; R.traces++;
      if (q.size() != 1) { R.fail("Biquad: pole/zero report has no single pair", t); return; }
      // value of the polynomials at the reported roots
      auto root = [](double c0, double c1, double c2, cplx z) { double n = std::abs(z); return std::abs((c0 * z + c1) * z + c2) <= 1e-12 * ((std::fabs(c0) * n + std::fabs(c1)) * n + std::fabs(c2)); };
      auto sum = [](const Iir::ComplexPair& c) { return c.first + c.second; };
      auto prod = [](const Iir::ComplexPair& c) { return c.first * c.second; };
      double s = 1e-12;
      if (!root(a0, a1, a2, q[0].poles.first) || !root(a0, a1, a2, q[0].poles.second) || !(std::abs(sum(q[0].poles) + a1 / a0) <= s) || !(std::abs(prod(q[0].poles) - a2 / a0) <= s))
        R.fail(fmt("Biquad: reported poles (%g,%g), (%g,%g) are not the roots of the denominator", q[0].poles.first.real(), q[0].poles.first.imag(), q[0].poles.second.real(), q[0].poles.second.imag()), t);
      if (!root(b0, b1, b2, q[0].zeros.first) || !root(b0, b1, b2, q[0].zeros.second) || !(std::abs(sum(q[0].zeros) + b1 / b0) <= s) || !(std::abs(prod(q[0].zeros) - b2 / b0) <= s))
        R.fail(fmt("Biquad: reported zeros (%g,%g), (%g,%g) are not the roots of the numerator", q[0].zeros.first.real(), q[0].zeros.first.imag(), q[0].zeros.second.real(), q[0].zeros.second.imag()), t);
      if (!paired(q[0].poles) || !paired(q[0].zeros)) R.fail("Biquad: reported poles or zeros are neither real nor conjugate", t);
      Iir::BiquadPoleState ps(b);
      if (!near(ps.gain, b0 / a0, 1e-12)) R.fail("Biquad: reported gain is not b0/a0", t);
      R.outcome(fnv(&ps.poles, sizeof ps.poles) ^ fnv(&ps.zeros, sizeof ps.zeros));
  };
  for (double a0 : v0) for (double a1 : v) for (double a2 : v) {
    if (!R.mine()) continue;
    for (double b0 : v0) for (double b1 : v) for (double b2 : v) section(a0, a1, a2, b0, b1, b2);
  }
  // one coefficient in small steps
  for (int which = 0; which < 6; ++which) for (int sg = 0; sg < 2; ++sg) {
    if (!R.mine()) continue;
    const int N = R.thorough ? 1000000 : 100000;
    for (int i = 0; i <= N; ++i) {
      double c[6] = {sg ? 0.8 : 1, sg ? -1.1 : 0.4, sg ? 0.3 : 0.62, sg ? -0.5 : 1, sg ? 0.125 : 0.6, sg ? 2 : -0.3};
      double u = double(i) / N, lg = std::pow(10, -2 + 4 * u);
      if (which == 0 || which == 3) c[which] = (i & 1 ? -1 : 1) * lg; else c[which] = -3 + 6 * u;
      section(c[0], c[1], c[2], c[3], c[4], c[5]);
    }
  }
  // two roots close together or equal, real or complex
  std::vector<double> close;
  for (double r : {0.999, -0.75, 0.5, 0.125, -0.01}) for (int k = 1; k <= 16; ++k) for (int sg = -1; sg <= 1; ++sg) { close.push_back(-2 * r); close.push_back(r * r * (1 + sg * std::pow(10., -k))); }
  for (size_t i = 0; i < close.size(); i += 2) {
    if (!R.mine()) continue;
    for (size_t j = 0; j < close.size(); j += 2) section(1, close[i], close[i + 1], 1, close[j], close[j + 1]);
    section(2, 2 * close[i], 2 * close[i + 1], 0.5, 0.25, -0.25);
  }
  return R.finish();
}
