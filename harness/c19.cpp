// C19: the reported complex response is the Fourier transform of what the
// filter does to samples, and the product of its sections: product of designs
// (all orders) and frequencies.
#include "core.hpp"
using namespace mc;

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg);
  std::vector<double> fr = {0, 1e-9, 1e-7, 1e-6, 4e-6, 3e-5, 2e-4, 0.001, 0.01, 0.05, 0.1, 0.125, 0.2, 0.25, 0.3, 0.375, 0.4, 0.45, 0.49, 0.499, 0.5};
  for (int i = 1, n = R.thorough ? 400 : 25; i < n; ++i) fr.push_back(i * 0.5 / n);
  static std::vector<double> h(40000);
  // response of coefficients
  auto one = [](const Coef& c, double f) {
    cplx z = std::polar(1.0, -2 * M_PI * f);
    return (c.b0 + z * (c.b1 + z * c.b2)) / (c.a0 + z * (c.a1 + z * c.a2));
  };
  // response(q) against the product of the sections
  auto product = [&](IFilter& f, double q, cplx r, cplx& w) {
    w = 1;
    const cplx z = std::polar(1.0, -2 * M_PI * q);
    double err = 0; // rounding of sections with cancellation in numerator or denominator, relative to the product itself
    for (int s = 0; s < f.numStages(); ++s) {
      Coef c = f.used(s);
      const cplx h1 = one(c, q);
      const double den = std::abs(c.a0 + z * (c.a1 + z * c.a2)) + 1e-300;
      const double d = ((std::fabs(c.b0) + std::fabs(c.b1) + std::fabs(c.b2)) / den + std::abs(h1) * (std::fabs(c.a0) + std::fabs(c.a1) + std::fabs(c.a2)) / den) * 2.3e-16;
      err = err * (std::abs(h1) + d) + std::abs(w) * d;
      w *= h1;
    }
    return std::abs(w - r) <= 1e-9 * std::abs(w) + 32 * err + 1e-300;
  };
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    size_t np = m.roles.size();
    std::vector<double> p(np);
    std::function<void(size_t)> rec = [&](size_t i) {
      if (i < np) {
        std::vector<double> vs = valuesFor(m, i, R.thorough || np < 3 || m.cap < 10);
        if (m.roles[i] == FREQ && !m.band()) { vs.push_back(0.02); vs.push_back(0.48); }
        for (double v : vs) { p[i] = v; rec(i + 1); }
        return;
      }
      for (int o = 1; o <= (m.pole() ? m.cap : 1); ++o) {
        if (!R.mine()) continue;
        Op op = opN(m.pole() ? o : NO_ORDER, p);
        R.cur(m.name + " " + cxx(op));
        std::unique_ptr<IFilter> f(e.make(nullptr));
        if (apply(*f, op) != OK) continue;
        R.states++; R.traces++;
        // sections: product, and the response of the single section
        std::vector<cplx> rs(fr.size());
        double top = 0;
        for (size_t k = 0; k < fr.size(); ++k) { rs[k] = f->response(fr[k]); top = std::max(top, std::abs(rs[k])); }
        R.outcome(fnv(rs.data(), rs.size() * sizeof rs[0]));
        auto fail = [&](const char* w, double fq, cplx got, cplx want) {
          R.fail(m.name + ": " + cxx(op) + fmt(": response(%g) is (%.12g,%.12g) but %s (%.12g,%.12g)", fq, got.real(), got.imag(), w, want.real(), want.imag()), cxx(m, {op}) + fmt("f.response(%.17g);", fq));
        };
        for (size_t k = 0; k < fr.size(); ++k) {
          cplx w;
          R.evals++; R.transitions++;
          if (!product(*f, fr[k], rs[k], w)) { fail("the product of its sections is", fr[k], rs[k], w); break; }
        }
        // impulse response until it has decayed
        f->reset();
        size_t n = 0; double peak = 0, recent = 1; bool done = false;
        for (; n < h.size() && !done; ++n) {
          h[n] = f->filter(n == 0 ? 1.0 : 0.0);
          peak = std::max(peak, std::fabs(h[n]));
          recent = std::max(recent * 0.99, std::fabs(h[n]));
          done = n > 200 && recent < 1e-13 * peak;
        }
        if (!done) { R.counts["designs_with_a_too_long_impulse_response"]++; continue; }
        R.counts["impulse_responses_transformed"]++;
        R.transitions += n;
        for (size_t k = 0; k < fr.size(); ++k) {
          cplx s(0), z(1), w = std::polar(1.0, -2 * M_PI * fr[k]);
          for (size_t j = 0; j < n; ++j) { s += h[j] * z; z *= w; if ((j & 63) == 63) z = std::polar(1.0, -2 * M_PI * fmod(fr[k] * (j + 1), 1.0)); }
          double er = std::abs(s - rs[k]) / (top + peak);
          R.maximum("relative_difference_to_transform", er);
          R.evals++;
          if (!(er < 1e-8)) { fail("the transform of the impulse response is", fr[k], rs[k], s); break; }
        }
      }
    };
    rec(0);
    // dense lines: designs with one argument in small steps, the frequencies in small steps too
    {
      std::unique_ptr<IFilter> f(e.make(nullptr));
      uint64_t turn = 0;
      auto at = [&](const Op& op, double q) {
        cplx w, r = f->response(q);
        R.evals++; R.transitions++;
        if (product(*f, q, r, w)) return true;
        R.fail(m.name + ": " + cxx(op) + fmt(": response(%.17g) is (%.12g,%.12g) but the product of its sections is (%.12g,%.12g)", q, r.real(), r.imag(), w.real(), w.imag()), cxx(m, {op}) + fmt("f.response(%.17g);", q));
        return false;
      };
      denseLines(R, m, R.thorough ? 20000 : 3000, 12, [&](const Op& op) {
        R.cur(m.name + " " + cxx(op));
        R.states++; R.traces++;
        if (apply(*f, op) != OK) { R.fail(m.name + ": " + cxx(op) + " is rejected", cxx(m, {op})); return false; }
        for (int k = 0; k < 3; ++k) if (!at(op, double(++turn * 7919 % 100003) / 200006)) return false;
        return true;
      });
      const int N = R.thorough ? 400000 : 40000;
      for (int o = 1; o <= (m.pole() ? m.cap : 1); o = o < 4 ? o + 1 : o * 2) {
        if (!R.mine()) continue;
        std::vector<double> q = base(m);
        Op op = opN(m.pole() ? o : NO_ORDER, q);
        R.states++; R.traces++;
        if (apply(*f, op) != OK) continue;
        bool ok = true;
        for (int i = 0; ok && i <= N; ++i) ok = at(op, 0.5 * i / N) && (i % 4 || at(op, 0.5 * std::pow(10, -12 + 12.0 * i / N)));
      }
    }
    R.sample(m.name + ": " + cxx(opN(m.pole() ? m.cap : NO_ORDER, p)) + fmt(" at %zu frequencies", fr.size()));
  }
  // single sections, one coefficient in small steps
  for (int which = 0; which < 6; ++which) for (int sg = 0; sg < 2; ++sg) {
    if (!R.mine()) continue;
    const int N = R.thorough ? 1000000 : 100000;
    for (int i = 0; i <= N; ++i) {
      double c[6] = {sg ? 0.8 : 1, sg ? -0.7 : 0.4, sg ? 0.3 : 0.2, sg ? -0.5 : 1, sg ? 0.125 : 0.6, sg ? 2 : -0.3};
      double u = double(i) / N, lg = std::pow(10, -6 + 12 * u);
      if (which == 0) c[0] = (sg ? -1 : 1) * lg; else if (which == 1) c[1] = -3 + 6 * u; else if (which == 2) c[2] = -2 + 4 * u; else c[which] = i & 1 ? -3 + 6 * u : (i & 2 ? -lg : lg);
      Iir::Biquad b; b.setCoefficients(c[0], c[1], c[2], c[3], c[4], c[5]);
      R.states++;
      for (int k = 0; k < 3; ++k) {
        double f = 0.5 * double((uint64_t(i) * 3 + k) * 7919 % 100003) / 100003;
        cplx z = std::polar(1.0, -2 * M_PI * f), den = c[0] + z * (c[1] + z * c[2]);
        if (std::abs(den) < 1e-2 * (std::fabs(c[0]) + std::fabs(c[1]) + std::fabs(c[2]))) continue;
        cplx w = (c[3] + z * (c[4] + z * c[5])) / den, r = b.response(f);
        R.evals++; R.transitions++;
        if (!(std::abs(w - r) <= 1e-11 * (std::fabs(c[3]) + std::fabs(c[4]) + std::fabs(c[5])) / std::abs(den))) { R.fail(fmt("Biquad: response(%.17g) is (%g,%g) instead of (%g,%g)", f, r.real(), r.imag(), w.real(), w.imag()), fmt("Iir::Biquad b; b.setCoefficients(%.17g,%.17g,%.17g,%.17g,%.17g,%.17g); b.response(%.17g);", c[0], c[1], c[2], c[3], c[4], c[5], f)); i = N; break; }
      }
    }
  }
  // single sections
  static const double v[] = {-1, -0.5, 0, 0.75, 2};
  for (int k = 0; k < 3125 * 3; ++k) {
    if (!R.mine()) continue;
    double a0 = k % 3 == 0 ? 1 : k % 3 == 1 ? -2 : 0.3; int q = k / 3;
    double c[5]; for (double& d : c) { d = v[q % 5]; q /= 5; }
    Iir::Biquad b; b.setCoefficients(a0, c[0], c[1], c[2], c[3], c[4]);
    Coef g = coef(b);
    for (double f : fr) {
      cplx z = std::polar(1.0, -2 * M_PI * f), den = a0 + z * (c[0] + z * c[1]);
      if (std::abs(den) < 1e-3) continue;
      cplx w = (c[2] + z * (c[3] + z * c[4])) / den, r = b.response(f);
      R.evals++; R.transitions++;
      if (!(std::abs(w - r) <= 1e-9 * (1 + std::abs(w)))) { R.fail(fmt("Biquad: response(%g) is (%g,%g) instead of (%g,%g)", f, r.real(), r.imag(), w.real(), w.imag()), fmt("Iir::Biquad b; b.setCoefficients(%g,%g,%g,%g,%g,%g); b.response(%g);", a0, c[0], c[1], c[2], c[3], c[4], f)); break; }
    }
    (void) g;
    R.states++;
  }
  return R.finish();
}
