// C26: every accepted design is stable: all poles of every section inside the
// unit circle (triangle criterion on the coefficients that filter), and the
// real filter's impulse response dies away.  Full product of class, order,
// frequencies and parameters.
#include "core.hpp"
using namespace mc;

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg);
  const bool T = R.thorough;
  std::vector<double> fcs = {0.0001, 0.0002, 0.0005, 0.001, 0.002, 0.005, 0.01, 0.02, 0.05, 0.1, 0.125, 0.15, 0.2, 0.2499, 0.25, 0.2501, 0.3, 1.0 / 3, 0.35, 0.4, 0.45, 0.48, 0.49, 0.495, 0.498, 0.499, 0.4995, 0.4998, 0.4999};
  for (int i = 1, n = T ? 150 : 50; i < n; ++i) fcs.push_back(i / (2.0 * n + 1));
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    std::vector<std::vector<double>> pl;
    for (double fc : fcs) {
      if (!m.band()) { pl.push_back({fc}); continue; }
      for (double fw : {0.00001, 0.00005, 0.0002, 0.001, 0.005, 0.01, 0.05, 0.1, 0.2, 0.3, 0.4, 0.45}) if (fc - fw / 2 >= 0.0001 && fc + fw / 2 <= 0.4999) pl.push_back({fc, fw});
    }
    for (size_t i = m.band() ? 2 : 1; i < m.roles.size(); ++i) {
      std::vector<double> v;
      switch (m.roles[i]) {
      case QF: v = {0.01, 0.1, 0.25, 0.5, 0.70710678118654752, 1, 2, 5, 10, 20, 50, 100, 500, 1000, 20000}; break;
      case BW: v = {0.01, 0.05, 0.1, 0.25, 0.5, 1, 2, 3, 5}; break;
      case SLOPE: v = {0.05, 0.1, 0.3, 0.5, 0.8, 0.9, 1}; break;
      case GAIN: v = {-120, -60, -30, -12, -6, -1, -0.1, 0.1, 1, 6, 12, 30, 60, 120}; break;
      case RIPPLE: v = m.shelf() ? std::vector<double>{0.01, 0.05, 0.5, 2} : std::vector<double>{0.001, 0.01, 0.1, 0.5, 1, 3, 6, 10, 30}; break;
      case ATT: v = m.shelf() ? std::vector<double>{0.01, 0.05, 0.5, 2} : std::vector<double>{0.5, 1, 3, 6, 10, 20, 40, 60, 80, 100}; break;
      default: break;
      }
      std::vector<std::vector<double>> n;
      for (auto& q : pl) for (double d : v) { n.push_back(q); n.back().push_back(d); }
      pl = n;
    }
    std::unique_ptr<IFilter> f(e.make(nullptr));
    uint64_t cnt = 0;
    for (auto& p : pl) {
      size_t g = m.band() ? 2 : 1;
      if (m.pole() && m.shelf() && m.fam != BUTTER && p[g + 1] >= std::fabs(p[g])) continue;
      if (m.kind == R_BSH && std::log(2.0) / 2 * p[2] * 2 * M_PI * p[0] / std::sin(2 * M_PI * p[0]) > 20) continue;
      if (!R.mine()) continue;
      for (int n = 1; n <= (m.pole() ? m.cap : 1); ++n) {
        Op op = opN(m.pole() ? n : NO_ORDER, p);
        R.cur(m.name + " " + cxx(op));
        R.states++; R.transitions++; R.traces++;
        if (apply(*f, op) != OK) { R.fail(m.name + ": " + cxx(op) + " is rejected", cxx(m, {op})); continue; }
        double rmax = 0; bool bad = false;
        for (int s = 0; s < f->maxStages() && !bad; ++s) {
          Coef c = f->stage(s);
          double a1 = c.a1 / c.a0, a2 = c.a2 / c.a0;
          R.evals++;
          double margin = std::min(1 - std::fabs(a2), 1 + a2 - std::fabs(a1));
          double disc = a1 * a1 / 4 - a2;
          double rad = disc < 0 ? std::sqrt(a2) : std::fabs(a1) / 2 + std::sqrt(disc);
          rmax = std::max(rmax, rad);
          if (!(margin > 0) || !std::isfinite(c.b0) || !std::isfinite(c.b1) || !std::isfinite(c.b2)) {
            bad = true;
            R.fail(m.name + ": " + cxx(op) + fmt(": section %d has a pole of magnitude %.17g (a1=%.17g, a2=%.17g)", s, rad, a1, a2), cxx(m, {op}));
          }
        }
        R.maximum("largest_pole_radius", rmax);
        // the real filter: the response to an impulse has died away
        if (!bad && cnt++ % (T ? 5 : 20) == 0 && rmax < 0.999) {
          f->reset();
          int order = m.pole() ? 2 * n : 2;
          long N = (long) ((std::log(1e-7) - 3 * order) / std::log(std::max(rmax, 0.01))) + 60;
          double peak = 0, tail = 0;
          for (long k = 0; k < N + 20; ++k) { double y = std::fabs(f->filter(k == 0)); if (k < N) peak = std::max(peak, y); else tail = std::max(tail, y); R.transitions++; if (!(y < 1e12)) { tail = INF; break; } }
          R.evals++; R.counts["impulse_responses"]++;
          if (!(tail <= 1e-3 * peak + 1e-12)) R.fail(m.name + ": " + cxx(op) + fmt(": %g of the impulse response's peak %g is left after %ld samples", tail, peak, N), cxx(m, {op}));
          f->reset();
        }
        R.outcome(fnv(&rmax, 8));
      }
    }
    denseLines(R, m, T ? 60000 : 12000, 12, [&](const Op& op) {
      R.cur(m.name + " " + cxx(op));
      R.states++; R.transitions++; R.traces++;
      if (apply(*f, op) != OK) { R.fail(m.name + ": " + cxx(op) + " is rejected", cxx(m, {op})); return false; }
      for (int s = 0; s < f->maxStages(); ++s) {
        Coef c = f->stage(s);
        double a1 = c.a1 / c.a0, a2 = c.a2 / c.a0;
        R.evals++;
        if (!(std::min(1 - std::fabs(a2), 1 + a2 - std::fabs(a1)) > 0) || !std::isfinite(c.b0) || !std::isfinite(c.b1) || !std::isfinite(c.b2)) { R.fail(m.name + ": " + cxx(op) + fmt(": section %d is not stable (a1=%.17g, a2=%.17g)", s, a1, a2), cxx(m, {op})); return false; }
      }
      return true;
    });
    R.sample(m.name + fmt(": %zu parameter sets, orders 1..%d", pl.size(), m.pole() ? m.cap : 1));
  }
  return R.finish();
}
