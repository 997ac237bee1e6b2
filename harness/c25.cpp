// C25: the RBJ filters have the magnitude and phase of the audio cookbook's
// analog prototypes, prewarped at the given frequency, for all products of
// frequency, Q / bandwidth / slope and gain, evaluated at many frequencies; the
// notch has its zeros on the unit circle at the frequency and poles of radius
// exp(-pi f/q) at the same angle.
#include "core.hpp"
using namespace mc;

// S = j n/d, everything multiplied by d^2
static cplx proto(const Meta& m, const std::vector<double>& p, double f, bool octaves) {
  double f0 = p[0], w0 = 2 * M_PI * f0;
  if (m.kind == R_NOTCH) {
    double r = std::exp(-M_PI * f0 / p[1]);
    cplx z = std::polar(1.0, -2 * M_PI * f), a = std::polar(1.0, w0), b = std::polar(r, w0);
    return (1.0 - a * z) * (1.0 - std::conj(a) * z) / ((1.0 - b * z) * (1.0 - std::conj(b) * z));
  }
  double n = std::sin(M_PI * f) * std::cos(M_PI * f0), d = std::cos(M_PI * f) * std::sin(M_PI * f0);
  if (f == 0.5) d = 0;
  double s2 = -n * n, o = d * d; cplx s(0, n * d);
  double Q;
  auto fromOct = [&](double bw) { return 1 / (2 * std::sinh(std::log(2.0) / 2 * bw * w0 / std::sin(w0))); };
  switch (m.kind) {
  case R_LP: Q = p[1]; return o / (s2 + s / Q + o);
  case R_HP: Q = p[1]; return s2 / (s2 + s / Q + o);
  case R_BP1: Q = octaves ? fromOct(p[1]) : p[1]; return s / (s2 + s / Q + o);
  case R_BP2: Q = octaves ? fromOct(p[1]) : p[1]; return s / Q / (s2 + s / Q + o);
  case R_BS: Q = octaves ? fromOct(p[1]) : p[1]; return (s2 + o) / (s2 + s / Q + o);
  case R_AP: Q = p[1]; return (s2 - s / Q + o) / (s2 + s / Q + o);
  default: break;
  }
  double A = std::pow(10, p[1] / 40);
  if (m.kind == R_BSH) { Q = fromOct(p[2]); return (s2 + s * (A / Q) + o) / (s2 + s / (A * Q) + o); }
  double iq = std::sqrt((A + 1 / A) * (1 / p[2] - 1) + 2), k = std::sqrt(A) * iq;
  if (m.kind == R_LS) return A * (s2 + k * s + A * o) / (A * s2 + k * s + o);
  return A * (A * s2 + k * s + o) / (s2 + k * s + A * o);
}

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regRbj(reg);
  const double TOL = 1e-5;
  std::vector<double> f0s, grid = {0, 0.0005, 0.002, 0.4999, 0.5};
  for (double d : {0.0005, 0.001, 0.002, 0.005, 0.01, 0.02, 0.05, 0.1, 0.125, 0.15, 0.2, 0.225, 0.25, 0.2501, 0.3, 1.0 / 3, 0.35, 0.4, 0.45, 0.48, 0.49, 0.495, 0.499}) f0s.push_back(d);
  for (int i = 1, n = R.thorough ? 3000 : 200; i < n; ++i) f0s.push_back(i / (2.0 * n + 1));
  int ng = R.thorough ? 400 : 100;
  for (int i = 1; i < ng; ++i) grid.push_back(0.5 * i / ng);
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    std::vector<std::vector<double>> pl = {{}};
    for (size_t i = 1; i < m.roles.size(); ++i) {
      std::vector<double> v;
      switch (m.roles[i]) {
      case QF: v = {0.01, 0.02, 0.05, 0.1, 0.25, 0.5, 0.70710678118654752, 0.9, 1, 1.5, 2, 3, 5, 8, 10, 14, 20, 35, 50, 100, 300, 1000}; break;
      case BW: v = {0.005, 0.02, 0.05, 0.1, 0.25, 0.5, 0.75, 1, 1.4, 2, 3, 4, 5, 6}; break;
      case GAIN: v = {-80, -60, -40, -24, -20, -12, -6, -3, -1, -0.1, 0, 0.1, 1, 3, 6, 12, 20, 24, 40, 60, 80}; break;
      case SLOPE: v = {0.01, 0.02, 0.05, 0.1, 0.25, 0.3, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95, 1}; break;
      default: break;
      }
      std::vector<std::vector<double>> n;
      for (auto& q : pl) for (double d : v) { n.push_back(q); n.back().push_back(d); }
      pl = n;
    }
    bool doc = m.kind == R_BP1 || m.kind == R_BP2 || m.kind == R_BS; // documented as octaves
    uint64_t onlyQ = 0, onlyOct = 0; std::string exQ, exOct;
    auto one = [&](const std::vector<double>& p, const std::vector<double>& grid) {
      const double f0 = p[0];
      Op op = opN(NO_ORDER, p);
      R.cur(m.name + " " + cxx(op));
      std::unique_ptr<IFilter> f(e.make(nullptr));
      R.states++; R.traces++;
      if (apply(*f, op) != OK) { R.fail(m.name + ": " + cxx(op) + " is rejected", cxx(m, {op})); return false; }
      std::vector<double> fr = grid;
      for (double k : {1.0, 0.999, 1.001, 0.9, 1.1, 0.5, 2.0, 0.1}) if (f0 * k <= 0.5) fr.push_back(f0 * k);
      // a pole pair next to the unit circle: rounding of the frequency is magnified
      double worst = 0, worstO = 0, where = 0; cplx wr, ww;
      uint64_t h = 0;
      for (double x : fr) {
        cplx r = f->response(x), w = proto(m, p, x, false);
        R.evals++; R.transitions++;
        double er = std::abs(r - w) / (std::abs(w) + 1e-3);
        if (!(er <= worst)) { worst = er; where = x; wr = r; ww = w; }
        if (doc) { cplx w2 = proto(m, p, x, true); double e2 = std::abs(r - w2) / (std::abs(w2) + 1e-3); if (!(e2 <= worstO)) worstO = e2; }
        h = h * 31 + (uint64_t) (std::abs(r) * 1e6);
      }
      R.outcome(h);
      const double tol = m.roles[1] == QF ? TOL * std::max(1.0, p[1] / 10) : TOL; // narrow: rounding of the frequency is magnified
      bool okQ = worst < tol, okO = doc && worstO < tol;
      if (okQ) R.maximum("relative_error_of_the_limit", worst / tol);
      if (doc && okQ && !okO) { onlyQ++; exQ = cxx(op); }
      if (doc && okO && !okQ) { onlyOct++; exOct = cxx(op); }
      if (!okQ && !okO) {
        R.fail(m.name + ": " + cxx(op) + fmt(": response(%.17g) is (%.12g,%.12g) instead of (%.12g,%.12g)", where, wr.real(), wr.imag(), ww.real(), ww.imag()), cxx(m, {op}) + fmt("f.response(%.17g);", where));
        return false;
      }
      return true;
    };
    // dense lines: one argument moves over its range in small steps, the others stand still
    {
      const int N = R.thorough ? 100000 : 20000;
      const std::vector<double> few = {0, 0.5, 0.13};
      for (size_t v = 0; v < m.roles.size() + 1; ++v) for (int b = 0; b < (v == m.roles.size() ? 1 : 4); ++b) {
        std::vector<double> x = {b == 0 ? 0.11 : b == 1 ? 0.237 : b == 2 ? 0.013 : 0.41};
        for (size_t i = 1; i < m.roles.size(); ++i) x.push_back(m.roles[i] == QF ? (m.kind == R_NOTCH ? 3.0 + 7 * b : 0.63 + b) : m.roles[i] == BW ? 0.37 + 0.6 * (b % 3) : m.roles[i] == GAIN ? (b & 1 ? 8.3 : -13.7) : 0.55 + 0.12 * b);
        for (int k = 0; k < 8; ++k) {
          if (!doc && !R.mine()) continue;
          if (doc && R.nshards > 1 && int(R.item++ % R.nshards) != R.shard) continue;
          for (int i = k; i <= N; i += 8) {
            double u = double(i) / N;
            auto lg = [&](double lo, double hi) { return lo * std::pow(hi / lo, u); };
            if (v == m.roles.size()) { // all arguments at once: the points of a lattice
              static const double alpha[] = {0.8566748838545029, 0.7338918566271259, 0.6287067210378087, 0.5385972572236101};
              auto pw = [](double lo, double hi, double z) { return lo * std::pow(hi / lo, z); };
              for (size_t k = 0; k < x.size(); ++k) {
                const double t = std::fmod(i * alpha[k], 1.0);
                x[k] = m.roles[k] == FREQ ? 0.01 + 0.48 * t : m.roles[k] == QF ? pw(0.1, 100, t) : m.roles[k] == BW ? pw(0.05, 3, t) : m.roles[k] == GAIN ? -30 + 60 * t : pw(0.05, 1, t);
              }
            } else switch (m.roles[v]) {
            case FREQ: x[0] = i & 1 ? lg(0.0005, 0.499) : 0.5 - lg(0.001, 0.4995); break;
            case QF: x[v] = lg(0.01, 1000); break;
            case BW: x[v] = lg(0.005, 6); break;
            case GAIN: x[v] = -80 + 160 * u; break;
            case SLOPE: x[v] = lg(0.01, 1); break;
            default: break;
            }
            if (m.kind == R_BSH && std::log(2.0) / 2 * x[2] * 2 * M_PI * x[0] / std::sin(2 * M_PI * x[0]) > 4) continue;
            if (!one(x, few)) break;
          }
        }
      }
    }
    for (double f0 : f0s) for (auto& q : pl) {
      std::vector<double> p = {f0}; p.insert(p.end(), q.begin(), q.end());
      // near Nyquist the octave bandwidth has no solution
      if (m.kind == R_BSH && std::log(2.0) / 2 * p[2] * 2 * M_PI * f0 / std::sin(2 * M_PI * f0) > 4) continue;
      // all shards decide the documented semantics; the rest is divided
      if (!doc && !R.mine()) continue;
      if (doc && R.nshards > 1 && int(R.item % R.nshards) != R.shard && !(f0 == 0.1)) { R.item++; continue; }
      if (doc) R.item++;
      one(p, grid);
    }
    if (doc) {
      if (onlyQ && onlyOct) R.fail(m.name + ": the width is a Q factor in " + exQ + " and in octaves in " + exOct, "");
      else if (onlyQ) R.known["rbj-octaves-" + m.name.substr(5)] = m.name + ": the parameter documented as the bandwidth in octaves acts as Q factor (0.5 is wide, 3 is narrow), e.g. " + exQ;
    }
    R.sample(m.name + fmt(": %zu frequencies x %zu parameter sets x %zu response frequencies", f0s.size(), pl.size(), grid.size()));
  }
  return R.finish();
}
