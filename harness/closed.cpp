// C21-C25: the frequency response (magnitude and phase) of every designed
// filter is the bilinear transform, prewarped at the given frequencies, of the
// analog filter its name and arguments stand for.  Full product of filter kind,
// order, frequencies and parameters, evaluated at many frequencies, against
// poles and zeros of the textbook analog filter computed here.
// MODE: 1 Butterworth, 2 Chebyshev I, 3 Chebyshev II (pass filters), 4 shelves
#include "core.hpp"
using namespace mc;

struct Proto { std::vector<cplx> p, z; double g0; bool monic; }; // monic: H(inf) = 1, else H(0) = g0

static std::vector<cplx> chebRoots(int n, double eps) { // of 1 + eps^2 Tn(s/j)^2 in the left half plane
  std::vector<cplx> r;
  double mu = std::asinh(1 / eps) / n;
  for (int k = 0; k < n; ++k) { double th = M_PI * (2 * k + 1) / (2 * n); r.push_back(cplx(-std::sinh(mu) * std::sin(th), std::cosh(mu) * std::cos(th))); }
  return r;
}
static std::vector<cplx> butterRoots(int n, double rad) {
  std::vector<cplx> r;
  for (int k = 0; k < n; ++k) r.push_back(std::polar(rad, M_PI * (2 * k + 1 + n) / (2 * n)));
  return r;
}
static Proto proto(const Meta& m, int n, const std::vector<double>& q) {
  Proto P; P.g0 = 1; P.monic = false;
  if (!m.shelf()) {
    if (m.fam == BUTTER) P.p = butterRoots(n, 1);
    else if (m.fam == CHEB1) { double e = std::sqrt(std::expm1(q[0] * std::log(10.) / 10)); P.p = chebRoots(n, e); if (n % 2 == 0) P.g0 = std::pow(10, -q[0] / 20); }
    else {
      double e = 1 / std::sqrt(std::expm1(q[0] * std::log(10.) / 10));
      for (cplx c : chebRoots(n, e)) P.p.push_back(1.0 / c);
      for (int k = 0; k < n; ++k) { if (n % 2 && k == n / 2) continue; P.z.push_back(cplx(0, 1 / std::cos(M_PI * (2 * k + 1) / (2 * n)))); }
    }
  } else {
    P.monic = true;
    double g = q[0];
    if (m.fam == BUTTER) { double G = std::pow(10, g / 20), r = std::pow(G, 1.0 / (2 * n)); P.p = butterRoots(n, 1 / r); P.z = butterRoots(n, r); }
    else {
      double rp = std::min(q[1], std::fabs(g)) * (g < 0 ? 1 : -1); // ripple towards 0 dB
      double G = std::pow(10, -g / 20), Gb = std::pow(10, (-g - rp) / 20), e = std::sqrt((G * G - Gb * Gb) / (Gb * Gb - 1));
      P.z = chebRoots(n, e); P.p = chebRoots(n, e / G);
    }
  }
  return P;
}
static cplx H(const Proto& P, cplx s) {
  size_t n = std::max(P.p.size(), P.z.size());
  cplx h(P.monic ? 1 : P.g0);
  for (size_t i = 0; i < n; ++i) {
    if (P.monic) h *= (s - P.z[i]) / (s - P.p[i]);
    else { if (i < P.z.size()) h *= (1.0 - s / P.z[i]) / (1.0 - s / P.p[i]); else h *= 1.0 / (1.0 - s / P.p[i]); }
  }
  return h;
}
// analog frequency variable of the low pass prototype for frequency f
static cplx sOf(const Meta& m, double fc, double fw, double f) {
  const double BIG = 1e60;
  double W;
  auto inv = [&](double w) { return std::fabs(w) < 1 / BIG ? BIG : -1 / w; }; // 1/(jw) = j(-1/w)
  switch (m.kind) {
  case LP: case LS: W = f == 0.5 ? BIG : std::tan(M_PI * f) / std::tan(M_PI * fc); break;
  case HP: case HS: W = f == 0.5 ? BIG : std::tan(M_PI * f) / std::tan(M_PI * fc); W = inv(W); break;
  default: {
    double w1 = 2 * M_PI * (fc - fw / 2), w2 = 2 * M_PI * (fc + fw / 2), w = 2 * M_PI * f;
    double a = std::cos((w1 + w2) / 2) / std::cos((w2 - w1) / 2), b = 1 / std::tan((w2 - w1) / 2);
    double sn = (f == 0 || f == 0.5) ? 0 : std::sin(w);
    double nu = a - std::cos(w);
    W = sn == 0 ? (nu > 0 ? BIG : -BIG) : nu / sn * b;
    if (m.kind == BS) W = inv(W);
  } }
  return cplx(0, W);
}

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
#if MODE == 1 || MODE == 4
  regButter(reg);
#endif
#if MODE == 2 || MODE == 4
  regCheb1(reg);
#endif
#if MODE == 3 || MODE == 4
  regCheb2(reg);
#endif
  const bool T = true;
  std::vector<double> grid = {0, 0.0005, 0.002, 0.005, 0.4995, 0.4999, 0.498, 0.495, 0.5, 0.001};
  int ng = R.thorough ? 250 : 60;
  for (int i = 1; i < ng; ++i) grid.push_back(0.5 * i / ng);
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    if (m.shelf() != (MODE == 4)) continue;
    std::vector<double> fcs = {0.002, 0.01, 0.05, 0.1, 0.125, 0.2, 0.25, 0.3, 0.4, 0.45, 0.49, 0.498};
    if (T) for (double d : {0.001, 0.005, 0.02, 0.03, 0.07, 0.15, 0.175, 0.22, 0.24, 0.26, 0.28, 0.35, 0.375, 0.42, 0.47, 0.48, 0.499, 1.0 / 3, 1.0 / 6}) fcs.push_back(d);
    for (double d : {0.2499, 0.2501}) fcs.push_back(d);
    if (R.thorough) for (int i = 1; i < 100; ++i) fcs.push_back(i * 0.005 - 0.0013);
    std::vector<double> fws = {0};
    if (m.band()) fws = T ? std::vector<double>{0.001, 0.003, 0.005, 0.01, 0.02, 0.05, 0.1, 0.15, 0.2, 0.3, 0.4, 0.45} : std::vector<double>{0.003, 0.01, 0.05, 0.1, 0.2, 0.4};
    // remaining parameters
    std::vector<std::vector<double>> pl = {{}};
    for (size_t i = m.band() ? 2 : 1; i < m.roles.size(); ++i) {
      std::vector<double> v;
      switch (m.roles[i]) {
      case GAIN: v = {-40, -12, -6, -1, 0.5, 3, 6, 20, 40}; if (T) for (double d : {-60., -24., -20., -3., -0.5, -0.1, 0.1, 1., 12., 24., 60., -0.05, 0.05}) v.push_back(d); if (m.fam == BUTTER) for (double d : {0., 0.008, -0.008, 0.0005, -0.0005, -80., 80.}) v.push_back(d); break;
      case RIPPLE: v = m.shelf() ? std::vector<double>{0.05, 0.5, 2} : std::vector<double>{0.01, 0.1, 0.5, 1, 3, 10}; if (T) for (double d : {0.02, 0.2, 1.0, 4.0, 6.0}) v.push_back(d); if (!m.shelf()) for (double d : {15.0, 30.0, 60.0}) v.push_back(d); break;
      case ATT: v = m.shelf() ? std::vector<double>{0.05, 0.5, 2} : std::vector<double>{3, 10, 20, 40, 60, 100}; if (T) for (double d : m.shelf() ? std::vector<double>{0.02, 0.2, 1.0, 4.0} : std::vector<double>{0.5, 1.0, 6.0, 30.0, 48.0, 80.0, 120.0}) v.push_back(d); break;
      default: break;
      }
      if (m.shelf() && !R.thorough && m.fam != BUTTER) { std::vector<double> u; for (size_t k = 0; k < v.size(); ++k) if (k % 2 == 0 || v.size() < 8) u.push_back(v[k]); v = u; }
      std::vector<std::vector<double>> n;
      for (auto& q : pl) for (double d : v) { n.push_back(q); n.back().push_back(d); }
      pl = n;
    }
    struct FW { double c, w; bool low; };
    std::vector<FW> fcw;
    for (double fc : fcs) for (double fw : fws) { if (m.band() && (fc - fw / 2 < 0.0019 || fc + fw / 2 > 0.4981)) continue; fcw.push_back({fc, fw, false}); }
    // very low frequencies and narrow bands (slow signals at high sampling rates) and their mirror images,
    // where rounding of the coefficients limits the accuracy
    for (double fc : {1e-4, 3e-4, 6e-4, 1.2e-3}) {
      if (!m.band()) { fcw.push_back({fc, 0, true}); fcw.push_back({0.5 - fc, 0, true}); continue; }
      for (double k : {0.1, 0.3, 0.5, 1.0, 1.5}) { fcw.push_back({fc, fc * k, true}); fcw.push_back({0.5 - fc, fc * k, true}); }
    }
    auto one = [&](double fc, double fw, bool low, const std::vector<double>& q, int n, const std::vector<double>& fr) {
          std::vector<double> p = {fc};
          if (m.band()) p.push_back(fw);
          p.insert(p.end(), q.begin(), q.end());
          Op op = opN(n, p);
          R.cur(m.name + " " + cxx(op));
          std::unique_ptr<IFilter> f(e.make(nullptr));
          R.states++; R.traces++;
          if (apply(*f, op) != OK) { R.fail(m.name + ": " + cxx(op) + " is rejected", cxx(m, {op})); return false; }
          Proto P = proto(m, n, q);
          double top = m.shelf() ? std::max(1.0, std::pow(10, q[0] / 20)) : 1;
          uint64_t h = 0;
          for (double x : fr) {
            cplx w = H(P, sOf(m, fc, fw, x)), r = f->response(x);
            R.evals++; R.transitions++;
            double A = std::abs(w), B = std::abs(r);
            // magnitude relative to itself down to -140 dB, phase relative to the peak
            double em = std::fabs(A - B) / (A + 1e-7), ep = std::abs(r - w) / top;
            // near the band edges a high order turns rounding of the frequency into phase
            R.maximum(low ? "magnitude_error_at_extreme_frequencies" : "magnitude_error", em); R.maximum(low ? "complex_error_at_extreme_frequencies" : "complex_error", ep);
            h = h * 31 + (uint64_t) (B * 1e6);
            double tol = low ? LOWTOL : TOL;
            // away from the extremes nothing but a few digits may be lost
            if (!low && (MODE != 3 || q[0] <= 60)) { double es = std::max(std::fabs(A - B) / (A + 1e-3), ep); R.maximum("error_down_to_-60dB", es); if (!(es < TIGHT)) tol = 0; }
            // in the middle of the frequency range hardly any
            const bool mid = m.band() ? fc - fw / 2 >= 0.03 && fc + fw / 2 <= 0.47 && fw >= 0.05 : fc >= 0.03 && fc <= 0.47;
            if (mid && !low && (MODE != 3 || q[0] <= 60)) { double es = std::max(std::fabs(A - B) / (A + 1e-2), ep); R.maximum("error_in_mid_range", es); if (!(es < MIDTOL)) tol = 0; }
            if (!(em < tol) || !(ep < tol)) {
              R.fail(m.name + ": " + cxx(op) + fmt(": response(%.17g) is (%.9g,%.9g), %.4f dB, but the analog filter with prewarped frequency has (%.9g,%.9g), %.4f dB", x, r.real(), r.imag(), 20 * std::log10(B + 1e-300), w.real(), w.imag(), 20 * std::log10(A + 1e-300)), cxx(m, {op}) + fmt("f.response(%.17g);", x));
              return false;
            }
          }
          R.outcome(h);
          return true;
    };
    // dense lines: one argument moves over its range in small steps, the others stand still
    {
      const int N = R.thorough ? 60000 : 12000, top = std::min(m.cap, R.thorough ? 12 : 9);
      std::vector<std::vector<double>> bases;
      for (int b = 0; b < (m.band() ? 3 : 2); ++b) {
        std::vector<double> v = {b == 2 ? 0.05 : b ? 0.137 : 0.31};
        for (size_t i = 1; i < m.roles.size(); ++i) v.push_back(m.roles[i] == WIDTH ? (b == 2 ? 0.006 : b ? 0.087 : 0.19) : m.roles[i] == GAIN ? (b ? -9.3 : 7.1) : m.shelf() ? (b ? 0.6 : 0.23) : m.roles[i] == RIPPLE ? (b ? 0.37 : 1.9) : b ? 23 : 47);
        bases.push_back(v);
      }
      for (int n = 1; n <= top; ++n) for (size_t v = 0; v < m.roles.size() + 1; ++v) for (int b = 0; b < (int) bases.size(); ++b) {
        if (b == 2 && v > 1) continue; // the narrow band: only its place and width
        if (b && v == m.roles.size()) continue;
        if (!R.mine()) continue;
        const double other = bases[b].size() > 1 && m.band() ? bases[b][1] : 0;
        for (int i = 0; i <= N; ++i) {
          double u = double(i) / N;
          std::vector<double> x = bases[b];
          auto lg = [&](double lo, double hi) { return lo * std::pow(hi / lo, u); };
          if (v == m.roles.size()) { // all arguments at once: the points of a lattice, in the middle of the ranges
            static const double alpha[] = {0.8566748838545029, 0.7338918566271259, 0.6287067210378087, 0.5385972572236101};
            auto pw = [](double lo, double hi, double z) { return lo * std::pow(hi / lo, z); };
            for (size_t k = 0; k < m.roles.size(); ++k) {
              const double t = std::fmod(i * alpha[k], 1.0);
              switch (m.roles[k]) {
              case FREQ: x[k] = m.band() ? 0.06 + 0.38 * t : 0.02 + 0.46 * t; break;
              case WIDTH: x[k] = pw(0.02, 2 * std::min(x[0] - 0.02, 0.48 - x[0]), t); break;
              case GAIN: x[k] = (t < 0.5 ? -1 : 1) * pw(1, 30, std::fmod(2 * t, 1.0)); break;
              default: x[k] = m.shelf() ? pw(0.05, 0.8, t) * std::fabs(x[k - 1]) : m.roles[k] == RIPPLE ? pw(0.05, 6, t) : pw(6, 50, t);
              }
            }
          } else switch (m.roles[v]) {
          case FREQ: x[0] = b == 2 ? (i & 1 ? lg(0.0021 + other / 2, 0.4979 - other / 2) : 0.5 - lg(0.0021 + other / 2, 0.4979 - other / 2)) : m.band() ? 0.0021 + other / 2 + (0.4979 - other - 0.0021) * u : i & 1 ? lg(0.002, 0.498) : 0.5 - lg(0.002, 0.498); break;
          case WIDTH: x[1] = lg(0.003, 2 * std::min(x[0] - 0.0021, 0.4979 - x[0])); break;
          case GAIN: x[v] = -40 + 80 * u; if (std::fabs(x[v]) <= (m.fam == BUTTER ? 0 : 1.05 * x.back())) continue; break;
          case RIPPLE: x[v] = m.shelf() ? lg(0.02, 0.9 * std::fabs(x[m.band() ? 2 : 1])) : lg(0.01, 15); break;
          case ATT: x[v] = m.shelf() ? lg(0.02, 0.9 * std::fabs(x[m.band() ? 2 : 1])) : lg(2, 58); break;
          default: break;
          }
          double fc = x[0], fw = m.band() ? x[1] : 0;
          std::vector<double> fr = {0, 0.5, fc};
          for (double c : {fc - fw / 2, fc + fw / 2}) for (double k : {0.9, 0.98, 1.05}) if (c * k < 0.5) fr.push_back(c * k);
          if (!one(fc, fw, false, std::vector<double>(x.begin() + (m.band() ? 2 : 1), x.end()), n, fr)) break;
        }
      }
    }
    for (const FW& cw : fcw) {
      if (!R.mine()) continue;
      const double fc = cw.c, fw = cw.w;
      std::vector<double> fr = grid;
      for (double c : {fc, fc - fw / 2, fc + fw / 2}) for (double k : {1.0, 0.99, 1.01, 0.9, 1.1, 0.5, 2.0}) if (c * k <= 0.5) fr.push_back(c * k);
      for (auto& q : pl) {
        if (cw.low && m.fam == CHEB1 && !m.shelf() && q[0] > 30) continue;
        if (cw.low && m.fam == CHEB2 && !m.shelf() && q[0] > 40) continue;
        if (m.shelf() && m.fam != BUTTER && q[1] >= std::fabs(q[0])) continue; // ripple not smaller than the gain
        for (int n = 1; n <= (cw.low ? std::min(m.cap, 8) : m.cap); ++n) {
          one(fc, fw, cw.low, q, n, fr);
        }
      }
    }
    if (m.shelf() && m.fam == CHEB2) // documented otherwise
      R.known["ripple-in-the-shelf-" + std::string(m.kind == LS ? "LowShelf" : m.kind == HS ? "HighShelf" : "BandShelf")] =
        m.name + ": the ripple documented as \"ripples in dB in the stopband\" is in the shelf, the response is that of the ChebyshevI shelf";
    R.sample(m.name + fmt(": orders 1..%d, %zu centre/cutoff frequencies, %zu widths, %zu parameter sets", m.cap, fcs.size(), fws.size(), pl.size()));
  }
  return R.finish();
}
