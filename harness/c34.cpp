// C34: the symmetries of filter design: mirroring the frequency axis mirrors the
// filter (and turns low into high), opposite gains cancel, Butterworth low and
// high pass (band pass and stop) are power complementary, Chebyshev I and II are
// each other's complement, the RBJ filters add up.  Full product of classes,
// orders, frequencies and parameters, compared at many frequencies; the oracle is
// a second filter of the library, so that the comparison can be a lot tighter
// than one with a formula.
#include "core.hpp"
using namespace mc;

static const Registry* REG;
static const Entry* find(Family f, Kind k) {
  for (const Entry& e : *REG) if (e.meta.fam == f && e.meta.kind == k) return &e;
  return nullptr;
}
struct Filt { // a configured filter and how it was obtained
  std::unique_ptr<IFilter> f; const Entry* e; Op op;
  Filt(const Entry* en, int n, const std::vector<double>& p, Report& R) : e(en), op(opN(en->meta.pole() ? n : NO_ORDER, p)) {
    f.reset(en->make(nullptr));
    if (apply(*f, op) != OK) { R.fail(en->meta.name + ": " + cxx(op) + " is rejected", cxx(en->meta, {op})); f.reset(en->make(nullptr)); }
  }
  cplx operator()(double x) { return f->response(x); }
  std::string text() const { return e->meta.name + ": " + cxx(op); }
};

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg);
  REG = &reg;
  std::vector<double> grid;
  int ng = R.thorough ? 200 : 40;
  for (int i = 0; i <= ng; ++i) grid.push_back(0.5 * i / ng);
  for (double x : {0.0003, 0.002, 0.011}) { grid.push_back(x); grid.push_back(0.5 - x); }
  std::vector<double> fcs = {0.002, 0.007, 0.02, 0.05, 0.1, 0.125, 0.17, 0.2, 0.23, 0.249, 0.25};
  std::vector<double> fws = {0.003, 0.01, 0.03, 0.06, 0.1, 0.2, 0.3};
  if (R.thorough) { for (int i = 1; i < 32; ++i) fcs.push_back(i / 128.0 + 1e-3); for (int i = 1; i < 20; ++i) fws.push_back(i / 64.0); }
  const std::vector<double> gains = R.thorough ? std::vector<double>{0.25, 0.5, 1, 2, 3, 6, 9, 12, 18, 24, 36, 48} : std::vector<double>{0.5, 3, 6, 12, 24};
  const std::vector<double> ripples = R.thorough ? std::vector<double>{0.01, 0.03, 0.1, 0.25, 0.5, 1, 2, 3, 6} : std::vector<double>{0.01, 0.1, 1, 3};
  const std::vector<double> atts = R.thorough ? std::vector<double>{1, 3, 6, 10, 20, 30, 40, 60, 80} : std::vector<double>{3, 20, 40, 60};
  const double TOL = 1e-7;
  // compares two quantities made of responses at all frequencies
  auto agree = [&](const char* rel, Filt& a, Filt& b, const std::function<cplx(double)>& x, const std::function<cplx(double)>& y, double top) {
    R.states++; R.traces += 2; R.transitions += 2;
    uint64_t h = 0;
    for (double f : grid) {
      cplx u = x(f), v = y(f);
      R.evals++;
      double err = std::abs(u - v) / std::max(top, std::abs(v));
      R.maximum(rel, err);
      h = h * 31 + (uint64_t) (std::abs(u) * 1e6);
      if (!(err < TOL)) {
        R.fail(std::string(rel) + ": " + a.text() + " and " + b.text() + fmt(" at frequency %.17g: %.12g%+.12gi instead of %.12g%+.12gi", f, u.real(), u.imag(), v.real(), v.imag()), cxx(a.e->meta, {a.op}) + "// and\n" + cxx(b.e->meta, {b.op}) + fmt("// compare response() at %.17g (%s)", f, rel));
        return;
      }
    }
    R.outcome(h);
  };
  static const Kind mirror[] = {HP, LP, BP, BS, HS, LS, BSH, R_HP, R_LP, R_BP1, R_BP2, R_BS, R_NOTCH, R_HS, R_LS, R_BSH, R_AP};
  for (const Entry& e : reg) {
    const Meta& m = e.meta;
    std::vector<std::vector<double>> ps = {{}};
    for (size_t i = 0; i < m.roles.size(); ++i) {
      std::vector<double> v;
      switch (m.roles[i]) {
      case FREQ: v = fcs; for (double d : fcs) v.push_back(0.5 - d); break;
      case WIDTH: v = fws; break;
      case GAIN: v = gains; for (double d : gains) v.push_back(-d); break;
      case RIPPLE: v = ripples; break;
      case ATT: v = m.shelf() ? ripples : atts; break;
      case QF: v = {0.1, 0.5, 0.70710678118654752, 1, 3, 10, 40}; break;
      case BW: v = {0.1, 0.5, 1, 2}; break;
      case SLOPE: v = {0.1, 0.5, 0.8, 1}; break;
      }
      std::vector<std::vector<double>> n;
      for (auto& p : ps) for (double d : v) { n.push_back(p); n.back().push_back(d); }
      ps.swap(n);
    }
    uint64_t before = R.states;
    // and along dense lines, with the orders in turn
    std::vector<int> only(ps.size(), 0);
    { Report all(0, nullptr); int k = 0; denseLines(all, m, R.thorough ? 8000 : 2400, 1, [&](const Op& o) { ps.push_back(o.p); only.push_back(1 + k++ % std::max(1, m.cap)); return true; }); }
    for (size_t pi = 0; pi < ps.size(); ++pi) {
      auto& p = ps[pi];
      if (!R.mine()) continue;
      double fc = p[0];
      if (m.band() && m.pole() && (fc - p[1] / 2 < 0.001 || fc + p[1] / 2 > 0.499)) continue;
      if (m.shelf() && m.fam != BUTTER && p.back() >= 0.9 * std::fabs(p[p.size() - 2])) continue;
      if (m.kind == R_BSH && p[2] * 2 * M_PI * fc / std::sin(2 * M_PI * fc) > 12) continue; // the bandwidth reaches beyond Nyquist by far
      bool extreme = fc < 0.02 || fc > 0.48 || (m.band() && m.pole() && (p[1] < 0.01 || fc - p[1] / 2 < 0.01 || fc + p[1] / 2 > 0.49));
      int top = !m.pole() ? 1 : extreme ? std::min(m.cap, 6) : m.cap;
      for (int n = only[pi] ? std::min(only[pi], top) : 1; n <= (only[pi] ? std::min(only[pi], top) : top); ++n) {
        R.cur(m.name + " " + cxx(opN(n, p)));
        Filt a(&e, n, p, R);
        double big = 1;
        for (size_t i = 0; i < p.size(); ++i) if (m.roles[i] == GAIN) big = std::max(1.0, std::pow(10, p[i] / 20));
        // 1. mirrored frequency: H(z) -> H(-z)
        if (m.kind != R_NOTCH && m.kind != R_BSH && m.kind != R_BP1 && (fc <= 0.25 || mirror[m.kind] == m.kind)) {
          std::vector<double> q = p; q[0] = 0.5 - fc;
          Filt b(find(m.fam, mirror[m.kind]), n, q, R);
          double s = m.kind == R_BP2 ? -1 : 1; // s/(s^2+..) -> the same; s=(1-1/z)/(1+1/z) -> 1/s
          s = 1;
          agree("mirror", a, b, [&](double f) { return a(f); }, [&](double f) { return s * std::conj(b(0.5 - f)); }, big);
        }
        // 2. opposite gain: the product is 1
        if (m.shelf() || m.kind == R_LS || m.kind == R_HS || m.kind == R_BSH) {
          size_t g = 0; while (m.roles[g] != GAIN) ++g;
          if (p[g] > 0) {
            std::vector<double> q = p; q[g] = -p[g];
            Filt b(&e, n, q, R);
            agree("opposite gain", a, b, [&](double f) { return a(f) * b(f); }, [&](double) { return 1.0; }, big);
          }
        }
        // 3. power complement
        if (m.fam == BUTTER && (m.kind == LP || m.kind == BP)) {
          Filt b(find(m.fam, m.kind == LP ? HP : BS), n, p, R);
          agree("power complement", a, b, [&](double f) { return std::norm(a(f)) + std::norm(b(f)); }, [&](double) { return 1.0; }, 1);
        }
        if (m.fam == CHEB2 && !m.shelf()) {
          std::vector<double> q = p;
          q.back() = 10 * std::log10(1 + 1 / (std::pow(10, p.back() / 10) - 1));
          Filt b(find(CHEB1, m.kind == LP ? HP : m.kind == HP ? LP : m.kind == BP ? BS : BP), n, q, R);
          agree("Chebyshev complement", a, b, [&](double f) { return std::norm(a(f)) + std::norm(b(f)); }, [&](double) { return 1.0; }, 1);
        }
        // 4. low shelf and high shelf: G / opposite
        if (m.kind == R_LS || (m.fam == BUTTER && m.kind == LS)) {
          Filt b(find(m.fam, m.fam == BUTTER ? HS : R_HS), n, p, R);
          double G = std::pow(10, p[1] / 20);
          agree("both shelves", a, b, [&](double f) { return a(f) * b(f); }, [&](double) { return G; }, big);
        }
        // 5. RBJ filters of one frequency and Q
        if (m.kind == R_LP) {
          Filt h(find(RBJF, R_HP), n, p, R), s(find(RBJF, R_BS), n, p, R), b1(find(RBJF, R_BP1), n, p, R), b2(find(RBJF, R_BP2), n, p, R), al(find(RBJF, R_AP), n, p, R);
          double Q = p[1];
          agree("low + high = band stop", a, h, [&](double f) { return a(f) + h(f); }, [&](double f) { return s(f); }, 1);
          agree("band pass + band stop = 1", b2, s, [&](double f) { return b2(f) + s(f); }, [&](double) { return 1.0; }, 1);
          agree("band pass 1 = Q band pass 2", b1, b2, [&](double f) { return b1(f); }, [&](double f) { return Q * b2(f); }, 1);
          agree("all pass = band stop - band pass", al, s, [&](double f) { return al(f); }, [&](double f) { return s(f) - b2(f); }, 1);
          agree("|low high| = Q^2 |band pass 2|^2", a, h, [&](double f) { return a(f) * h(f); }, [&](double f) { return Q * Q * b2(f) * b2(f); }, 1);
        }
      }
    }
    R.sample(m.name + fmt(": %llu pairs of filters in this shard", (unsigned long long) (R.states - before)));
  }
  return R.finish();
}
