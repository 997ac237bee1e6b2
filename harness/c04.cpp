// C04: whatever the arguments, no call leaves a NaN coefficient in a filter:
// full products of adversarial values (zeros, denormals, boundaries, huge
// numbers, infinities, NaN) for every setup and coefficient call.
#include "core.hpp"
#include <climits>
using namespace mc;

static bool hasNaN(const Coef& c) {
  for (double d : {c.a0, c.a1, c.a2, c.b0, c.b1, c.b2}) if (std::isnan(d)) return true;
  return false;
}
// the getters multiply by a0: a coefficient 0 with a0 = inf reads as NaN, so the
// filter itself (one sample at a time, zero input, zero state) is asked too
static bool nanOutput(const Iir::Biquad& b) { Iir::DirectFormI s; for (double x : {0.0, 0.0}) if (std::isnan(s.filter(x, b))) return true; return false; }

template <class Fn> static Res call(Fn fn) {
  try { fn(); } catch (const std::invalid_argument&) { return REJ; } catch (...) { return OTHER; }
  return OK;
}

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg);
  auto bad = [&](const std::string& what, const std::string& rep) { R.fail(what, rep); };
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    Arena a(e.size);
    size_t np = m.roles.size();
    std::vector<std::vector<double>> al(np);
    for (size_t i = 0; i < np; ++i) {
      switch (m.roles[i]) {
      case FREQ: al[i] = {0, -0.0, 5e-324, 1e-300, 1e-9, 1e-4, 0.1, 0.25, 0.4999, 0.4999999999, std::nextafter(0.5, 0), 0.5, -0.1, INF, -INF, QNAN}; break;
      case WIDTH: al[i] = {0, 5e-324, 1e-300, 1e-9, 0.05, 0.2, 0.4999999999, 0.5, 0.7, 1e9, INF, -0.1, QNAN}; break;
      default: al[i] = {0, 5e-324, 1e-300, 1e-12, 1e-9, 0.5, 1, 3, 40, 700, 7000, 1e6, 1e300, INF, -1e-12, -1, -40, -700, -7000, -1e6, -INF, QNAN}; break;
      }
      if (R.thorough) for (double d : {1e-16, 1e-6, 0.3, 6.02, -3.0, 310.0, -6200.0, 1e18, -1e18, 6165.0}) al[i].push_back(d);
    }
    std::vector<double> p(np);
    std::vector<int> os = {NO_ORDER};
    if (m.pole()) for (int o = 0; o <= m.cap + 1; ++o) os.push_back(o);
    std::function<void(size_t)> rec = [&](size_t i) {
      if (i == np) {
        for (int o : os) {
          Op op = opN(o, p);
          for (int used = 0; used < (np > 3 && !R.thorough ? 1 : 2); ++used) {
            IFilter& f = a.fresh(e);
            std::vector<Op> h;
            if (used) { h.push_back(opN(NO_ORDER, base(m))); apply(f, h[0]); }
            h.push_back(op);
            Res r = apply(f, op);
            R.states++; R.transitions++; R.evals++; R.traces++; R.counts[r == OK ? "accepted" : "rejected"]++;
            uint64_t hash = r;
            for (int s = 0; s < f.maxStages(); ++s) {
              Coef c = f.stage(s);
              hash = fnv(&c, sizeof c, hash);
              // reported value = stored value * a0, so only look behind a finite a0
              if ((std::isfinite(c.a0) && c.a0 != 0) && hasNaN(c)) {
                bad(m.name + ": " + cxx(op) + " is " + (r == OK ? "accepted" : "rejected") + fmt(" and stage %d has a NaN coefficient", s), cxx(m, h));
                break;
              }
            }
            R.outcome(hash);
            if (r == OTHER) bad(m.name + ": " + cxx(op) + " throws something else than std::invalid_argument", cxx(m, h));
          }
        }
        return;
      }
      for (double v : al[i]) { if (i < 2 && i + 1 == std::min<size_t>(2, np) && !R.mine()) continue; p[i] = v; if (i == 0) R.cur(m.name + " first argument " + num(v)); rec(i + 1); }
    };
    rec(0);
    // each argument over the whole range of double in small steps
    for (size_t v = 0; v < np; ++v) for (int sg = 0; sg < 3; ++sg) {
      if (!R.mine()) continue;
      const int N = R.thorough ? 200000 : 20000;
      for (int i = 0; i <= N; ++i) {
        double u = double(i) / N;
        std::vector<double> x = base(m);
        if (sg < 2) x[v] = (sg ? -1 : 1) * std::pow(10, m.roles[v] == FREQ ? -320 + 320.5 * u : -320 + 628 * u);
        else x[v] = m.roles[v] == FREQ || m.roles[v] == WIDTH ? 0.5 * u : -200 + 400 * u;
        Op op = opN(m.pole() ? (i % 4 ? 1 + i % std::min(m.cap, 9) : NO_ORDER) : NO_ORDER, x);
        IFilter& f = a.fresh(e);
        R.cur(m.name + " " + cxx(op));
        Res r = apply(f, op);
        R.states++; R.transitions++; R.evals++; R.traces++; R.counts[r == OK ? "accepted" : "rejected"]++;
        bool bd = r == OTHER;
        for (int s = 0; s < f.maxStages() && !bd; ++s) { Coef c = f.stage(s); bd = std::isfinite(c.a0) && c.a0 != 0 && hasNaN(c); }
        if (bd) { bad(m.name + ": " + cxx(op) + (r == OTHER ? " throws something else than std::invalid_argument" : r == OK ? " is accepted and leaves a NaN coefficient" : " is rejected and leaves a NaN coefficient"), cxx(m, {op})); break; }
      }
    }
    if (m.pole() && R.mine()) for (int o : {-1, -2, -m.cap, 2 * m.cap + 1, 1000, 1000000, INT_MAX / 2, INT_MAX, INT_MIN / 2, INT_MIN})
      for (double fs : {0.0, 1000.0}) {
        Op op = opN(o, base(m));
        if (fs) { op.t = Op::SETUP; op.fs = fs; for (int k = 0; k < m.nfreq; ++k) op.p[k] *= fs; }
        IFilter& f = a.fresh(e);
        Res r = apply(f, op);
        R.states++; R.transitions++; R.evals++; R.traces++;
        if (r == OTHER) bad(m.name + ": " + cxx(op) + " throws something else than std::invalid_argument", cxx(m, {op}));
        for (int s = 0; s < f.maxStages(); ++s) if (hasNaN(f.stage(s))) { bad(m.name + ": " + cxx(op) + fmt(" leaves a NaN in stage %d", s), cxx(m, {op})); break; }
      }
    R.sample(m.name + fmt(": product of %zu values per argument, last call ", al[0].size()) + cxx(opN(os.back(), p)));
  }
  // coefficient interfaces
  std::vector<double> cv = {0, 1, -2, 1e-308, 1e308, INF, -INF, QNAN};
  if (R.thorough) cv = {0, -0.0, 1, -2, 5e-324, 1e-308, -1e308, INF, -INF, QNAN};
  size_t n = cv.size();
  for (size_t i0 = 0; i0 < n * n; ++i0) {
    if (!R.mine()) continue;
    double c[6]; c[0] = cv[i0 / n]; c[1] = cv[i0 % n];
    for (size_t k = 0; k < n * n * n * n; ++k) {
      size_t q = k;
      for (int j = 2; j < 6; ++j) { c[j] = cv[q % n]; q /= n; }
      auto text = [&](const char* f) { return fmt("%s(%s, %s, %s, %s, %s, %s)", f, num(c[0]).c_str(), num(c[1]).c_str(), num(c[2]).c_str(), num(c[3]).c_str(), num(c[4]).c_str(), num(c[5]).c_str()); };
      Iir::Biquad b;
      Res r = call([&]() { b.setCoefficients(c[0], c[1], c[2], c[3], c[4], c[5]); });
      R.states++; R.transitions++; R.evals++; R.counts[r == OK ? "accepted" : "rejected"]++;
      Coef g = coef(b);
      if (((std::isfinite(g.a0) && g.a0 != 0) && hasNaN(g)) || std::isnan(g.a0)) bad("Biquad: " + text("setCoefficients") + " leaves a NaN coefficient", text("Iir::Biquad b; b.setCoefficients"));
      bool inf = false; for (double d : {b.getA1(), b.getA2(), b.getB0(), b.getB1(), b.getB2()}) inf = inf || std::isinf(d);
      if ((std::isfinite(g.a0) && g.a0 != 0) && g.a0 != 0 && !inf && nanOutput(b)) bad("Biquad: " + text("setCoefficients") + " filters zeros to NaN", text("Iir::Biquad b; b.setCoefficients"));
      if (k % 64 == 0) {
        double sos[2][6] = {{1, 0, 0, 1, 0, 0}, {c[3], c[4], c[5], c[0], c[1], c[2]}};
        Iir::Custom::SOSCascade<2> f;
        Res rs = call([&]() { f.setup(sos); });
        R.evals++;
        if (rs != r) bad("SOSCascade: verdict on a section differs from setCoefficients: " + text(""), text("section a0,a1,a2,b0,b1,b2 = "));
        Coef g2 = coef(f.getCascadeStorage().stageArray[1]);
        if ((std::isfinite(g2.a0) && g2.a0 != 0) && hasNaN(g2)) bad("SOSCascade: NaN coefficient for " + text(""), text("section a0,a1,a2,b0,b1,b2 = "));
        for (double s : cv) {
          Iir::Biquad b2;
          if (call([&]() { b2.setCoefficients(c[0], c[1], c[2], c[3], c[4], c[5]); }) != OK) continue;
          call([&]() { b2.applyScale(s); });
          R.evals++;
          Coef g3 = coef(b2);
          if ((std::isfinite(g3.a0) && g3.a0 != 0) && hasNaN(g3)) bad("Biquad: applyScale(" + num(s) + ") leaves a NaN coefficient", text("Iir::Biquad b; b.setCoefficients") + "; b.applyScale(" + num(s) + ");");
        }
      }
    }
  }
  std::vector<double> pv = {0, 0.5, -0.5, 1, 1e-308, 1e308, -1e308, INF, -INF, QNAN};
  for (double x : pv) {
    if (!R.mine()) continue;
    for (double y : pv) for (double z : pv) {
      Iir::Custom::OnePole o;
      call([&]() { o.setup(x, y, z); });
      R.evals++; R.states++; R.transitions++;
      if (hasNaN(coef(o))) bad(fmt("OnePole.setup(%g,%g,%g) leaves a NaN coefficient", x, y, z), fmt("Iir::Custom::OnePole o; o.setup(%g,%g,%g);", x, y, z));
      for (double u : pv) for (double v : pv) {
        Iir::Custom::TwoPole t;
        call([&]() { t.setup(x, y, z, u, v); });
        R.evals++; R.states++; R.transitions++;
        if (hasNaN(coef(t))) bad(fmt("TwoPole.setup(%g,%g,%g,%g,%g) leaves a NaN coefficient", x, y, z, u, v), fmt("Iir::Custom::TwoPole o; o.setup(%g,%g,%g,%g,%g);", x, y, z, u, v));
      }
    }
  }
  return R.finish();
}
