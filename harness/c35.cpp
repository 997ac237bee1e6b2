// C35: a parameter can be moved continuously: neighbouring values give
// neighbouring coefficients, section by section, so that a swept filter does not
// click and no section changes its role.  All lines of a grid of the parameter
// space are walked with one object; wherever the change of a step differs from
// those around it, the step is divided until it either becomes arbitrarily small
// or turns out to be a jump.
#include "core.hpp"
using namespace mc;

struct Axis { double lo, hi; bool log; };
static double at(const Axis& a, double t) { return a.log ? a.lo * std::pow(a.hi / a.lo, t) : a.lo + (a.hi - a.lo) * t; }

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg);
  const int N = R.thorough ? 4096 : 1024;
  const double TOL = 1e-5;
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    const size_t np = m.roles.size();
    const bool pband = m.pole() && m.band(), cshelf = m.shelf() && m.fam != BUTTER;
    std::vector<std::vector<Axis>> axes(np);
    std::vector<std::vector<double>> fix(np);
    for (size_t i = 0; i < np; ++i) {
      Role r = m.roles[i];
      if (m.shelf() && r == ATT) r = RIPPLE;
      switch (r) {
      case FREQ: axes[i] = pband ? std::vector<Axis>{{0.005, 0.495, false}} : std::vector<Axis>{{0.001, 0.25, true}, {0.1, 0.495, false}}; fix[i] = {0.013, 0.1, 0.25, 0.37}; break;
      case WIDTH: axes[i] = {{0.005, 0.35, true}}; fix[i] = {0.01, 0.06, 0.25}; break;
      case GAIN: axes[i] = cshelf ? std::vector<Axis>{{0.5, 40, true}, {-40, -0.5, false}} : std::vector<Axis>{{-40, 40, false}}; fix[i] = {-12, 3, 20}; break;
      case RIPPLE: axes[i] = {{0.02, m.shelf() ? 2. : 8., true}}; fix[i] = {0.1, 1}; break;
      case ATT: axes[i] = {{3, 90, false}}; fix[i] = {12, 48}; break;
      case QF: axes[i] = {{0.1, 40, true}}; fix[i] = {0.5, 0.70710678118654752, 6}; break;
      case BW: axes[i] = {{0.05, 3, true}}; fix[i] = {0.3, 1.5}; break;
      case SLOPE: axes[i] = {{0.1, 1, false}}; fix[i] = {0.2, 0.9}; break;
      }
      // more closely around values which invite a special case
      switch (r) {
      case FREQ: axes[i].push_back({0.2499, 0.2501, false}); axes[i].push_back({0.125 - 1e-5, 0.125 + 1e-5, false}); break;
      case GAIN: if (!cshelf) { axes[i].push_back({-0.03, 0.03, false}); axes[i].push_back({-1e-3, 1e-3, false}); } break;
      case QF: axes[i].push_back({0.499, 0.501, false}); axes[i].push_back({0.7, 0.715, false}); break;
      case BW: axes[i].push_back({0.999, 1.001, false}); break;
      case SLOPE: axes[i].push_back({0.999, 1, false}); break;
      case ATT: axes[i].push_back({3, 3.02, false}); break;
      case RIPPLE: if (!m.shelf()) axes[i].push_back({2.99, 3.02, false}); break;
      default: break;
      }
      if (R.thorough && r != SLOPE) { std::vector<double> v = fix[i]; for (double d : v) fix[i].push_back(d * 1.13); }
    }
    auto inside = [&](const std::vector<double>& p) {
      if (pband && (p[0] - p[1] / 2 < 0.004 || p[0] + p[1] / 2 > 0.496)) return false;
      if (cshelf && p[np - 1] >= 0.9 * std::fabs(p[np - 2])) return false;
      if (m.kind == R_BSH && p[2] * 2 * M_PI * p[0] / std::sin(2 * M_PI * p[0]) > 12) return false;
      return true;
    };
    for (size_t ax = 0; ax < np; ++ax) {
      std::vector<std::vector<double>> ps = {{}};
      for (size_t i = 0; i < np; ++i) {
        std::vector<std::vector<double>> n;
        for (auto& p : ps) for (double d : i == ax ? std::vector<double>{0} : fix[i]) { n.push_back(p); n.back().push_back(d); }
        ps.swap(n);
      }
      for (auto& p : ps) for (const Axis& A : axes[ax]) {
        for (int n = 1; n <= (m.pole() ? m.cap : 1); ++n) {
          if (!R.mine()) continue;
          std::unique_ptr<IFilter> f(e.make(nullptr));
          const int order = m.pole() ? n : NO_ORDER;
          auto design = [&](double t) {
            std::vector<double> q = p, c; q[ax] = at(A, t);
            if (!inside(q)) return c;
            Op o = opN(order, q);
            R.cur(cxx(m, {o}));
            R.transitions++;
            if (apply(*f, o) != OK) { R.fail(m.name + ": " + cxx(o) + " is rejected", cxx(m, {o})); return c; }
            R.states++;
            // per section, a0 = 1; the numerator of the first section carries the gain
            for (int s = 0; s < f->numStages(); ++s) {
              Coef k = f->stage(s);
              for (double d : {k.a1, k.a2, k.b0, k.b1, k.b2}) c.push_back(d / k.a0);
            }
            return c;
          };
          // largest change of a coefficient relative to its polynomial
          auto dist = [&](const std::vector<double>& a, const std::vector<double>& b, int& where) {
            double w = 0;
            if (a.size() != b.size()) { where = -1; return INF; }
            for (size_t s = 0; s + 5 <= a.size(); s += 5) {
              double bs = 1e-300;
              for (int j = 2; j < 5; ++j) bs = std::max(bs, std::max(std::fabs(a[s + j]), std::fabs(b[s + j])));
              for (int j = 0; j < 5; ++j) { double d = std::fabs(a[s + j] - b[s + j]) / (j < 2 ? 1 : bs); if (!(d <= w)) { w = d; where = int(s + j); } }
            }
            return w;
          };
          std::vector<std::vector<double>> c(N + 1);
          for (int i = 0; i <= N; ++i) c[i] = design(double(i) / N);
          std::vector<double> d(N, 0);
          int wh = 0;
          for (int i = 0; i < N; ++i) if (!c[i].empty() && !c[i + 1].empty()) d[i] = dist(c[i], c[i + 1], wh);
          for (int i = 0; i < N; ++i) {
            if (c[i].empty() || c[i + 1].empty()) continue;
            R.evals++;
            double l = i ? d[i - 1] : 0, r = i + 1 < N ? d[i + 1] : 0;
            bool odd = !(d[i] < l * 1.001) && !(d[i] < r * 1.001); // not between its neighbours
            if (l > 0 && r > 0 && d[i] < 0.98 * std::min(l, r)) odd = true;
            if (!odd || d[i] < TOL) continue;
            double lo = double(i) / N, hi = double(i + 1) / N, x = d[i];
            std::vector<double> a = c[i], b = c[i + 1];
            for (int k = 0; k < 44 && x > TOL; ++k) {
              double mid = (lo + hi) / 2;
              if (!(mid > lo && mid < hi)) break;
              std::vector<double> v = design(mid);
              if (v.empty()) { x = 0; break; }
              int w1, w2; double x1 = dist(a, v, w1), x2 = dist(v, b, w2);
              R.traces++;
              if (!(x1 < x2)) { hi = mid; b = v; x = x1; } else { lo = mid; a = v; x = x2; }
            }
            R.outcome(fnv(a));
            if (x > TOL) {
              int w = 0; dist(a, b, w);
              std::vector<double> q1 = p, q2 = p; q1[ax] = at(A, lo); q2[ax] = at(A, hi);
              static const char* cn[] = {"a1", "a2", "b0", "b1", "b2"};
              Op o1 = opN(order, q1), o2 = opN(order, q2);
              R.fail(m.name + ": " + (w < 0 ? std::string("the number of sections") : fmt("%s of section %d", cn[w % 5], w / 5)) + " jumps between " + cxx(o1) + " and " + cxx(o2) + (w < 0 ? "" : fmt(" from %.9g to %.9g", a[w], b[w])), cxx(m, {o1}) + "// and\n" + cxx(m, {o2}) + "// compare the coefficients of the sections");
              break;
            }
            R.maximum("remaining_step_after_division", x);
          }
        }
      }
    }
    R.sample(m.name + fmt(": every parameter swept with %d steps for every order", N));
  }
  return R.finish();
}
