// Reference model of a running filter: the state equations of the three
// topologies over the sections whose coefficients the object reports.
#pragma once
#include "core.hpp"
namespace mc {
struct Model {
  Topo t;
  struct Sec { double b0, b1, b2, a1, a2, z[4]; };
  std::vector<Sec> s;
  explicit Model(Topo tt, int n) : t(tt), s(n) { for (auto& q : s) { memset(&q, 0, sizeof q); q.b0 = 1; } }
  void load(IFilter& f) { // coefficients only; delay lines stay
    for (size_t i = 0; i < s.size(); ++i) {
      Coef c = f.stage((int) i);
      s[i].b0 = c.b0 / c.a0; s[i].b1 = c.b1 / c.a0; s[i].b2 = c.b2 / c.a0; s[i].a1 = c.a1 / c.a0; s[i].a2 = c.a2 / c.a0;
    }
  }
  void reset() { for (auto& q : s) memset(q.z, 0, sizeof q.z); }
  double step(double x) {
    for (auto& q : s) {
      double* z = q.z; double y;
      if (t == DF1) { y = q.b0 * x + q.b1 * z[0] + q.b2 * z[1] - q.a1 * z[2] - q.a2 * z[3]; z[1] = z[0]; z[0] = x; z[3] = z[2]; z[2] = y; }
      else if (t == DF2) { double w = x - q.a1 * z[0] - q.a2 * z[1]; y = q.b0 * w + q.b1 * z[0] + q.b2 * z[1]; z[1] = z[0]; z[0] = w; }
      else { y = q.b0 * x + z[0]; z[0] = z[1] + q.b1 * x - q.a1 * y; z[1] = q.b2 * x - q.a2 * y; }
      x = y;
    }
    return x;
  }
};
} // namespace mc
