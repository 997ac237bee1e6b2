// C09: an imported second order sections table: section i takes row i
// (b0 b1 b2 a0 a1 a2), coefficients are normalised by a0, and the sections are
// applied one after the other to the signal, in order.  All tables of up to 4
// rows from a set of sections, constructor and setup, after any other table,
// with retuning in the middle of the stream (where the order of the sections is
// visible), against the chained difference equations.
#include "core.hpp"
using namespace mc;

static const double SEC[][6] = {
  {1, 0, 0, 1, 0, 0}, {0.5, 1, 0.25, 1, -0.5, 0.25}, {2, -1, 4, 2, 1, -0.5}, {1, 0, -1, -1, 0.5, 0.25}, {0, 1, 0, 4, 2, 0}, {0, 0, 0.5, 0.5, 0, -0.25}, {0.25, 0.5, 1, 1, 0, 0}, {0, 0, 0, 1, 0.5, 0.25},
};
enum { NSEC = 8 };

struct Model { // chain of sections, one topology
  Topo t; int n; double b[32][3], a[32][2], s[32][4];
  Model(Topo tt, int nn) : t(tt), n(nn) { memset(s, 0, sizeof s); memset(b, 0, sizeof b); memset(a, 0, sizeof a); for (int i = 0; i < 32; ++i) b[i][0] = 1; }
  void set(const int* rows) {
    for (int i = 0; i < n; ++i) { const double* c = SEC[rows[i]]; for (int j = 0; j < 3; ++j) b[i][j] = c[j] / c[3]; a[i][0] = c[4] / c[3]; a[i][1] = c[5] / c[3]; }
  }
  void reset() { memset(s, 0, sizeof s); }
  double step(double x) {
    for (int i = 0; i < n; ++i) {
      double* z = s[i]; double y;
      if (t == DF1) { y = b[i][0] * x + b[i][1] * z[0] + b[i][2] * z[1] - a[i][0] * z[2] - a[i][1] * z[3]; z[1] = z[0]; z[0] = x; z[3] = z[2]; z[2] = y; }
      else if (t == DF2) { double w = x - a[i][0] * z[0] - a[i][1] * z[1]; y = b[i][0] * w + b[i][1] * z[0] + b[i][2] * z[1]; z[1] = z[0]; z[0] = w; }
      else { y = b[i][0] * x + z[0]; z[0] = z[1] + b[i][1] * x - a[i][0] * y; z[1] = b[i][2] * x - a[i][1] * y; }
      x = y;
    }
    return x;
  }
};
static std::string table(const int* rows, int n) { std::string s = "{"; for (int i = 0; i < n; ++i) { s += i ? ",{" : "{"; for (int j = 0; j < 6; ++j) s += (j ? "," : "") + num(SEC[rows[i]][j]); s += "}"; } return s + "}"; }

template <int N, class S> struct Chk {
  typedef Iir::Custom::SOSCascade<N, S> F;
  static void fill(double (&c)[N][6], const int* rows) { for (int i = 0; i < N; ++i) memcpy(c[i], SEC[rows[i]], sizeof c[i]); }
  static bool storage(Report& R, F& f, const int* rows, const std::string& h) {
    const Iir::Cascade::Storage st = f.getCascadeStorage();
    R.evals++;
    if (st.maxStages != N) { R.fail(fmt("SOSCascade<%d> reports %d sections", N, st.maxStages), h); return false; }
    for (int i = 0; i < N; ++i) {
      Coef g = coef(st.stageArray[i]);
      const double* c = SEC[rows[i]];
      double got[6] = {g.b0, g.b1, g.b2, g.a0, g.a1, g.a2};
      for (int j = 0; j < 6; ++j) if (got[j] != c[j]) { R.fail(fmt("SOSCascade<%d>: section %d reports %g for entry %d of its row instead of %g", N, i, got[j], j, c[j]), h); return false; }
    }
    return true;
  }
  static void run(Report& R, Topo t, const char* sn) {
    int total = 1; for (int i = 0; i < N; ++i) total *= NSEC;
    static const double X[] = {1, 0, -1, 2, 0, 0, 3, -2, 1, 1};
    for (int k = 0; k < total; ++k) {
      if (!R.mine()) continue;
      int rows[4]; int q = k; for (int i = 0; i < N; ++i) { rows[i] = q % NSEC; q /= NSEC; }
      double c[N][6]; fill(c, rows);
      std::string decl = fmt("// Iir::Custom::SOSCascade<%d,Iir::%s>\nconst double c1[][6] = ", N, sn) + table(rows, N) + ";\n";
      R.cur(decl);
      // constructor and setup
      { F f(c), g; g.setup(c);
        Model m(t, N); m.set(rows);
        R.states++; R.traces += 2;
        if (!storage(R, f, rows, decl + "f(c1)") || !storage(R, g, rows, decl + "f.setup(c1)")) continue;
        for (int i = 0; i < 10; ++i) { double y = f.filter(X[i]), y2 = g.filter(X[i]), w = m.step(X[i]); R.transitions += 2;
          if (y != w || y2 != w) { R.fail(fmt("SOSCascade<%d,%s>: output %d is %s (constructor) / %s (setup) instead of %s", N, sn, i, num(y).c_str(), num(y2).c_str(), num(w).c_str()), decl); break; } }
      }
      // retuned in the middle of the stream to every second table (thorough: every table)
      int stride = N < 3 || R.thorough ? 1 : 3;
      if (N == 4) stride = R.thorough ? 5 : 97;
      for (int k2 = k % stride; k2 < total; k2 += stride) {
        int r2[4]; q = k2; for (int i = 0; i < N; ++i) { r2[i] = q % NSEC; q /= NSEC; }
        double c2[N][6]; fill(c2, r2);
        F f(c); Model m(t, N); m.set(rows);
        bool bad = false;
        for (int phase = 0; phase < 4 && !bad; ++phase) {
          if (phase == 1) { f.setup(c2); m.set(r2); if (!storage(R, f, r2, decl + "f(c1); ...; f.setup(" + table(r2, N) + ")")) break; }
          if (phase == 2) { f.setup(c); m.set(rows); }
          if (phase == 3) { f.reset(); m.reset(); }
          for (int i = 0; i < 3; ++i) { double x = X[(phase * 3 + i) % 10], y = f.filter(x), w = m.step(x); R.transitions++;
            if (y != w) { R.fail(fmt("SOSCascade<%d,%s>: output %d in phase %d (constructor, setup of another table, back, reset; 3 samples each) is %s instead of %s", N, sn, i, phase, num(y).c_str(), num(w).c_str()), decl + "// other table: " + table(r2, N)); bad = true; break; } }
        }
        R.states++; R.traces++;
      }
      R.outcome((uint64_t) k * 16 + N * 4 + t);
    }
    R.sample(fmt("SOSCascade<%d,%s>: %d tables", N, sn, total));
  }
  static void big(Report& R, Topo t, const char* sn) { // long chains: all arithmetic patterns of rows
    for (int mul = 0; mul < NSEC; ++mul) for (int off = 0; off < NSEC; ++off) {
      if (!R.mine()) continue;
      int rows[32], r2[32]; for (int i = 0; i < N; ++i) { rows[i] = (i * mul + off) % NSEC; r2[i] = (i * (mul + 1) + off + 1) % NSEC; }
      double c[N][6], c2[N][6]; fill(c, rows); fill(c2, r2);
      F f(c); Model m(t, N); m.set(rows);
      std::string decl = fmt("// SOSCascade<%d,%s> ", N, sn) + table(rows, N);
      if (!storage(R, f, rows, decl)) continue;
      for (int i = 0; i < 12; ++i) {
        if (i == 6) { f.setup(c2); m.set(r2); storage(R, f, r2, decl); }
        double x = i % 3 == 0 ? 1 : i % 5 == 0 ? -2 : 0, y = f.filter(x), w = m.step(x);
        R.transitions++;
        if (!near(y, w, 1e-9, 1e-9)) { R.fail(fmt("SOSCascade<%d,%s>: output %d is %s instead of %s", N, sn, i, num(y).c_str(), num(w).c_str()), decl); break; }
      }
      f.reset(); m.reset();
      for (int i = 0; i < 6; ++i) { double x = i < 2, y = f.filter(x), w = m.step(x); if (!near(y, w, 1e-9, 1e-9)) { R.fail(fmt("SOSCascade<%d,%s>: output %d after reset is %s instead of %s", N, sn, i, num(y).c_str(), num(w).c_str()), decl); break; } }
      R.states++; R.traces++;
    }
  }
};
template <int N> static void topo(Report& R) {
  Chk<N, Iir::DirectFormI>::run(R, DF1, "DirectFormI");
  Chk<N, Iir::DirectFormII>::run(R, DF2, "DirectFormII");
  Chk<N, Iir::TransposedDirectFormII>::run(R, TDF2, "TransposedDirectFormII");
}
// what the sections report reproduces what they do, also with an a0 which is
// not a power of two
template <int N> static void scaled(Report& R) {
  static const double a0s[] = {1, 3, -0.7, 1e-3, 1e3, 7e9, 1 + 1e-3, 1 - 1e-5, 1 + 5e-7, 1 - 1e-9, -1 - 1e-7, 2 + 1e-6, 1e-40, 1e60};
  for (double a0 : a0s) for (int k = 0; k < NSEC * NSEC; ++k) {
    if (!R.mine()) continue;
    int rows[4] = {k % NSEC, k / NSEC, 1, 2};
    double c[N][6], d[N][6];
    for (int i = 0; i < N; ++i) for (int j = 0; j < 6; ++j) { c[i][j] = SEC[rows[i]][j]; d[i][j] = c[i][j] * a0; }
    Iir::Custom::SOSCascade<N> f(c), g(d);
    R.states++; R.traces++;
    for (int i = 0; i < N; ++i) {
      Coef x = coef(g.getCascadeStorage().stageArray[i]);
      double got[6] = {x.b0, x.b1, x.b2, x.a0, x.a1, x.a2};
      for (int j = 0; j < 6; ++j) { R.evals++; if (!near(got[j], d[i][j], 1e-14)) R.fail(fmt("SOSCascade<%d>: section %d reports %.17g for entry %d of its row instead of %.17g", N, i, got[j], j, d[i][j]), table(rows, N) + fmt(" times %g", a0)); }
    }
    double scale = 0;
    for (int i = 0; i < 10; ++i) { double x = i == 0 ? 1 : i == 4 ? -2 : 0, y = f.filter(x), z = g.filter(x); scale = std::max(scale, std::fabs(y)); R.transitions += 2;
      if (!near(y, z, 0, 1e-12 * (1 + scale))) { R.fail(fmt("SOSCascade<%d>: a common factor %g on each row changes the output %d from %.17g to %.17g", N, a0, i, y, z), table(rows, N)); break; } }
  }
}

int main(int argc, char** argv) {
  Report R(argc, argv);
  topo<1>(R); topo<2>(R); topo<3>(R); topo<4>(R);
  Chk<5, Iir::DirectFormI>::big(R, DF1, "DirectFormI"); Chk<8, Iir::DirectFormII>::big(R, DF2, "DirectFormII"); Chk<16, Iir::TransposedDirectFormII>::big(R, TDF2, "TransposedDirectFormII");
  Chk<9, Iir::DirectFormII>::big(R, DF2, "DirectFormII"); Chk<32, Iir::DirectFormII>::big(R, DF2, "DirectFormII");
  scaled<1>(R); scaled<2>(R); scaled<3>(R);
  return R.finish();
}
