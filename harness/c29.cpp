// C29: second order sections and the custom one/two pole filters: whatever
// sequence of coefficient calls was made, the section is exactly what the calls
// say (poles, zeros, scale, identity, coefficients), calls with unpaired complex
// values are rejected without effect, and getters, response, pole/zero report
// and filter output agree.  Full products of poles and zeros, and all sequences
// of calls up to a depth against a rational function computed beside it.
#include "core.hpp"
using namespace mc;
using Iir::Biquad;
typedef long double ld;

struct Mod { ld b[3], a[3]; ld a0; }; // a[0] = 1, plus the a0 the user gave
static Mod ident() { Mod m = {{1, 0, 0}, {1, 0, 0}, 1}; return m; }
static cplx val(const Mod& m, double f) {
  cplx z = std::polar(1.0, -2 * M_PI * f);
  return (cplx((double) m.b[0]) + z * ((double) m.b[1] + z * (double) m.b[2])) / (cplx(1) + z * ((double) m.a[1] + z * (double) m.a[2]));
}
static void roots(cplx p, cplx q, bool two, ld* c) { // (1 - p x)(1 - q x), real
  c[0] = 1; c[1] = -(ld) p.real() - (two ? (ld) q.real() : 0);
  c[2] = two ? (ld) p.real() * q.real() - (ld) p.imag() * q.imag() : 0;
}
static std::string ctext(cplx c) { return "{" + num(c.real()) + "," + num(c.imag()) + "}"; }

struct SCall {
  std::string text; bool legal;
  std::function<void(Biquad&)> run;
  std::function<void(Mod&)> model;
};
static Report* RR;
static const double FR[] = {0, 0.03, 0.11, 0.25, 0.37, 0.5};
template <class S> static void output(const Biquad& q, std::vector<double>& v) { S st; st.reset(); static const double x[] = {1, 0, 0, -2, 0.5, 3, 0, 0}; for (double d : x) v.push_back(q.filter(d, st)); }
static bool check(const Biquad& q, const Mod& m, const std::string& text, bool deep) {
  Report& R = *RR;
  R.evals++;
  auto fail = [&](const std::string& w) { R.fail("section: " + w, "Iir::Biquad q;\n" + text); return false; };
  double s = 0, t = 1;
  for (int i = 0; i < 3; ++i) { s = std::max(s, (double) fabsl(m.b[i])); t = std::max(t, (double) fabsl(m.a[i])); }
  double w[] = {(double) m.a0, (double) (m.a[1] * m.a0), (double) (m.a[2] * m.a0), (double) (m.b[0] * m.a0), (double) (m.b[1] * m.a0), (double) (m.b[2] * m.a0)};
  double g[] = {q.getA0(), q.getA1(), q.getA2(), q.getB0(), q.getB1(), q.getB2()};
  static const char* n[] = {"a0", "a1", "a2", "b0", "b1", "b2"};
  for (int i = 0; i < 6; ++i) {
    double tol = 1e-12 * std::fabs((double) m.a0) * (i < 3 ? t : s);
    if (!(std::fabs(g[i] - w[i]) <= tol)) return fail(std::string(n[i]) + " is " + num(g[i]) + " instead of " + num(w[i]));
  }
  for (double f : FR) {
    cplx den(1, 0), z = std::polar(1.0, -2 * M_PI * f);
    den += z * ((double) m.a[1] + z * (double) m.a[2]);
    if (std::abs(den) < 1e-6) continue;
    cplx r = q.response(f), e = val(m, f);
    if (!(std::abs(r - e) <= 1e-12 * t * (std::abs(e) + s / std::abs(den)) / std::min(1.0, std::abs(den)))) return fail(fmt("response(%g) is (%.15g,%.15g) instead of (%.15g,%.15g)", f, r.real(), r.imag(), e.real(), e.imag()));
  }
  if (deep) {
    std::vector<double> y[3];
    output<Iir::DirectFormI>(q, y[0]); output<Iir::DirectFormII>(q, y[1]); output<Iir::TransposedDirectFormII>(q, y[2]);
    static const double x[] = {1, 0, 0, -2, 0.5, 3, 0, 0};
    ld h[8]; double big = s;
    for (int k = 0; k < 8; ++k) {
      h[k] = 0;
      for (int i = 0; i < 3; ++i) if (k >= i) { h[k] += m.b[i] * x[k - i]; if (i) h[k] -= m.a[i] * h[k - i]; }
      big = std::max(big, (double) fabsl(h[k])) * std::max(1.0, t * 0.5);
      for (int c = 0; c < 3; ++c) if (!(std::fabs(y[c][k] - (double) h[k]) <= 1e-10 * big)) return fail(fmt("output %d is ", k) + num(y[c][k]) + " instead of " + num((double) h[k]));
    }
    R.outcome(fnv(y[0]));
  }
  return true;
}
static bool exact(const Biquad& a, const Biquad& b) { return coef(a) == coef(b); }

int main(int argc, char** argv) {
  Report R(argc, argv);
  RR = &R;
  // ---- products of poles and zeros
  std::vector<double> re = {0, 0.5, -0.75, 1, -1, 0.25, -0.125, 0.99, 2, 1e-6};
  if (R.thorough) for (double d : {-2.0, 0.1, -0.3, 0.9, -0.99, 1e-3, -1e-9, 1.5}) re.push_back(d);
  std::vector<cplx> cs;
  for (double d : re) cs.push_back(d);
  for (double d : re) for (double i : {0.5, -0.25, 1e-3, -0.9}) cs.push_back(cplx(d, i));
  auto unchanged = [&](std::function<void(Biquad&)> f, const std::string& text) {
    Biquad q; q.setCoefficients(2, 0.5, 0.25, 1, -1, 0.75);
    Biquad k = q;
    bool thrown = false;
    try { f(q); } catch (const std::invalid_argument&) { thrown = true; }
    R.states++; R.transitions++; R.evals++;
    if (!thrown) R.fail("section: accepted: " + text, text);
    else if (!exact(q, k)) R.fail("section: changed by a rejected call: " + text, text);
  };
  for (size_t i = 0; i < cs.size(); ++i) for (size_t j = 0; j < cs.size(); ++j) {
    if (!R.mine()) continue;
    cplx p = cs[i], z = cs[j];
    std::string t1 = "q.setOnePole(Iir::complex_t" + ctext(p) + ", Iir::complex_t" + ctext(z) + ");";
    R.cur(t1);
    if (p.imag() == 0 && z.imag() == 0) {
      Biquad q; q.setCoefficients(3, 1, 1, 1, 1, 1);
      q.setOnePole(p, z);
      Mod m = ident(); roots(z, 0, false, m.b); roots(p, 0, false, m.a);
      check(q, m, t1, true);
      Biquad q2; q2.setPoleZeroPair(Iir::PoleZeroPair(p, z));
      check(q2, m, "q.setPoleZeroPair(Iir::PoleZeroPair(" + ctext(p) + "," + ctext(z) + "));", false);
      for (double sc : {1.0, -0.5, 4.0, 0.0, 1e-3}) {
        Iir::Custom::OnePole o; o.setup(sc, p.real(), z.real());
        Mod ms = m; for (ld& b : ms.b) b *= sc;
        check(o, ms, "Iir::Custom::OnePole o; o.setup(" + num(sc) + "," + num(p.real()) + "," + num(z.real()) + ");", true);
        R.states++; R.transitions++; R.traces++;
      }
      R.states += 2; R.transitions += 2; R.traces += 2;
    } else unchanged([&](Biquad& q) { q.setOnePole(p, z); }, t1);
    // two poles: every pole pair against some zero pairs and the other way round
    for (int swap = 0; swap < 2; ++swap) for (size_t k = 0; k < cs.size(); k += swap ? 3 : 1) {
      // (p, second) as poles; zeros from a small list - or exchanged
      cplx p2 = k == 0 ? std::conj(p) : cs[k];
      cplx z1 = z, z2 = (i + j + k) % 3 == 0 ? cs[(i + k) % re.size()] : std::conj(z);
      cplx P1 = swap ? z1 : p, P2 = swap ? z2 : p2, Z1 = swap ? p : z1, Z2 = swap ? p2 : z2;
      auto okPair = [](cplx a, cplx b) { return a.imag() != 0 ? b == std::conj(a) : b.imag() == 0; };
      std::string t2 = "q.setTwoPole(Iir::complex_t" + ctext(P1) + ", Iir::complex_t" + ctext(Z1) + ", Iir::complex_t" + ctext(P2) + ", Iir::complex_t" + ctext(Z2) + ");";
      if (okPair(P1, P2) && okPair(Z1, Z2)) {
        Biquad q; q.setCoefficients(-2, 1, 1, 1, 1, 1);
        bool ok = true;
        try { q.setTwoPole(P1, Z1, P2, Z2); } catch (const std::invalid_argument&) { ok = false; }
        R.states++; R.transitions++; R.traces++;
        if (!ok) { R.fail("section: rejected: " + t2, t2); continue; }
        Mod m = ident(); roots(Z1, Z2, true, m.b); roots(P1, P2, true, m.a);
        check(q, m, t2, true);
        Iir::PoleZeroPair pr(P1, Z1, P2, Z2);
        Biquad q2; q2.setPoleZeroPair(pr);
        check(q2, m, "q.setPoleZeroPair of the same", false);
        // rebuilt from its own report, with gain
        for (double sc : {1.0, -3.0}) {
          Biquad a = q; a.applyScale(sc);
          Iir::BiquadPoleState st;
          try { st = Iir::BiquadPoleState(a); } catch (const std::invalid_argument&) { R.fail("section: no pole/zero report after " + t2, t2); continue; }
          Biquad b;
          try { b.setPoleZeroForm(st); } catch (const std::invalid_argument&) { R.counts["rounded_pairs_rejected"]++; continue; }
          // double roots move by the square root of the rounding
          for (double f : FR) {
            cplx d(1, 0), zz = std::polar(1.0, -2 * M_PI * f); d += zz * ((double) m.a[1] + zz * (double) m.a[2]);
            if (std::abs(d) < 1e-3) continue;
            if (!(std::abs(a.response(f) - b.response(f)) <= 1e-9 / std::abs(d) * (1 + std::abs(a.response(f))) * 30)) { R.fail(fmt("section: rebuilt from its pole/zero report it has another response at %g", f), t2 + fmt(" q.applyScale(%g); b.setPoleZeroForm(BiquadPoleState(q));", sc)); break; }
          }
          R.evals++;
        }
      } else unchanged([&](Biquad& q) { q.setTwoPole(P1, Z1, P2, Z2); }, t2);
    }
  }
  // ---- values which nearly meet each other, one, minus one or the real axis
  {
    static const double at[] = {0.5, -0.75, 0.99, 1, -1, 0, 0.125}, ds[] = {0, 0.1, 0.01, 9e-4, -3e-5, 1e-6, -2e-7, 1e-8, -1e-9, 1e-12};
    for (double x : at) for (double d1 : ds) for (double y : at) {
      if (!R.mine()) continue;
      for (double d2 : ds) for (int form = 0; form < 5; ++form) {
        cplx p1 = x, p2 = x + d1, z1 = y, z2 = y + d2;
        if (form == 1) { p1 = cplx(x, d1); p2 = std::conj(p1); }
        if (form == 2) { z1 = cplx(y, d2); z2 = std::conj(z1); }
        if (form == 3) { p1 = cplx(x, d1); p2 = std::conj(p1); z1 = cplx(y, d2); z2 = std::conj(z1); }
        Biquad q;
        std::string t;
        Mod m = ident();
        if (form == 4) { // a pole and a zero, with a gain near one
          p1 = x; z1 = y == x ? x + d1 : y + d1; double g = 1 + d2;
          t = "q.setOnePole(" + ctext(p1) + ", " + ctext(z1) + "); q.applyScale(" + num(g) + ");";
          q.setOnePole(p1, z1); q.applyScale(g);
          roots(z1, 0, false, m.b); roots(p1, 0, false, m.a); for (ld& b : m.b) b *= (ld) g;
        } else {
          t = "q.setTwoPole(Iir::complex_t" + ctext(p1) + ", Iir::complex_t" + ctext(z1) + ", Iir::complex_t" + ctext(p2) + ", Iir::complex_t" + ctext(z2) + ");";
          try { q.setTwoPole(p1, z1, p2, z2); } catch (const std::invalid_argument&) { R.fail("section: rejected: " + t, t); continue; }
          roots(z1, z2, true, m.b); roots(p1, p2, true, m.a);
        }
        R.states++; R.transitions++; R.traces++;
        if (!check(q, m, t, true)) continue;
        // the coefficients are sums and products of two numbers: a few roundings
        double got[] = {q.getA1(), q.getA2(), q.getB0(), q.getB1(), q.getB2()};
        ld want[] = {m.a[1], m.a[2], m.b[0], m.b[1], m.b[2]};
        for (int i = 0; i < 5; ++i) { R.evals++; if (!(fabsl(got[i] - want[i]) <= 2e-15L * (fabsl(want[i]) + (i % 3 == 1 ? 1 : 0) * 1e-1L) + 1e-16L)) { R.fail(fmt("section: coefficient %d is %.17g instead of %.17g", i, got[i], (double) want[i]), t); break; } }
      }
    }
    // the custom classes: nearly on the unit circle, on the axis, cancelling
    for (double x : at) for (double d1 : ds) for (double d2 : ds) {
      if (!R.mine()) continue;
      Iir::Custom::OnePole o; o.setup(1 + d2, x, x + d1);
      Mod m = ident(); m.a[1] = -(ld) x; m.b[0] = 1 + d2; m.b[1] = -(ld) (x + d1) * (1 + d2);
      check(o, m, "Iir::Custom::OnePole o; o.setup(" + num(1 + d2) + "," + num(x) + "," + num(x + d1) + ");", true);
      if (std::fabs(x) < 1 && x + d1 >= 0) {
        double pr = std::fabs(x) + std::fabs(d1), zr = 1 - std::fabs(d2), pt = d2 + (x < 0 ? M_PI : 0), zt = d1;
        Iir::Custom::TwoPole t; t.setup(1, pr, pt, zr, zt);
        m = ident(); m.a[1] = -2 * (ld) pr * cosl(pt); m.a[2] = (ld) pr * pr; m.b[1] = -2 * (ld) zr * cosl(zt); m.b[2] = (ld) zr * zr;
        check(t, m, "Iir::Custom::TwoPole t; t.setup(1," + num(pr) + "," + num(pt) + "," + num(zr) + "," + num(zt) + ");", true);
        R.states++;
      }
      R.states++; R.transitions += 2; R.traces++;
    }
  }
  // ---- TwoPole in polar form
  std::vector<double> rho = {0, 0.5, 0.9, 0.99, 1, 0.25}, th = {0, 0.1, M_PI / 4, M_PI / 2, 2.5, M_PI, -0.7, -M_PI / 2, 4, 5.5, 2 * M_PI + 0.3, -4, 9.5, 13, -7, 100};
  for (double pr : rho) for (double pt : th) {
    if (!R.mine()) continue;
    for (double zr : rho) for (double zt : th) for (double sc : {1.0, -2.0, 0.125, 0.0}) {
      Iir::Custom::TwoPole t; t.setup(sc, pr, pt, zr, zt);
      Mod m = ident();
      m.a[1] = -2 * (ld) pr * cosl(pt); m.a[2] = (ld) pr * pr; m.b[0] = sc; m.b[1] = -2 * sc * (ld) zr * cosl(zt); m.b[2] = sc * (ld) zr * zr;
      check(t, m, "Iir::Custom::TwoPole t; t.setup(" + num(sc) + "," + num(pr) + "," + num(pt) + "," + num(zr) + "," + num(zt) + ");", true);
      R.states++; R.transitions++; R.traces++;
    }
  }
  // ---- dense lines: one value moves over its range, the others stand still
  {
    const int N = R.thorough ? 400000 : 40000;
    auto light = [&](const Biquad& q, const Mod& m, const std::function<std::string()>& text) {
      double s = 0, t = 1;
      for (int i = 0; i < 3; ++i) { s = std::max(s, (double) fabsl(m.b[i])); t = std::max(t, (double) fabsl(m.a[i])); }
      double g[] = {q.getA0(), q.getA1(), q.getA2(), q.getB0(), q.getB1(), q.getB2()}, A = (double) m.a0;
      ld w[] = {m.a0, m.a[1] * m.a0, m.a[2] * m.a0, m.b[0] * m.a0, m.b[1] * m.a0, m.b[2] * m.a0};
      static const char* n[] = {"a0", "a1", "a2", "b0", "b1", "b2"};
      R.states++; R.transitions++;
      for (int i = 0; i < 6; ++i) if (!(std::fabs(g[i] - (double) w[i]) <= 1e-12 * std::fabs(A) * (i < 3 ? t : s))) { R.fail(std::string("section: ") + n[i] + " is " + num(g[i]) + " instead of " + num((double) w[i]), "Iir::Biquad q;\n" + text()); return false; }
      return true;
    };
    struct Base { double sc, pr, pt, zr, zt; };
    static const Base base[] = {{1, 0.9, 0.8, 1, 2.2}, {-3, 0.35, -2, 0.6, 0.4}, {0.01, 0.999, 3, 0, 0}};
    for (int k = 0; k < 32; ++k) {
      if (!R.mine()) continue;
      R.cur(fmt("dense lines, part %d", k));
      for (int i = k; i <= N; i += 32) {
        double u = double(i) / N;
        bool ok = true;
        for (const Base& b : base) for (int v = 0; v < 5 && ok; ++v) {
          Base x = b;
          (v == 0 ? x.sc : v == 1 ? x.pr : v == 2 ? x.pt : v == 3 ? x.zr : x.zt) = v == 0 ? std::pow(10, -6 + 12 * u) * (b.sc < 0 ? -1 : 1) : v == 1 ? u : v == 3 ? 2 * u : -7 + 14 * u;
          Iir::Custom::TwoPole t; t.setup(x.sc, x.pr, x.pt, x.zr, x.zt);
          Mod m = ident();
          m.a[1] = -2 * (ld) x.pr * cosl(x.pt); m.a[2] = (ld) x.pr * x.pr; m.b[0] = x.sc; m.b[1] = -2 * x.sc * (ld) x.zr * cosl(x.zt); m.b[2] = x.sc * (ld) x.zr * x.zr;
          ok = light(t, m, [&]() { return "Iir::Custom::TwoPole t; t.setup(" + num(x.sc) + "," + num(x.pr) + "," + num(x.pt) + "," + num(x.zr) + "," + num(x.zt) + ");"; });
          if (!ok || v > 2) continue;
          double y[3] = {b.sc, b.sc < 0 ? -0.3 : 0.9, b.sc < 0 ? 1.5 : -1};
          y[v] = v == 0 ? x.sc : -2 + 4 * u;
          Iir::Custom::OnePole o; o.setup(y[0], y[1], y[2]);
          m = ident(); m.a[1] = -(ld) y[1]; m.b[0] = y[0]; m.b[1] = -(ld) y[2] * y[0];
          ok = light(o, m, [&]() { return "Iir::Custom::OnePole o; o.setup(" + num(y[0]) + "," + num(y[1]) + "," + num(y[2]) + ");"; });
        }
        // coefficients: one of six moves, of both signs and over the decades
        for (int v = 0; v < 12 && ok; ++v) {
          double c[6] = {2, -1.5, 0.7, 0.3, -0.4, 1};
          c[v / 2] = (v & 1 ? -1 : 1) * std::pow(10, -4 + 8 * u);
          Biquad q; q.setCoefficients(c[0], c[1], c[2], c[3], c[4], c[5]);
          Mod m = ident(); m.a0 = c[0]; m.a[1] = (ld) c[1] / c[0]; m.a[2] = (ld) c[2] / c[0]; for (int j = 0; j < 3; ++j) m.b[j] = (ld) c[3 + j] / c[0];
          auto text = [&]() { std::string t = "q.setCoefficients("; for (int j = 0; j < 6; ++j) t += (j ? "," : "") + num(c[j]); return t + ");"; };
          ok = light(q, m, text);
          if (!ok || v > 1) continue;
          q.setCoefficients(2, -1.5, 0.7, 0.3, -0.4, 1); q.applyScale(c[0]);
          m = ident(); m.a0 = 2; m.a[1] = -0.75; m.a[2] = (ld) 0.7 / 2; m.b[0] = (ld) 0.3 / 2 * c[0]; m.b[1] = (ld) -0.4 / 2 * c[0]; m.b[2] = (ld) 0.5 * c[0];
          ok = light(q, m, [&]() { return "q.setCoefficients(2,-1.5,0.7,0.3,-0.4,1); q.applyScale(" + num(c[0]) + ");"; });
        }
        // poles and zeros: real part, imaginary part and distance move
        for (int v = 0; v < 6 && ok; ++v) {
          double x = -1.5 + 3 * u;
          cplx p1 = cplx(0.5, 0.4), p2 = std::conj(p1), z1 = cplx(-0.3, 0.9), z2 = std::conj(z1);
          if (v == 0) { p1 = cplx(x, 0.4); p2 = std::conj(p1); } else if (v == 1) { p1 = cplx(0.5, x); p2 = std::conj(p1); }
          else if (v == 2) { z1 = cplx(x, 0.4); z2 = std::conj(z1); } else if (v == 3) { z1 = cplx(0.5, x); z2 = std::conj(z1); }
          else if (v == 4) { p1 = x; p2 = 0.25; } else { z1 = -0.75; z2 = x; }
          auto text = [&]() { return "q.setTwoPole(Iir::complex_t" + ctext(p1) + ", Iir::complex_t" + ctext(z1) + ", Iir::complex_t" + ctext(p2) + ", Iir::complex_t" + ctext(z2) + ");"; };
          Biquad q;
          try { q.setTwoPole(p1, z1, p2, z2); } catch (const std::invalid_argument&) { R.fail("section: rejected: " + text(), text()); ok = false; continue; }
          Mod m = ident(); roots(z1, z2, true, m.b); roots(p1, p2, true, m.a);
          ok = light(q, m, text);
        }
        if (!ok) break;
      }
    }
    R.sample(fmt("dense lines of %d points: every argument of the custom filters, coefficients, scale, parts of poles and zeros", N + 1));
  }
  // ---- TwoPole with the zero at all distances from the pole
  for (double pr : {0.99, 0.5, 0.1}) for (double pt : {0.5, 0.0, -2.0, M_PI}) {
    if (!R.mine()) continue;
    for (int a = -33; a <= 33; ++a) for (int b = -33; b <= 33; ++b) {
      double d1 = a ? (a < 0 ? -1 : 1) * std::pow(10, -std::abs(a) / 2.0) : 0, d2 = b ? (b < 0 ? -1 : 1) * std::pow(10, -std::abs(b) / 2.0) : 0, zr = std::fabs(pr + d1), zt = pt + d2;
      Iir::Custom::TwoPole t; t.setup(1, pr, pt, zr, zt);
      Mod m = ident(); m.a[1] = -2 * (ld) pr * cosl(pt); m.a[2] = (ld) pr * pr; m.b[1] = -2 * (ld) zr * cosl(zt); m.b[2] = (ld) zr * zr;
      R.states++; R.transitions++; R.traces++;
      double got[] = {t.getB0(), t.getB1(), t.getB2(), t.getA1(), t.getA2()}; ld want[] = {1, m.b[1], m.b[2], m.a[1], m.a[2]};
      for (int i = 0; i < 5; ++i) if (!(fabsl(got[i] - want[i]) <= 1e-14L)) { R.fail(fmt("section: coefficient %d is %.17g instead of %.17g", i, got[i], (double) want[i]), "Iir::Custom::TwoPole t; t.setup(1," + num(pr) + "," + num(pt) + "," + num(zr) + "," + num(zt) + ");"); a = b = 99; break; }
    }
  }
  // ---- sequences of calls on one section
  std::vector<SCall> al;
  auto add = [&](std::string t, bool legal, std::function<void(Biquad&)> r, std::function<void(Mod&)> m) { al.push_back(SCall{t, legal, r, m}); };
  for (double s : {2.0, -0.5, 0.0, 1.0, 0.375}) add(fmt("q.applyScale(%g);", s), true, [=](Biquad& q) { q.applyScale(s); }, [=](Mod& m) { for (ld& b : m.b) b *= s; });
  add("q.applyScale(NAN);", false, [](Biquad& q) { q.applyScale(QNAN); }, nullptr);
  add("q.setIdentity();", true, [](Biquad& q) { q.setIdentity(); }, [](Mod& m) { m = ident(); });
  static const double sets[][6] = {{1, -0.5, 0.25, 1, 2, 1}, {2, 1, 0.5, 0, 1, 0}, {-4, 1, -2, 1, -1, 8}, {0.1, 0.03, 0, 0.3, 0, -0.7}, {1e-3, 1e-4, 2e-4, 5, 6, 7}, {1, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 1}};
  for (auto& c : sets) add("q.setCoefficients(" + num(c[0]) + "," + num(c[1]) + "," + num(c[2]) + "," + num(c[3]) + "," + num(c[4]) + "," + num(c[5]) + ");", true,
    [&c](Biquad& q) { q.setCoefficients(c[0], c[1], c[2], c[3], c[4], c[5]); },
    [&c](Mod& m) { m.a0 = c[0]; m.a[0] = 1; m.a[1] = (ld) c[1] / c[0]; m.a[2] = (ld) c[2] / c[0]; for (int i = 0; i < 3; ++i) m.b[i] = (ld) c[3 + i] / c[0]; });
  for (int k = 0; k < 6; ++k) add(fmt("q.setCoefficients with argument %d NaN", k), false, [=](Biquad& q) { double c[6] = {2, 1, 1, 1, 1, 1}; c[k] = QNAN; q.setCoefficients(c[0], c[1], c[2], c[3], c[4], c[5]); }, nullptr);
  add("q.setOnePole(0.5, -1);", true, [](Biquad& q) { q.setOnePole(0.5, -1); }, [](Mod& m) { m = ident(); m.a[1] = -0.5; m.b[1] = 1; });
  add("q.setOnePole({0,1}, -1);", false, [](Biquad& q) { q.setOnePole(cplx(0, 1), -1); }, nullptr);
  add("q.setOnePole(0.5, {0,1});", false, [](Biquad& q) { q.setOnePole(0.5, cplx(0, 1)); }, nullptr);
  add("q.setTwoPole({.5,.5},-1,{.5,-.5},-1);", true, [](Biquad& q) { q.setTwoPole(cplx(.5, .5), -1, cplx(.5, -.5), -1); }, [](Mod& m) { m = ident(); m.a[1] = -1; m.a[2] = 0.5; m.b[1] = 2; m.b[2] = 1; });
  add("q.setTwoPole(.5,{0,1},-.25,{0,-1});", true, [](Biquad& q) { q.setTwoPole(.5, cplx(0, 1), -.25, cplx(0, -1)); }, [](Mod& m) { m = ident(); m.a[1] = -0.25; m.a[2] = -0.125; m.b[2] = 1; });
  add("q.setTwoPole({.5,.5},-1,{.5,.5},-1);", false, [](Biquad& q) { q.setTwoPole(cplx(.5, .5), -1, cplx(.5, .5), -1); }, nullptr);
  add("q.setTwoPole(.5,{0,1},.5,{0,1});", false, [](Biquad& q) { q.setTwoPole(.5, cplx(0, 1), .5, cplx(0, 1)); }, nullptr);
  const int depth = R.thorough ? 5 : 4;
  std::vector<int> h;
  std::function<void(const Biquad&, const Mod&)> rec = [&](const Biquad& q0, const Mod& m0) {
    if ((int) h.size() == depth) { R.traces++; return; }
    for (int i = 0; i < (int) al.size(); ++i) {
      if (h.size() == 1 && !R.mine()) continue;
      h.push_back(i);
      Biquad q = q0; Mod m = m0;
      std::string text; for (int k : h) text += al[k].text + "\n";
      if (h.size() == 2) R.cur(text);
      bool thrown = false;
      try { al[i].run(q); } catch (const std::invalid_argument&) { thrown = true; }
      R.states++; R.transitions++;
      bool go = true;
      if (thrown != !al[i].legal) { R.fail(std::string("section: ") + (thrown ? "rejected: " : "accepted: ") + al[i].text, text); go = false; }
      else if (thrown) { if (!exact(q, q0)) { R.fail("section: changed by a rejected call: " + al[i].text, text); go = false; } }
      else { al[i].model(m); go = check(q, m, text, h.size() < 4); }
      if (go) rec(q, m);
      h.pop_back();
    }
  };
  rec(Biquad(), ident());
  R.sample(fmt("%zu x %zu poles and zeros; %zu calls, all sequences of length %d, e.g. ", cs.size(), cs.size(), al.size(), depth) + al[7].text + " " + al[0].text);
  return R.finish();
}
