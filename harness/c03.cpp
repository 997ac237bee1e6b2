// C03: arguments outside of their range are always rejected with
// std::invalid_argument, legal ones never.  Full product of boundary-rich
// alphabets of all parameters, orders and call forms, on a new and on a
// configured object.
#include "core.hpp"
#include <climits>
using namespace mc;

struct Dom { std::vector<double> good, bad; };
static Dom dom(const Meta& m, size_t i, bool T) {
  Dom d;
  const double sub = 5e-324;
  Role r = m.roles[i];
  if (m.shelf() && r == ATT) r = RIPPLE;
  switch (r) {
  case FREQ:
    if (m.pole() && m.band()) d.good = {0.051, 0.1, 0.25, 0.3, 0.449};
    else if (m.kind == R_BSH) d.good = {1e-4, 0.001, 0.1, 0.25, 0.3, 0.45};
    else { d.good = {1e-4, 0.001, 0.1, 0.25, 0.3, 0.4999}; if (T) for (double x : {0.01, 0.05, 0.125, 0.2, 0.35, 0.45, 0.49}) d.good.push_back(x); }
    if (m.pole() && (m.kind == LP || m.kind == LS)) for (double x : {0.49999999, 0.4999999999}) d.good.push_back(x);
    if (m.pole() && m.kind == HP) for (double x : {1e-8, 1e-10}) d.good.push_back(x);
    if (m.kind == R_LP || m.kind == R_HP || m.kind == R_AP) for (double x : {1e-8, 0.4999999999}) d.good.push_back(x);
    d.bad = {0.5, std::nextafter(0.5, 1), 0.75, 1, 44100, INF, -sub, -1e-9, -0.1, -0.25, -0.5, -INF, QNAN};
    break;
  case WIDTH: d.good = {0.001, 0.01, 0.05, 0.1}; d.bad = {-sub, -1e-9, -0.05, -1, -INF, QNAN}; break;
  case GAIN: d.good = {-60, -20, -6, -1, 1, 6, 20, 60}; if (T) { d.good.push_back(0.1); d.good.push_back(-0.1); d.good.push_back(3); } d.bad = {QNAN}; break;
  case RIPPLE:
    d.good = {0.01, 0.1, 1, 3, 6}; if (T) d.good.push_back(12);
    d.bad = {QNAN};
    if (!m.shelf()) { d.bad.push_back(-1e-9); d.bad.push_back(-1); d.bad.push_back(-INF); }
    break;
  case ATT: d.good = {0.5, 3, 10, 40, 100}; d.bad = {QNAN, -1e-9, -0.5, -20}; break;
  case QF: d.good = {0.1, 0.5, 0.70710678118654752, 1, 10, 100}; d.bad = {QNAN, -sub, -1e-9, -0.5, -10, -INF}; break;
  case BW: d.good = {0.05, 0.5, 1, 2, 4}; d.bad = {QNAN, -sub, -1e-9, -1, -INF}; break;
  case SLOPE: d.good = {0.1, 0.5, 0.9, 1}; d.bad = {QNAN}; break;
  }
  return d;
}

static const char* vs(Res r) { return r == OK ? "accepted" : r == REJ ? "rejected" : "answered with an exception which is not std::invalid_argument"; }

template <class Fn> static Res call(Fn fn) {
  try { fn(); } catch (const std::invalid_argument&) { return REJ; } catch (...) { return OTHER; }
  return OK;
}

static void coefficientApi(Report& R) {
  auto chk = [&](Res r, Res want, const std::string& what) {
    R.evals++; R.transitions++; R.outcome(r);
    if (r != want) R.fail("Biquad/Custom: " + what + " is " + vs(r) + " but must be " + vs(want), what);
  };
  // NaN in any subset of the six coefficients
  for (int mask = 0; mask < 64; ++mask)
    for (double v : {1.0, -0.5, 2.0}) {
      double c[6]; std::string s;
      for (int i = 0; i < 6; ++i) { c[i] = mask >> i & 1 ? QNAN : v + i * 0.125; s += (i ? ", " : "") + num(c[i]); }
      Iir::Biquad b;
      chk(call([&]() { b.setCoefficients(c[0], c[1], c[2], c[3], c[4], c[5]); }), mask ? REJ : OK, "Iir::Biquad b; b.setCoefficients(" + s + ");");
      double sos[3][6] = {{1, 0, 0, 1, 0, 0}, {1, 0, 0, 1, 0, 0}, {1, 0, 0, 1, 0, 0}};
      for (int pos = 0; pos < 3; ++pos) {
        double t[3][6]; memcpy(t, sos, sizeof t);
        for (int i = 0; i < 6; ++i) t[pos][i] = c[i];
        chk(call([&]() { Iir::Custom::SOSCascade<3> f(t); }), mask ? REJ : OK, fmt("Iir::Custom::SOSCascade<3> with section %d = {", pos) + s + "} (constructor)");
        chk(call([&]() { Iir::Custom::SOSCascade<3, Iir::DirectFormI> f; f.setup(t); }), mask ? REJ : OK, fmt("Iir::Custom::SOSCascade<3,DirectFormI>::setup with section %d = {", pos) + s + "}");
      }
    }
  std::vector<cplx> cs = {{0, 0}, {0.5, 0}, {-0.5, 0}, {0.3, 0.4}, {0.3, -0.4}, {-0.3, 0.4}, {0, 0.5}, {0, -0.5}, {0.3, 1e-300}, {0.3, -1e-300}};
  for (cplx p : cs) for (cplx z : cs) {
    Iir::Biquad b;
    std::string s = fmt("Iir::Biquad b; b.setOnePole({%g,%g},{%g,%g});", p.real(), p.imag(), z.real(), z.imag());
    chk(call([&]() { b.setOnePole(p, z); }), p.imag() == 0 && z.imag() == 0 ? OK : REJ, s);
    for (cplx p2 : cs) for (cplx z2 : cs) {
      bool okp = (p.imag() == 0 && p2.imag() == 0) || p2 == std::conj(p), okz = (z.imag() == 0 && z2.imag() == 0) || z2 == std::conj(z);
      std::string s2 = fmt("Iir::Biquad b; b.setTwoPole({%g,%g},{%g,%g},{%g,%g},{%g,%g});", p.real(), p.imag(), z.real(), z.imag(), p2.real(), p2.imag(), z2.real(), z2.imag());
      chk(call([&]() { b.setTwoPole(p, z, p2, z2); }), okp && okz ? OK : REJ, s2);
    }
  }
  for (int mask = 0; mask < 8; ++mask) {
    double a[3]; for (int i = 0; i < 3; ++i) a[i] = mask >> i & 1 ? QNAN : 0.5;
    Iir::Custom::OnePole o;
    chk(call([&]() { o.setup(a[0], a[1], a[2]); }), mask ? REJ : OK, fmt("Iir::Custom::OnePole o; o.setup(%g,%g,%g);", a[0], a[1], a[2]));
  }
  for (int mask = 0; mask < 32; ++mask) {
    double a[5]; for (int i = 0; i < 5; ++i) a[i] = mask >> i & 1 ? QNAN : 0.5;
    Iir::Custom::TwoPole o;
    Res r = call([&]() { o.setup(a[0], a[1], a[2], a[3], a[4]); });
    chk(r, mask ? REJ : OK, fmt("Iir::Custom::TwoPole o; o.setup(%g,%g,%g,%g,%g);", a[0], a[1], a[2], a[3], a[4]));
  }
  R.sample("Biquad/SOSCascade/OnePole/TwoPole: NaN in every subset of the arguments, all pairs of 10 poles and zeros");
}

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg);
  if (R.mine()) coefficientApi(R);
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    Arena a(e.size);
    size_t np = m.roles.size();
    std::vector<Dom> D;
    for (size_t i = 0; i < np; ++i) D.push_back(dom(m, i, R.thorough));
    struct O { int o; bool ok; };
    std::vector<O> os = {{NO_ORDER, true}};
    if (m.pole()) {
      for (int i = 1; i <= m.cap; ++i) os.push_back({i, true});
      for (int i : {m.cap + 1, m.cap + 2, 2 * m.cap, 2 * m.cap + 1, 100, 1000, INT_MAX / 2, INT_MAX, -1, -2, -m.cap, INT_MIN / 2, INT_MIN}) os.push_back({i, false});
    }
    std::vector<double> p(np);
    uint64_t nb = 0, ngood = 0;
    auto one = [&](const Op& o, bool legalCall, bool used) {
      IFilter& f = a.fresh(e);
      std::vector<Op> h;
      if (used) { Op b = opN(NO_ORDER, base(m)); apply(f, b); f.filter(1.0); h.push_back(b); }
      h.push_back(o);
      R.cur(cxx(m, h));
      Res r = apply(f, o);
      R.transitions++; R.evals++; R.states++; R.traces++;
      R.outcome(fnv(coefs(f)));
      if (legalCall) ngood++; else nb++;
      if (r != (legalCall ? OK : REJ))
        R.fail(m.name + ": " + cxx(o) + " is " + vs(r) + " but must be " + (legalCall ? "accepted" : "rejected with std::invalid_argument"), cxx(m, h));
    };
    std::function<void(size_t, int)> rec = [&](size_t i, int bads) {
      bool ok = bads == 0;
      if (i == np) {
        for (const O& o : os) {
          Op op = opN(o.o, p);
          bool good = ok && o.ok;
          for (int used = 0; used < 2; ++used) {
            one(op, good, used);
            Op s = op; s.t = Op::SETUP;
            if (bads < 2 || R.thorough) for (double fs : {1.0, 1000.0, 44100.0}) {
              s.fs = fs; s.p = p;
              // keep the normalised value exactly legal or illegal
              bool same = true;
              for (int k = 0; k < m.nfreq; ++k) { s.p[k] *= fs; double q = s.p[k] / fs; same = same && ((q == p[k]) || (std::isnan(q) && std::isnan(p[k])) || std::fabs(q - p[k]) < 1e-15 * std::fabs(q)) && !(p[k] == 0.5 && q != 0.5) && !(p[k] < 0 && !(q < 0)); }
              if (same) one(s, good, used);
            }
          }
          for (int np2 = (int) np - m.ndef; np2 < (int) np; ++np2) { // default arguments
            bool dok = o.ok;
            for (int k = 0; k < np2; ++k) if (std::find(D[k].good.begin(), D[k].good.end(), p[k]) == D[k].good.end()) dok = false;
            Op d = op; d.np = np2; one(d, dok, false);
          }
        }
        return;
      }
      for (double v : D[i].good) { if (i == 0 && !R.mine()) continue; p[i] = v; rec(i + 1, bads); }
      for (double v : D[i].bad) { if (i == 0 && !R.mine()) continue; p[i] = v; rec(i + 1, bads + 1); }
    };
    rec(0, 0);
    // legal values close together: a design may not be refused because of the
    // way a particular frequency happens to round
    if (m.pole()) {
      std::vector<double> b = base(m), ws = {0};
      const int n = R.thorough ? 4096 : 512;
      if (m.band()) ws = {0.125, 0.25, 0.05, 1.0 / 3, 0.001};
      for (double w : ws) {
        if (!R.mine()) continue;
        for (int i = 1; i < n; ++i) {
          // half of the points are exact binary fractions, half are not
          double fc = i & 1 ? 0.5 * i / n : 0.5 * i / (n + 0.3);
          if (m.band() && (fc - w / 2 < 0.001 || fc + w / 2 > 0.499)) continue;
          b[0] = fc; if (m.band()) b[1] = w;
          for (int o = 1; o <= m.cap; ++o) one(opN(o, b), true, false);
        }
      }
    }
    // dense lines of legal and of illegal values, in both call forms
    {
      uint64_t turn = 0;
      const bool T = R.thorough;
      auto verdict = [&](Op op, bool good) {
        if (++turn % 3 == 0) { op.t = Op::SETUP; op.fs = turn % 2 ? 1000 : std::pow(10, double(turn % 97) / 10); for (int k = 0; k < m.nfreq; ++k) op.p[k] *= op.fs; }
        IFilter& f = a.fresh(e);
        R.cur(m.name + " " + cxx(op));
        Res r = apply(f, op);
        R.transitions++; R.evals++; R.states++; R.traces++;
        if (good) ngood++; else nb++;
        if (r == (good ? OK : REJ)) return true;
        R.fail(m.name + ": " + cxx(op) + " is " + vs(r) + " but must be " + (good ? "accepted" : "rejected with std::invalid_argument"), cxx(m, {op}));
        return false;
      };
      denseLines(R, m, T ? 20000 : 4000, 12, [&](const Op& op) { return verdict(op, true); });
      const int N = T ? 200000 : 20000;
      for (size_t v = 0; v < np; ++v) for (int sg = 0; sg < 2; ++sg) {
        Role q = m.roles[v] == ATT && m.shelf() ? RIPPLE : m.roles[v];
        if (q == GAIN || q == SLOPE || (q == RIPPLE && m.shelf()) || (!sg && q != FREQ)) continue;
        if (!R.mine()) continue;
        for (int i = 0; i <= N; ++i) {
          std::vector<double> x = base(m);
          double u = double(i) / N;
          x[v] = sg ? -std::pow(10, -12 + 18 * u) : i & 1 ? 0.5 + std::pow(10, -12 + 18 * u) : 0.5 + 2.5 * (u + 1e-9);
          if (!verdict(opN(m.pole() ? (i % 5 ? 1 + i % m.cap : NO_ORDER) : NO_ORDER, x), false)) break;
        }
      }
      if (m.pole()) for (int sg = 0; sg < 2; ++sg) if (R.mine()) for (int i = 0; i < 66000; ++i) if (!verdict(opN(sg ? -1 - i : m.cap + 1 + i, base(m)), false)) break;
    }
    // sampling rates which make no sense
    if (R.mine()) {
      std::vector<double> b = base(m);
      for (double fs : {0.0, -0.0, -1.0, -1000.0, QNAN})
        for (const O& o : os) {
          Op s = opN(o.o, b); s.t = Op::SETUP; s.fs = fs;
          for (int k = 0; k < m.nfreq; ++k) s.p[k] = b[k] * 1000;
          one(s, false, false); one(s, false, true);
        }
      // queries out of range on a configured filter
      IFilter& f = a.fresh(e);
      for (const Op& c : legal(m)) {
        if (apply(f, c) != OK) { R.fail(m.name + ": legal " + cxx(c) + " rejected", cxx(m, {c})); continue; }
        if (!m.pole()) continue;
        for (double fr : {-5e-324, -1e-9, -0.1, -0.5, -1.0, std::nextafter(0.5, 1), 0.50001, 0.6, 1.0, 1e300, INF, -INF}) {
          R.evals++;
          Res r = call([&]() { f.response(fr); });
          if (r != REJ) R.fail(m.name + ": response(" + num(fr) + ") is " + vs(r), cxx(m, {c}) + "f.response(" + num(fr) + ");");
        }
        for (double fr : {0.0, 5e-324, 0.1, 0.25, std::nextafter(0.5, 0), 0.5}) {
          R.evals++;
          Res r = call([&]() { f.response(fr); });
          if (r != OK) R.fail(m.name + ": response(" + num(fr) + ") is " + vs(r), cxx(m, {c}) + "f.response(" + num(fr) + ");");
        }
        int n = f.numStages();
        for (int i : {INT_MIN, -2, -1, n, n + 1, n + 100, INT_MAX}) {
          R.evals++;
          Res r = call([&]() { f.used(i); });
          if (r != REJ) R.fail(m.name + fmt(": operator[](%d) with %d stages in use is ", i, n) + vs(r), cxx(m, {c}) + fmt("f[%d];", i));
        }
        for (int i = 0; i < n; ++i) {
          R.evals++;
          Res r = call([&]() { f.used(i); });
          if (r != OK) R.fail(m.name + fmt(": operator[](%d) with %d stages in use is ", i, n) + vs(r), cxx(m, {c}) + fmt("f[%d];", i));
        }
      }
    }
    R.counts["calls_which_must_be_rejected"] += nb; R.counts["calls_which_must_be_accepted"] += ngood;
    R.sample(m.name + ": last call of the product " + cxx(opN(os.back().o, p)));
  }
  return R.finish();
}
