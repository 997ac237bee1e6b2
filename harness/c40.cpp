// C40: poles, zeros and layouts are described truthfully.
// (a) ComplexPair and PoleZeroPair: all products of parts from an alphabet of
// doubles against the definitions of real, matched, NaN and single.
// (b) Iir::LayoutBase as a state machine: all sequences of calls (accepted and
// refused poles and zeros, resets, normalisations, other storage, pairs which do
// not exist) against a list of pairs.
// (c) the small functions the designs are built from.
#include "model.hpp"
using namespace mc;
static std::string cs(const cplx& c) { return fmt("(%.17g,%.17g)", c.real(), c.imag()); }
static bool same(const cplx& a, const cplx& b) { return a.real() == b.real() && a.imag() == b.imag(); }

static void partA(Report& R) {
  const double I = std::numeric_limits<double>::infinity(), T = std::numeric_limits<double>::denorm_min(), E = std::numeric_limits<double>::epsilon();
  std::vector<double> re = {0.0, -0.0, 0.5, -0.5, 0.5 * (1 + E), T, 1e300, I, -I, QNAN}, im = {0.0, -0.0, 0.25, -0.25, 0.25 * (1 + E), -0.25 * (1 + E), T, -T, 1e-200, I, -I, QNAN};
  if (R.thorough) for (double x : {1.0, -1.0, 1 - E / 2, 2.0, 1e-20, -1e-20}) { re.push_back(x); im.push_back(x); }
  std::vector<cplx> c;
  for (double a : re) for (double b : im) c.push_back(cplx(a, b));
  auto nan = [](double x) { return std::isnan(x); };
  auto nanc = [&](const cplx& x) { return nan(x.real()) || nan(x.imag()); };
  for (auto& a : c) {
    if (!R.mine()) continue;
    R.cur("pairs with " + cs(a));
    bool threw = false; Iir::ComplexPair q;
    try { q = Iir::ComplexPair(a); } catch (const std::invalid_argument&) { threw = true; }
    R.states++;
    if (threw != (a.imag() != 0 || nan(a.imag()))) { R.fail(fmt("ComplexPair(%s) %s", cs(a).c_str(), threw ? "is refused although the number is real" : "is accepted although the number is not real"), "ComplexPair p(complex_t" + cs(a) + ");"); return; }
    if (!threw && !nanc(a) && (!same(q.first, a) || q.second != 0.)) { R.fail("ComplexPair(" + cs(a) + ") holds other numbers", "ComplexPair p(complex_t" + cs(a) + ");"); return; }
    if (Iir::is_nan(a) != nanc(a)) { R.fail("is_nan(" + cs(a) + ") is wrong", "is_nan(complex_t" + cs(a) + ")"); return; }
    for (auto& b : c) {
      Iir::ComplexPair p(a, b);
      std::string id = "ComplexPair(" + cs(a) + "," + cs(b) + ")";
      bool real = a.imag() == 0 && b.imag() == 0;
      R.states++;
      if (p.isReal() != real) { R.fail(id + ".isReal() is wrong", id); return; }
      if (p.is_nan() != (nanc(a) || nanc(b))) { R.fail(id + ".is_nan() is wrong", id); return; }
      if (!nanc(a) && !nanc(b)) {
        bool conj = a.real() == b.real() && a.imag() == -b.imag();
        if (p.isMatchedPair() != (real || conj)) { R.fail(id + ".isMatchedPair() is wrong", id); return; }
      }
    }
  }
  // pole/zero pairs: the NaN in every place, and single or double
  std::vector<cplx> d = {0.0, cplx(-0.0, 0.0), 0.5, cplx(0.5, 0.5), cplx(0, -T), cplx(T, 0), cplx(0.5, QNAN), cplx(QNAN, 0.5), cplx(0, I)};
  for (auto& p1 : d) for (auto& z1 : d) {
    if (!R.mine()) continue;
    for (auto& p2 : d) for (auto& z2 : d) {
      Iir::PoleZeroPair q(p1, z1, p2, z2);
      std::string id = "PoleZeroPair(" + cs(p1) + "," + cs(z1) + "," + cs(p2) + "," + cs(z2) + ")";
      R.states++;
      bool n = nanc(p1) || nanc(z1) || nanc(p2) || nanc(z2);
      if (q.is_nan() != n) { R.fail(id + ".is_nan() is wrong", id); return; }
      if (q.isSinglePole() != (p2 == 0. && z2 == 0.)) { R.fail(id + ".isSinglePole() is wrong", id); return; }
      if (!n && (!same(q.poles.first, p1) || !same(q.poles.second, p2) || !same(q.zeros.first, z1) || !same(q.zeros.second, z2))) { R.fail(id + " holds other numbers", id); return; }
    }
    if (p1.imag() == 0 && z1.imag() == 0) {
      Iir::PoleZeroPair q(p1, z1); std::string id = "PoleZeroPair(" + cs(p1) + "," + cs(z1) + ")";
      if (!q.isSinglePole() || q.is_nan() != (nanc(p1) || nanc(z1))) { R.fail(id + " is not single, or wrong about NaN", id); return; }
    }
  }
  { Iir::PoleZeroPair q; if (q.poles.first != 0. || q.poles.second != 0. || q.zeros.first != 0. || q.zeros.second != 0. || !q.isSinglePole() || q.is_nan()) R.fail("PoleZeroPair() is not empty", "PoleZeroPair q;"); }
  // one call on an empty layout: every value is stored as given
  Iir::Layout<4> st; Iir::LayoutBase l(st);
  std::vector<cplx> e;
  for (auto& a : c) if (!nanc(a)) e.push_back(a);
  for (double x : {0.3, -0.7}) for (int k = 1; k <= 16; ++k) { e.push_back(cplx(x, std::pow(10, -k))); e.push_back(cplx(std::pow(10, -k), -x)); e.push_back(cplx(x + std::pow(10, -k), x)); e.push_back(x * (1 + std::pow(10, -k))); }
  for (auto& a : e) {
    if (!R.mine()) continue;
    for (auto& b : e) for (int form = 0; form < 4; ++form) {
      cplx p1 = a, z1 = b, p2 = 0, z2 = 0;
      std::string id = form == 0 ? "add(" : form == 1 ? "addPoleZeroConjugatePairs(" : form == 2 ? "add(conjugate ComplexPairs of " : "add(ComplexPairs of reals ";
      id += cs(a) + ", " + cs(b) + ")";
      bool ok = form % 3 || (a.imag() == 0 && b.imag() == 0), threw = false;
      if (form == 3 && !ok) continue;
      if (form == 1 || form == 2) { p2 = std::conj(a); z2 = std::conj(b); }
      if (form == 3) { p2 = b; z1 = b; z2 = a; }
      l.reset();
      try {
        if (form == 0) l.add(a, b); else if (form == 1) l.addPoleZeroConjugatePairs(a, b);
        else l.add(Iir::ComplexPair(p1, p2), Iir::ComplexPair(z1, z2));
      } catch (const std::invalid_argument&) { threw = true; }
      R.states++; R.transitions++;
      if (threw == ok) { R.fail("LayoutBase: " + id + (threw ? " is refused" : " is accepted"), "LayoutBase l; l." + id); return; }
      if (threw) { if (l.getNumPoles()) { R.fail("LayoutBase: refused " + id + " has an effect", id); return; } continue; }
      const Iir::PoleZeroPair& q = l.getPair(0);
      if (l.getNumPoles() != (form ? 2 : 1) || !same(q.poles.first, p1) || !same(q.poles.second, p2) || !same(q.zeros.first, z1) || !same(q.zeros.second, z2)) { R.fail("LayoutBase: " + id + " is stored as something else", "LayoutBase l; l." + id); return; }
    }
  }
  R.sample(fmt("ComplexPair: all %zu x %zu pairs; PoleZeroPair: all %zu^4", c.size(), c.size(), d.size()));
}

// ------------------------------------------------------------------ part b
struct Item { cplx p1, z1, p2, z2; bool single; };
struct LModel { std::vector<Item> v; int max = 0; bool norm = false; double w = 0, g = 0; int poles() const { int n = 0; for (auto& x : v) n += x.single ? 1 : 2; return n; } };
struct LCall { const char* text; int kind; cplx p1, z1, p2, z2; }; // 0 single, 1 conjugate, 2 pairs, 3 other
enum { RESET, NORM1, NORM2, STORE, COPY };
static std::vector<LCall> calls() {
  const cplx N(QNAN, 0), M(0, QNAN);
  return {
    {"l.add(complex_t(0.5), complex_t(-1.));", 0, 0.5, -1, 0, 0},
    {"l.add(complex_t(-0.25), complex_t(0.));", 0, -0.25, 0, 0, 0},
    {"l.add(complex_t(0.5,0.1), complex_t(-1.)); // not real", 0, cplx(0.5, 0.1), -1, 0, 0},
    {"l.add(complex_t(0.5), complex_t(0,1)); // not real", 0, 0.5, cplx(0, 1), 0, 0},
    {"l.add(complex_t(NAN), complex_t(-1.));", 0, N, -1, 0, 0},
    {"l.add(complex_t(0.5), complex_t(NAN));", 0, 0.5, N, 0, 0},
    {"l.addPoleZeroConjugatePairs(complex_t(0.5,0.6), complex_t(0,1));", 1, cplx(0.5, 0.6), cplx(0, 1), 0, 0},
    {"l.addPoleZeroConjugatePairs(complex_t(-0.3,-0.2), infinity());", 1, cplx(-0.3, -0.2), Iir::infinity(), 0, 0},
    {"l.addPoleZeroConjugatePairs(complex_t(0,NAN), complex_t(0,1));", 1, M, cplx(0, 1), 0, 0},
    {"l.addPoleZeroConjugatePairs(complex_t(0.5,0.6), complex_t(0,NAN));", 1, cplx(0.5, 0.6), M, 0, 0},
    {"l.add(ComplexPair(0.1,0.2), ComplexPair(-1.,0.3));", 2, 0.1, -1, 0.2, 0.3},
    {"l.add(ComplexPair({0.1,0.7},{0.1,-0.7}), ComplexPair(-1.,-1.));", 2, cplx(0.1, 0.7), -1, cplx(0.1, -0.7), -1},
    {"l.add(ComplexPair({0.1,0.7},{0.1,0.7}), ComplexPair(-1.,-1.)); // no pair", 2, cplx(0.1, 0.7), -1, cplx(0.1, 0.7), -1},
    {"l.add(ComplexPair(0.1,0.2), ComplexPair({0.5,0.5},-1.)); // no pair", 2, 0.1, cplx(0.5, 0.5), 0.2, -1},
    {"l.add(ComplexPair(0.1,{0.2,0.1}), ComplexPair(-1.,-1.)); // no pair", 2, 0.1, -1, cplx(0.2, 0.1), -1},
    {"l.reset();", 3 + RESET, 0, 0, 0, 0},
    {"l.setNormal(0.5, 2);", 3 + NORM1, 0, 0, 0, 0},
    {"l.setNormal(0, -3);", 3 + NORM2, 0, 0, 0, 0},
    {"l.setStorage(other layout);", 3 + STORE, 0, 0, 0, 0},
    {"LayoutBase c(l); l = c;", 3 + COPY, 0, 0, 0, 0},
  };
}
static void partB(Report& R) {
  auto C = calls();
  const int NC = (int) C.size(), depth = R.thorough ? 5 : 4;
  std::vector<int> run; bool stop = false;
  auto play = [&](bool deep) {
    struct { Iir::PoleZeroPair g0; Iir::Layout<5> a; Iir::PoleZeroPair g1; Iir::Layout<8> b; Iir::PoleZeroPair g2; } S; // 3 and 4 pairs between guards
    S.g0 = S.g1 = S.g2 = Iir::PoleZeroPair(7, 8, 9, 10);
    Iir::LayoutBase la(S.a), lb(S.b), l; l.setStorage(la);
    LModel m; m.max = 5; int where = 0;
    std::string err;
    auto check = [&]() {
      if (!err.empty()) return;
      R.transitions++;
      if (l.getNumPoles() != m.poles()) { err = fmt("getNumPoles() is %d instead of %d", l.getNumPoles(), m.poles()); return; }
      if (l.getMaxPoles() != m.max) { err = fmt("getMaxPoles() is %d instead of %d", l.getMaxPoles(), m.max); return; }
      if (m.norm && (l.getNormalW() != m.w || l.getNormalGain() != m.g)) { err = fmt("the normalisation is (%g,%g) instead of (%g,%g)", l.getNormalW(), l.getNormalGain(), m.w, m.g); return; }
      for (size_t i = 0; i < m.v.size(); ++i) {
        const Item& x = m.v[i];
        for (int k = 0; k < 2; ++k) {
          try {
            const Iir::PoleZeroPair& q = k ? l[(int) i] : l.getPair((int) i);
            if (!same(q.poles.first, x.p1) || !same(q.zeros.first, x.z1) || !same(q.poles.second, x.p2) || q.isSinglePole() != (x.p2 == 0. && x.z2 == 0.) ||
                q.zeros.second.real() != x.z2.real() || (q.zeros.second.imag() != x.z2.imag())) err = fmt("pair %zu is not the one which has been added", i);
          } catch (const std::invalid_argument&) { err = fmt("pair %zu can't be read", i); }
        }
      }
      int n = (int) m.v.size();
      for (int i : {-1, n, n + 1, -2147483647 - 1, 2147483647}) for (int k = 0; k < 2; ++k) {
        bool threw = false;
        try { const Iir::PoleZeroPair& q = k ? l[i] : l.getPair(i); (void) q; } catch (const std::invalid_argument&) { threw = true; }
        if (!threw) err = fmt("pair %d of %d can be read", i, n);
      }
      for (auto* g : {&S.g0, &S.g1, &S.g2}) if (!same(g->poles.first, 7) || !same(g->zeros.first, 8) || !same(g->poles.second, 9) || !same(g->zeros.second, 10)) err = "memory beside the storage has been written";
    };
    auto step = [&](const LCall& c) {
      if (!err.empty()) return;
      if (c.kind >= 3) {
        switch (c.kind - 3) {
        case RESET: l.reset(); m.v.clear(); m.norm = false; break;
        case NORM1: l.setNormal(0.5, 2); m.norm = true; m.w = 0.5; m.g = 2; break;
        case NORM2: l.setNormal(0, -3); m.norm = true; m.w = 0; m.g = -3; break;
        case STORE: where = !where; l.setStorage(where ? lb : la); m.v.clear(); m.max = where ? 8 : 5; m.norm = false; break;
        case COPY: { Iir::LayoutBase k(l); l = k; break; }
        }
        check(); return;
      }
      Item x{c.p1, c.z1, c.p2, c.z2, c.kind == 0};
      if (c.kind == 1) { x.p2 = std::conj(c.p1); x.z2 = std::conj(c.z1); }
      auto nan = [](const cplx& q) { return std::isnan(q.real()) || std::isnan(q.imag()); };
      auto matched = [](const cplx& a, const cplx& b) { return (a.imag() == 0 && b.imag() == 0) || b == std::conj(a); };
      int need = c.kind == 0 ? 1 : 2;
      bool odd = m.poles() & 1, bad = nan(c.p1) || nan(c.z1) || (c.kind == 0 && (c.p1.imag() != 0 || c.z1.imag() != 0)) || (c.kind == 2 && (!matched(c.p1, c.p2) || !matched(c.z1, c.z2)));
      if (!odd && !bad && m.poles() + need > m.max) return; // the storage is full: the user's fault
      bool threw = false;
      try {
        if (c.kind == 0) l.add(c.p1, c.z1);
        else if (c.kind == 1) l.addPoleZeroConjugatePairs(c.p1, c.z1);
        else l.add(Iir::ComplexPair(c.p1, c.p2), Iir::ComplexPair(c.z1, c.z2));
      } catch (const std::invalid_argument&) { threw = true; }
      if (threw != (odd || bad)) { err = fmt("'%s' is %s%s", c.text, threw ? "refused" : "accepted", odd ? " after a first order section" : ""); return; }
      if (!threw) m.v.push_back(x);
      check();
    };
    check();
    if (deep) { step(C[6]); step(C[11]); }
    for (int k : run) step(C[k]);
    R.states++; R.traces++; R.evals++; if (m.poles()) R.nontrivial++;
    { uint64_t h = m.max; for (auto& x : m.v) h = h * 1000003 + std::hash<double>()(x.p1.real()) * 3 + std::hash<double>()(x.z1.imag()) * 7 + x.single; R.outcome(h); }
    if (!err.empty()) {
      std::string s = "Layout<5> a; LayoutBase l(a);\n";
      if (deep) s += std::string(C[6].text) + "\n" + C[11].text + "\n";
      for (int k : run) s += std::string(C[k].text) + "\n";
      R.fail("LayoutBase: " + err, s); stop = true;
    }
  };
  std::function<void()> rec = [&]() {
    if ((int) run.size() == depth) { play(false); if (!stop) play(true); return; }
    for (int x = 0; x < NC && !stop; ++x) { if (run.size() == 1 && !R.mine()) continue; run.push_back(x); if (run.size() == 2) R.cur(fmt("LayoutBase, calls %d %d", run[0], run[1])); rec(); run.pop_back(); }
  };
  rec();
  R.sample(fmt("LayoutBase: all sequences of %d out of %d calls, from an empty layout and from one of two pairs", depth, NC));
}

// ------------------------------------------------------------------ part c
static void partC(Report& R) {
  const int n = R.thorough ? 20000000 : 2000000;
  for (int part = 0; part < 16; ++part) {
    if (!R.mine()) continue;
    R.cur(fmt("asinh, part %d", part));
    for (int i = part; i <= n; i += 16) {
      // a grid over the decades 1e-8..1e8, both signs where the formula does not cancel
      double x = std::pow(10.0, -8 + 16.0 * i / n), y = Iir::asinh(x), e = std::asinh(x);
      R.states++;
      if (!(std::abs(y - e) <= 1e-12 * (1 + e))) { R.fail(fmt("asinh(%.17g) is %.17g instead of %.17g", x, y, e), fmt("Iir::asinh(%.17g)", x)); return; }
      if (x <= 1 && !(std::abs(Iir::asinh(-x) + e) <= 1e-12 * (1 + e))) { R.fail(fmt("asinh(%.17g) is %.17g instead of %.17g", -x, Iir::asinh(-x), -e), fmt("Iir::asinh(%.17g)", -x)); return; }
    }
  }
  std::vector<double> v = {0, 1, -1, 0.5, -2, 3, 1e100, -1e-100};
  for (double a : v) for (double b : v) for (double k : v) for (double c : v) for (double d : v) {
    cplx r = Iir::addmul(cplx(a, b), k, cplx(c, d));
    R.states++;
    auto near = [](double x, long double y, long double s) { return std::abs((long double) x - y) <= 1e-15L * s; };
    if (!near(r.real(), a + (long double) k * c, std::abs(a) + std::abs((long double) k * c)) || !near(r.imag(), b + (long double) k * d, std::abs(b) + std::abs((long double) k * d))) {
      R.fail(fmt("addmul((%g,%g),%g,(%g,%g)) is wrong", a, b, k, c, d), fmt("addmul((%g,%g),%g,(%g,%g))", a, b, k, c, d)); return;
    }
  }
  if (!(std::isinf(Iir::infinity().real()) && Iir::infinity().real() > 0 && Iir::infinity().imag() == 0)) R.fail("infinity() is not the real positive infinity", "Iir::infinity()");
  if (Iir::doublePi != M_PI || Iir::doublePi_2 != M_PI_2 || Iir::doubleLn2 != M_LN2 || Iir::doubleLn10 != M_LN10) R.fail("a constant is wrong", "doublePi, doublePi_2, doubleLn2, doubleLn10");
  for (double x : {0.0, 1.0, (double) -INFINITY, (double) INFINITY, (double) QNAN, 5e-324}) if (Iir::is_nan(x) != std::isnan(x)) R.fail("is_nan(double) is wrong", fmt("is_nan(%g)", x));
}
int main(int argc, char** argv) {
  Report R(argc, argv);
  partA(R);
  partB(R);
  partC(R);
  return R.finish();
}
