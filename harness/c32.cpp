// C32: filters made from one's own analog prototypes.
// (a) LayoutBase as a state machine: all sequences of calls to a depth against
// a list.  (b) all prototypes from an alphabet of poles and zeros x transforms
// x frequencies, through the documented extension point (PoleFilterBase with a
// user prototype, the transform classes, Cascade::setLayout, PoleFilter storage):
// the digital response is the prototype's at the mapped frequency.
#include "core.hpp"
using namespace mc;
static const cplx INFZ = Iir::infinity();

struct PZ { cplx p, z; bool pair; };
static double g_normal = 0; // reference frequency of the prototype, as the low pass has it
struct UserProto : Iir::LayoutBase {
  void design(const std::vector<PZ>& v, double gain) {
    reset();
    setNormal(g_normal, gain);
    for (const PZ& q : v) if (q.pair) addPoleZeroConjugatePairs(q.p, q.z); else add(q.p, q.z);
  }
};
struct LPB : Iir::PoleFilterBase<UserProto> { void make(const std::vector<PZ>& v, double g, double fc, double) { m_analogProto.design(v, g); Iir::LowPassTransform(fc, m_digitalProto, m_analogProto); Iir::Cascade::setLayout(m_digitalProto); } };
struct HPB : Iir::PoleFilterBase<UserProto> { void make(const std::vector<PZ>& v, double g, double fc, double) { m_analogProto.design(v, g); Iir::HighPassTransform(fc, m_digitalProto, m_analogProto); Iir::Cascade::setLayout(m_digitalProto); } };
struct BPB : Iir::PoleFilterBase<UserProto> { void make(const std::vector<PZ>& v, double g, double fc, double fw) { m_analogProto.design(v, g); Iir::BandPassTransform(fc, fw, m_digitalProto, m_analogProto); Iir::Cascade::setLayout(m_digitalProto); } };
struct BSB : Iir::PoleFilterBase<UserProto> { void make(const std::vector<PZ>& v, double g, double fc, double fw) { m_analogProto.design(v, g); Iir::BandStopTransform(fc, fw, m_digitalProto, m_analogProto); Iir::Cascade::setLayout(m_digitalProto); } };

static std::string text(const std::vector<PZ>& v) {
  std::string s;
  for (const PZ& q : v) s += fmt("%s(pole %g%+gi, zero %s) ", q.pair ? "pair" : "single", q.p.real(), q.p.imag(), std::isinf(q.z.real()) ? "infinite" : fmt("%g%+gi", q.z.real(), q.z.imag()).c_str());
  return s;
}
// prototype response at s = jW, up to its gain; W may be infinite
static cplx H(const std::vector<PZ>& v, double W) {
  cplx h(1), s(0, W);
  for (const PZ& q : v) for (int k = 0; k < (q.pair ? 2 : 1); ++k) {
    cplx p = k ? std::conj(q.p) : q.p, z = k ? std::conj(q.z) : q.z;
    bool fin = !std::isinf(q.z.real());
    if (std::fabs(W) > 1e40) h *= fin ? 1 : 0;
    else h *= (fin ? s - z : cplx(1)) / (s - p);
  }
  return h;
}
enum T { TLP, THP, TBP, TBS };
static double omega(T t, double fc, double fw, double f) {
  const double BIG = 1e60;
  auto inv = [&](double w) { return std::fabs(w) < 1 / BIG ? BIG : -1 / w; };
  if (t == TLP || t == THP) { double W = f == 0.5 ? BIG : std::tan(M_PI * f) / std::tan(M_PI * fc); return t == TLP ? W : inv(W); }
  double w1 = 2 * M_PI * (fc - fw / 2), w2 = 2 * M_PI * (fc + fw / 2), w = 2 * M_PI * f;
  double a = std::cos((w1 + w2) / 2) / std::cos((w2 - w1) / 2), b = 1 / std::tan((w2 - w1) / 2);
  double sn = (f == 0 || f == 0.5) ? 0 : std::sin(w), nu = a - std::cos(w);
  double W = sn == 0 ? (nu > 0 ? BIG : -BIG) : nu / sn * b;
  return t == TBP ? W : inv(W);
}

template <class F> static void check(Report& R, F& f, T t, const char* tn, const std::vector<PZ>& v, double g, double fc, double fw, int digital) {
  auto id = [&]() { return std::string(tn) + fmt("(%g, %g) of the prototype ", fc, fw) + (g_normal ? fmt("normalised at %g ", g_normal) : "") + text(v); };
  R.states++; R.traces++; R.evals++;
  try { f.make(v, g, fc, fw); } catch (const std::invalid_argument& e) {
    R.fail(id() + "is rejected: " + e.what(), id()); return;
  }
  if (f.getNumStages() != (digital + 1) / 2) { R.fail(id() + fmt("has %d sections for %d poles", f.getNumStages(), digital), id()); return; }
  // poles of the report inside the unit circle, one per pole of the prototype (two for bands)
  auto z = f.getPoleZeros();
  int n = 0;
  for (auto& q : z) { n += q.isSinglePole() ? 1 : 2; if (!(std::abs(q.poles.first) < 1) || !(std::abs(q.poles.second) < 1)) { R.fail(id() + "has a pole outside of the unit circle", id()); return; } }
  if (n != digital) { R.fail(id() + fmt("reports %d poles instead of %d", n, digital), id()); return; }
  // gain at the reference frequency
  double w0 = fc;
  const double pi = M_PI;
  if (t == TLP) w0 = g_normal / (2 * pi); else if (t == THP) w0 = 0.5 - g_normal / (2 * pi); else if (t == TBS) w0 = fc < 0.25 ? 0.5 : 0;
  else w0 = std::atan(std::sqrt(std::tan(pi * (fc - fw / 2)) * std::tan(pi * (fc + fw / 2)))) / pi;
  cplx ref = f.response(w0), hr = H(v, omega(t, fc, fw, w0));
  if (!near(std::abs(ref), g, 1e-7)) { R.fail(id() + fmt("has gain %g at the reference frequency %g instead of %g", std::abs(ref), w0, g), id()); return; }
  cplx scale = g / std::abs(hr);
  double sgn = 0, worst = 0; double big = 0;
  std::vector<std::pair<cplx, cplx>> r;
  static const double fs[] = {0, 0.004, 0.02, 0.05, 0.09, 0.1, 0.12, 0.15, 0.2, 0.22, 0.25, 0.28, 0.31, 0.36, 0.4, 0.43, 0.47, 0.49, 0.5};
  for (double q : fs) { cplx a = f.response(q), b = H(v, omega(t, fc, fw, q)) * scale; r.push_back(std::make_pair(a, b)); if (std::abs(b) > big) { big = std::abs(b); sgn = std::abs(a - b) < std::abs(a + b) ? 1 : -1; } R.transitions++; }
  for (size_t i = 0; i < r.size(); ++i) {
    double e = std::abs(r[i].first - sgn * r[i].second) / big;
    worst = std::max(worst, e);
    if (!(e < 1e-9)) { R.fail(id() + fmt("has response %g%+gi at %g, the prototype has %g%+gi (up to sign)", r[i].first.real(), r[i].first.imag(), fs[i], r[i].second.real(), r[i].second.imag()), id()); return; }
  }
  R.maximum("response_error", worst);
  R.outcome(fnv(&r[3], sizeof r[3]));
  // the gain can be scaled afterwards
  cplx a = f.response(0.11);
  f.applyScale(-0.5);
  if (std::abs(f.response(0.11) + 0.5 * a) > 1e-12 * big + 1e-15) R.fail(id() + ": applyScale(-0.5) does not scale the response", id());
}

int main(int argc, char** argv) {
  Report R(argc, argv);
  // (b)
  std::vector<PZ> pairs, singles;
  for (cplx p : {cplx(-0.5, 0.8), cplx(-0.1, 1.2), cplx(-1, 0.2), cplx(-0.3, -3)}) for (cplx z : {INFZ, cplx(0, 1.5), cplx(0, -0.4), cplx(-1, 1), cplx(0.7, 0.45), cplx(-2, 0), cplx(-3e3, 2e4)}) pairs.push_back(PZ{p, z, true});
  for (double p : {-1.0, -0.4, -2.5}) for (cplx z : {INFZ, cplx(-0.5), cplx(-3), cplx(0.8), cplx(-2e3), cplx(3e6)}) singles.push_back(PZ{p, z, false});
  std::vector<std::vector<PZ>> protos;
  std::vector<PZ> cur;
  const size_t maxp = R.thorough ? 3 : 2;
  std::function<void()> rec = [&]() {
    if (!cur.empty()) protos.push_back(cur);
    for (size_t i = 0; i < singles.size(); ++i) if (cur.size() < 2 || i % 5 == 0) { cur.push_back(singles[i]); protos.push_back(cur); cur.pop_back(); }
    if (cur.size() < maxp) for (size_t i = 0; i < pairs.size(); ++i) { cur.push_back(pairs[i]); rec(); cur.pop_back(); }
  };
  rec();
  typedef Iir::DirectFormII D2;
  Iir::PoleFilter<LPB, D2, 7> lp; Iir::PoleFilter<HPB, D2, 7> hp; Iir::PoleFilter<BPB, D2, 7, 14> bp; Iir::PoleFilter<BSB, D2, 7, 14> bs;
  const double fcs[] = {0.03, 0.1, 0.2, 0.25, 0.3, 0.44};
  const double fws[] = {0.02, 0.05, 0.1, 0.3};
  for (auto& v : protos) {
    if (!R.mine()) continue;
    R.cur(text(v));
    int n = 0; for (const PZ& q : v) n += q.pair ? 2 : 1;
    for (double fc : fcs) {
      check(R, lp, TLP, "LowPassTransform", v, 1, fc, 0, n);
      check(R, hp, THP, "HighPassTransform", v, 0.25, fc, 0, n);
      for (double W : {0.3, 1.0, 2.5}) { // band stops are normalised at 0 or Nyquist in any case
        g_normal = W;
        // not at a zero of the prototype
        if (std::abs(H(v, omega(TLP, fc, 0, W / (2 * M_PI)))) > 1e-6) check(R, lp, TLP, "LowPassTransform", v, 3, fc, 0, n);
        if (std::abs(H(v, omega(THP, fc, 0, 0.5 - W / (2 * M_PI)))) > 1e-6) check(R, hp, THP, "HighPassTransform", v, 0.75, fc, 0, n);
        if (W == 1.0 && fc > 0.1 && fc < 0.4) check(R, bs, TBS, "BandStopTransform", v, 0.5, fc, 0.1, 2 * n);
      }
      g_normal = 0;
      for (double fw : fws) {
        if (fc - fw / 2 < 0.004 || fc + fw / 2 > 0.496) continue;
        check(R, bp, TBP, "BandPassTransform", v, 2, fc, fw, 2 * n);
        bool finite = false; (void) finite;
        check(R, bs, TBS, "BandStopTransform", v, 0.5, fc, fw, 2 * n);
      }
    }
  }
  R.counts["prototypes"] = R.shard == 0 ? protos.size() : 0;
  // one frequency or one pole or zero of a prototype in small steps
  {
    const int N = R.thorough ? 60000 : 6000;
    for (int which = 0; which < 8; ++which) for (int b = 0; b < 2; ++b) for (int c = 0; c < 4; ++c) {
      if (!R.mine()) continue;
      for (int i = c; i <= N; i += 4) {
        const double u = double(i) / N;
        auto lg = [&](double lo, double hi) { return lo * std::pow(hi / lo, u); };
        double fc = b ? 0.137 : 0.31, fw = b ? 0.087 : 0.19;
        std::vector<PZ> v;
        if (b) { v.push_back(PZ{cplx(-0.5, 0.8), INFZ, true}); v.push_back(PZ{-1.3, INFZ, false}); }
        else { v.push_back(PZ{cplx(-0.3, 1.1), cplx(0, 1.9), true}); v.push_back(PZ{cplx(-1, 0.4), cplx(-0.6, 0.9), true}); }
        PZ& q = v[0];
        switch (which) {
        case 0: fc = i & 1 ? lg(0.1, 0.4) : 0.1 + 0.3 * u; break;
        case 1: fw = lg(0.01, 2 * std::min(fc - 0.004, 0.496 - fc)); break;
        case 2: q.p = cplx(-lg(0.01, 10), q.p.imag()); break;
        case 3: q.p = cplx(q.p.real(), (i & 1 ? -1 : 1) * lg(0.05, 20)); break;
        case 4: q.z = cplx(0, lg(0.01, 100)); break;
        case 5: q.z = cplx((i & 1 ? -1 : 1) * lg(0.01, 10), 0.9); break;
        case 6: if (v[1].pair) continue; v[1].p = -lg(0.02, 50); break;
        case 7: fc = lg(0.02, 0.48); fw = 0.02; break;
        }
        R.cur(text(v));
        int n = 0; for (const PZ& z : v) n += z.pair ? 2 : 1;
        double worst = INF; // not normalised at a zero
        for (double W : {0.0, 1e60}) { cplx h = H(v, W); bool all = true; for (const PZ& z : v) if (!std::isinf(z.z.real())) all = false; if (!all && W == 0) worst = std::min(worst, std::abs(h)); }
        if (worst < 1e-6) continue;
        check(R, lp, TLP, "LowPassTransform", v, 1.5, fc, 0, n);
        check(R, hp, THP, "HighPassTransform", v, 0.25, fc, 0, n);
        if (fc - fw / 2 < 0.004 || fc + fw / 2 > 0.496) continue;
        check(R, bp, TBP, "BandPassTransform", v, 2, fc, fw, 2 * n);
        check(R, bs, TBS, "BandStopTransform", v, 0.5, fc, fw, 2 * n);
      }
    }
  }
  // (a)
  enum A { ADD1, ADD1B, CONJ, CONJB, PAIR, PAIRR, BADP, BADZ, NANP, NANZ, NAN2, NAN3, RESET, NORMAL, NA };
  static const char* an[] = {"add(-1, infinity)", "add(0.5, 0.25)", "addPoleZeroConjugatePairs(-0.5+0.8i, 2i)", "addPoleZeroConjugatePairs(-3, infinity)", "add({a, conj a}, {b, conj b})", "add({0.5, 0}, {0, 3})", "add({1+i, 1+i}, ...)", "add(..., {1i, 2})", "add(NaN, 0)", "add(0, NaN)", "addPoleZeroConjugatePairs(NaN, 0)", "addPoleZeroConjugatePairs(0, NaN i)", "reset()", "setNormal(0.25, 3)"};
  const int depth = R.thorough ? 6 : 5, cap = 12;
  std::vector<int> run;
  std::function<void()> go = [&]() {
    Iir::Layout<cap> store; Iir::LayoutBase l = store;
    std::vector<Iir::PoleZeroPair> model; int n = 0; double nw = 0, ng = 1;
    std::string t;
    for (int a : run) {
      t += std::string(an[a]) + "; ";
      bool expect = true; // accepted
      cplx a1(-0.5, 0.8), b1(0, 2);
      std::vector<Iir::PoleZeroPair> was = model; int wasn = n;
      switch (a) {
      case ADD1: model.push_back(Iir::PoleZeroPair(-1, INFZ)); n++; break;
      case ADD1B: model.push_back(Iir::PoleZeroPair(0.5, 0.25)); n++; break;
      case CONJ: model.push_back(Iir::PoleZeroPair(a1, b1, std::conj(a1), std::conj(b1))); n += 2; break;
      case CONJB: model.push_back(Iir::PoleZeroPair(-3, INFZ, -3, std::conj(INFZ))); n += 2; break;
      case PAIR: model.push_back(Iir::PoleZeroPair(b1, a1, std::conj(b1), std::conj(a1))); n += 2; break;
      case PAIRR: model.push_back(Iir::PoleZeroPair(0.5, 0, 0, 3)); n += 2; break;
      case RESET: model.clear(); n = 0; break;
      case NORMAL: nw = 0.25; ng = 3; break;
      default: expect = false;
      }
      if (wasn & 1 && a < RESET) { expect = false; model = was; n = wasn; }
      bool ok = true;
      try {
        switch (a) {
        case ADD1: l.add(-1, INFZ); break;
        case ADD1B: l.add(0.5, 0.25); break;
        case CONJ: l.addPoleZeroConjugatePairs(a1, b1); break;
        case CONJB: l.addPoleZeroConjugatePairs(-3, INFZ); break;
        case PAIR: l.add(Iir::ComplexPair(b1, std::conj(b1)), Iir::ComplexPair(a1, std::conj(a1))); break;
        case PAIRR: l.add(Iir::ComplexPair(0.5, 0), Iir::ComplexPair(0, 3)); break;
        case BADP: l.add(Iir::ComplexPair(cplx(1, 1), cplx(1, 1)), Iir::ComplexPair(2, 3)); break;
        case BADZ: l.add(Iir::ComplexPair(2, 3), Iir::ComplexPair(cplx(0, 1), 2)); break;
        case NANP: l.add(QNAN, 0); break;
        case NANZ: l.add(0, QNAN); break;
        case NAN2: l.addPoleZeroConjugatePairs(QNAN, 0); break;
        case NAN3: l.addPoleZeroConjugatePairs(0, cplx(0, QNAN)); break;
        case RESET: l.reset(); break;
        case NORMAL: l.setNormal(0.25, 3); break;
        }
      } catch (const std::invalid_argument&) { ok = false; }
      R.transitions++;
      if (ok != expect) { R.fail("LayoutBase: " + t + (ok ? "the last call is accepted" : "the last call is rejected"), t); return; }
      if (l.getNumPoles() != n || l.getMaxPoles() != cap || l.getNormalW() != nw || l.getNormalGain() != ng) { R.fail("LayoutBase: " + t + fmt("%d poles instead of %d, or wrong normalisation", l.getNumPoles(), n), t); return; }
      for (int i = 0; i < (int) model.size(); ++i) {
        const Iir::PoleZeroPair &q = l[i], &m = model[i];
        auto eq = [](cplx x, cplx y) { return x == y || (std::isinf(x.real()) && std::isinf(y.real())); };
        if (!eq(q.poles.first, m.poles.first) || !eq(q.poles.second, m.poles.second) || !eq(q.zeros.first, m.zeros.first) || !eq(q.zeros.second, m.zeros.second)) { R.fail("LayoutBase: " + t + fmt("pair %d is not what was added", i), t); return; }
      }
      for (int i : {-1, (int) model.size(), cap / 2, 2147483647, -2147483647 - 1}) { if (i == cap / 2 && (int) model.size() > i) continue; bool thrown = false; try { l.getPair(i); } catch (const std::invalid_argument&) { thrown = true; } if (!thrown) { R.fail("LayoutBase: " + t + fmt("getPair(%d) is accepted with %zu pairs", i, model.size()), t); return; } }
    }
    R.states++; R.traces++; R.evals++; R.outcome(n * 100 + model.size());
  };
  std::function<void(int)> all = [&](int d) {
    if (d == depth) { go(); return; }
    for (int a = 0; a < NA; ++a) { if (d == 1 && !R.mine()) continue; run.push_back(a); all(d + 1); run.pop_back(); }
  };
  R.cur("sequences of LayoutBase calls");
  all(0);
  R.sample(fmt("%zu prototypes such as ", protos.size()) + text(protos[protos.size() / 2]) + "x 4 transforms x frequencies");
  R.sample(fmt("all sequences of %d out of %d LayoutBase calls", depth, (int) NA));
  return R.finish();
}
