// C39: cascades with storage of their own, and filters designed by the user.
// (a) Iir::Cascade as a state machine: all sequences of calls (other storage,
// layouts which are accepted or refused, scales, coefficients written through
// the storage, queries) against a list of rational functions.
// (b) Iir::PoleFilter over design classes of the user, as all the filters of the
// library are made: all histories of designs, refused designs, samples, resets,
// copies, moves, assignments and swaps against a twin made from the last design
// and the state equations.
#include "model.hpp"
using namespace mc;
static const cplx INFZ = Iir::infinity();

// ------------------------------------------------------------------ part a
struct Sec { double b0, b1, b2, a1, a2; };
struct PZ { cplx p, z; int kind; }; // 0 single, 1 conjugate pair, 2 pair of reals: p, z and p/2, z/2
struct Lay { const char* n; std::vector<PZ> v; double w, g; bool nan; };
static std::vector<Lay> layouts() {
  return {
    {"{single 0.5 / -1}", {{0.5, -1, 0}}, 0, 1, false},
    {"{pair 0.5+0.6i / i}, normal 0.7 0.5", {{cplx(0.5, 0.6), cplx(0, 1), 1}}, 0.7, 0.5, false},
    {"{pair 0.2-0.3i / 0.5+0.5i, single 0.25 / 0}, normal 0 -2", {{cplx(0.2, -0.3), cplx(0.5, 0.5), 1}, {0.25, 0, 0}}, 0, -2, false},
    {"{reals 0.8 0.4 / -1 -0.5, pair 0.1i / -1}, normal 1 3", {{0.8, -1, 2}, {cplx(0, 0.1), -1, 1}}, 1, 3, false},
    {"{pair, reals, single}", {{cplx(-0.5, 0.5), cplx(0, -1), 1}, {-0.4, 0.5, 2}, {0.9, -1, 0}}, 0.3, 1, false},
    {"{}", {}, 0, 1, false},
    {"{pair}, normal gain NAN", {{cplx(0.5, 0.6), cplx(0, 1), 1}}, 0.7, QNAN, true},
    {"{single}, normal frequency beyond Nyquist", {{0.5, -1, 0}}, 4, 1, true},
    {"{pair, pair}, normal frequency negative", {{cplx(0.5, 0.6), cplx(0, 1), 1}, {cplx(0.5, 0.6), cplx(0, 1), 1}}, -1, 1, true},
  };
}
static void fill(Iir::LayoutBase& l, const Lay& q) {
  l.reset(); l.setNormal(q.w, q.g);
  for (const PZ& x : q.v)
    if (x.kind == 0) l.add(x.p, x.z);
    else if (x.kind == 1) l.addPoleZeroConjugatePairs(x.p, x.z);
    else l.add(Iir::ComplexPair(x.p, x.p / 2.0), Iir::ComplexPair(x.z, x.z / 2.0));
}
static cplx resp(const Sec& s, double f) { cplx z1 = std::polar(1.0, -2 * M_PI * f), z2 = z1 * z1; return (s.b0 + s.b1 * z1 + s.b2 * z2) / (1.0 + s.a1 * z1 + s.a2 * z2); }
static std::vector<Sec> realise(const Lay& q) {
  std::vector<Sec> r;
  for (const PZ& x : q.v) {
    cplx p2 = x.kind == 0 ? 0 : x.kind == 1 ? std::conj(x.p) : x.p / 2.0, z2 = x.kind == 0 ? 0 : x.kind == 1 ? std::conj(x.z) : x.z / 2.0;
    Sec s = {1, -(x.z + z2).real(), (x.z * z2).real(), -(x.p + p2).real(), (x.p * p2).real()};
    r.push_back(s);
  }
  if (r.empty()) return r;
  cplx h(1); for (const Sec& s : r) h *= resp(s, q.w / (2 * M_PI));
  double k = q.g / std::abs(h);
  r[0].b0 *= k; r[0].b1 *= k; r[0].b2 *= k;
  return r;
}
static void partA(Report& R) {
  static const std::vector<Lay> lays = layouts();
  const int NL = lays.size();
  enum { STORE1, STORE2, STORE3, SCALE, SCALE2, WRITE, QUERY, BADQ, LAYC, NOPS0 };
  const int nops = LAYC + 2 * NL; // layouts as const and as own layouts
  const int depth = R.thorough ? 5 : 4;
  auto name = [&](int a) -> std::string {
    static const char* n[] = {"c.setCascadeStorage({1, x});", "c.setCascadeStorage({2, y});", "c.setCascadeStorage({3, z});", "c.applyScale(-0.5);", "c.applyScale(3);", "/* first stage in the storage */ .setCoefficients(2, 0.2, 0.4, 1, -0.5, 0.25);", "/* queries */", "/* response(0.51), response(-0.1), c[-1], c[getNumStages()] */"};
    if (a < LAYC) return n[a];
    int k = (a - LAYC) % NL;
    return std::string("c.setLayout(") + (a - LAYC < NL ? "const " : "") + lays[k].n + ");";
  };
  std::vector<int> run;
  auto play = [&]() {
    Iir::Biquad st[3][3];
    Iir::Cascade c;
    std::vector<Sec> model[3]; int cur = -1, used = 0; // model: all stages of a storage
    const Sec unit = {1, 0, 0, 0, 0};
    for (int i = 0; i < 3; ++i) model[i].assign(i + 1, unit);
    std::string err;
    for (size_t i = 0; i < run.size() && err.empty(); ++i) {
      int a = run[i]; R.transitions++;
      if (a <= STORE3) { c.setCascadeStorage(Iir::Cascade::Storage(a + 1, st[a])); cur = a; used = 0; }
      else if (a == SCALE || a == SCALE2) { double k = a == SCALE ? -0.5 : 3; c.applyScale(k); if (used) { Sec& s = model[cur][0]; s.b0 *= k; s.b1 *= k; s.b2 *= k; } }
      else if (a == WRITE) { if (cur >= 0) { st[cur][0].setCoefficients(2, 0.2, 0.4, 1, -0.5, 0.25); Sec s = {0.5, -0.25, 0.125, 0.1, 0.2}; model[cur][0] = s; } }
      else if (a == QUERY) { c.response(0.1); c.getPoleZeros(); c.getNumStages(); for (int k = 0; k < c.getNumStages(); ++k) c[k]; }
      else if (a == BADQ) {
        int n = 0;
        for (double f : {0.51, -0.1}) try { c.response(f); } catch (const std::invalid_argument&) { n++; }
        for (int k : {-1, used, 100}) try { c[k]; } catch (const std::invalid_argument&) { n++; }
        if (n != 5) err = "an illegal query is answered";
      } else {
        const int k = (a - LAYC) % NL; const Lay& q = lays[k];
        Iir::Layout<6> store; Iir::LayoutBase l = store;
        fill(l, q);
        bool ok = true;
        try { if (a - LAYC < NL) c.setLayout(const_cast<const Iir::LayoutBase&>(l)); else c.setLayout(l); } catch (const std::invalid_argument&) { ok = false; }
        bool want = !q.nan && (int) q.v.size() <= cur + 1;
        if (ok != want) { err = ok ? "the layout is accepted" : "the layout is rejected"; break; }
        if (ok) { std::vector<Sec> s = realise(q); used = s.size(); if (cur >= 0) { s.resize(cur + 1, unit); model[cur] = s; } }
        if (l.getNumPoles() != [&]() { int n = 0; for (auto& x : q.v) n += x.kind ? 2 : 1; return n; }()) err = "the layout has changed";
      }
      R.evals++;
      if (!err.empty()) break;
      if (c.getNumStages() != used) { err = fmt("%d stages in use instead of %d", c.getNumStages(), used); break; }
      for (int s = 0; s < 3; ++s) for (int k = 0; k <= s; ++k) {
        Coef g = coef(st[s][k]); const Sec& m = model[s][k];
        if (!near(g.b0 / g.a0, m.b0, 1e-11, 1e-13) || !near(g.b1 / g.a0, m.b1, 1e-11, 1e-13) || !near(g.b2 / g.a0, m.b2, 1e-11, 1e-13) || !near(g.a1 / g.a0, m.a1, 1e-11, 1e-13) || !near(g.a2 / g.a0, m.a2, 1e-11, 1e-13))
          err = fmt("stage %d of the storage of size %d has b0 %.17g instead of %.17g, or other coefficients", k, s + 1, g.b0 / g.a0, m.b0);
      }
      if (!err.empty()) break;
      for (double f : {0.0, 0.13, 0.31, 0.5}) {
        cplx h(1); for (int k = 0; k < used; ++k) h *= resp(model[cur][k], f);
        cplx g = c.response(f);
        if (!(std::abs(g - h) <= 1e-10 * (1 + std::abs(h)))) { err = fmt("response(%g) is ", f) + num(g.real()) + " " + num(g.imag()) + " instead of " + num(h.real()) + " " + num(h.imag()); break; }
        R.outcome(fnv(&g, sizeof g));
      }
      if (err.empty() && (int) c.getPoleZeros().size() != used) err = "the pole/zero report has another number of entries than stages are in use";
      for (int k = 0; k < used && err.empty(); ++k) if (&c[k] != &st[cur][k]) err = "c[i] is not the stage of the storage";
    }
    R.states++; R.traces++;
    if (!err.empty()) { std::string t = "Iir::Biquad x[1], y[2], z[3]; Iir::Cascade c;\n"; for (int a : run) t += name(a) + "\n"; R.fail("a cascade with its own storage: " + err, t); }
  };
  std::function<void()> rec = [&]() {
    if ((int) run.size() == depth) { play(); return; }
    for (int a = 0; a < nops; ++a) { if (run.size() == 1 && !R.mine()) continue; run.push_back(a); if (run.size() == 2) R.cur("cascade: " + name(run[0]) + name(run[1])); rec(); run.pop_back(); }
  };
  rec();
  R.sample(fmt("cascade: all sequences of %d out of %d calls, e.g. ", depth, nops) + name(STORE3) + name(LAYC + 4) + name(SCALE) + name(STORE2));
}

// ------------------------------------------------------------------ part b
struct Design { const char* n; int np; double fc, fw, g, w; bool good; };
struct UserProto : Iir::LayoutBase {
  void design(const Design& d) {
    reset(); setNormal(d.w, d.g);
    static const cplx p[] = {cplx(-0.4, 0.9), cplx(-0.9, 0.35), cplx(-0.6, 0.2)};
    for (int i = 0; i < d.np / 2; ++i) addPoleZeroConjugatePairs(p[i], i == 1 ? cplx(0, 2.5) : INFZ);
    if (d.np & 1) add(-1.25, INFZ);
  }
};
struct LPB : Iir::PoleFilterBase<UserProto> { void make(const Design& d) { m_analogProto.design(d); Iir::LowPassTransform(d.fc, m_digitalProto, m_analogProto); Iir::Cascade::setLayout(m_digitalProto); } };
struct HPB : Iir::PoleFilterBase<UserProto> { void make(const Design& d) { m_analogProto.design(d); Iir::HighPassTransform(d.fc, m_digitalProto, m_analogProto); Iir::Cascade::setLayout(m_digitalProto); } };
struct BPB : Iir::PoleFilterBase<UserProto> { void make(const Design& d) { m_analogProto.design(d); Iir::BandPassTransform(d.fc, d.fw, m_digitalProto, m_analogProto); Iir::Cascade::setLayout(m_digitalProto); } };
struct BSB : Iir::PoleFilterBase<UserProto> { void make(const Design& d) { m_analogProto.design(d); Iir::BandStopTransform(d.fc, d.fw, m_digitalProto, m_analogProto); Iir::Cascade::setLayout(m_digitalProto); } };

template <class F> struct View : IFilter { // for Model::load, signature
  F& f; explicit View(F& x) : f(x) {}
  void setupN(int, const double*, int) override {} void setup(int, double, const double*, int) override {}
  double filter(double x) override { return f.filter(x); } float filterF(float x) override { return f.filter(x); } int filterI(int x) override { return f.filter(x); }
  short filterS(short x) override { return f.filter(x); } long long filterL(long long x) override { return f.filter(x); }
  void reset() override { f.reset(); } cplx response(double fr) override { return f.response(fr); }
  std::vector<Iir::PoleZeroPair> poleZeros() override { return f.getPoleZeros(); } std::vector<Iir::PoleZeroPair> poleZerosCascade() override { return f.Iir::Cascade::getPoleZeros(); }
  int numStages() override { return f.getNumStages(); } Coef used(int i) override { return coef(f[i]); }
  int maxStages() override { return f.getCascadeStorage().maxStages; } Coef stage(int i) override { return coef(f.getCascadeStorage().stageArray[i]); }
  IFilter* clone(void*) const override { return nullptr; } void assign(const IFilter&) override {} IFilter* cloneBy(int, void*) override { return nullptr; } void assignBy(int, IFilter&) override {}
  size_t size() const override { return sizeof f; }
};
// report, coefficients and response, without touching the delay lines
template <class F> static std::vector<double> face(F& f) {
  View<F> v(f); std::vector<double> r = coefs(v);
  for (double fr : {0.0, 0.07, 0.3, 0.5}) { cplx q = f.response(fr); r.push_back(q.real()); r.push_back(q.imag()); }
  for (auto& q : f.getPoleZeros()) for (cplx c : {q.poles.first, q.poles.second, q.zeros.first, q.zeros.second}) { r.push_back(c.real()); r.push_back(c.imag()); }
  r.push_back(f.Iir::Cascade::getPoleZeros().size());
  return r;
}
static const Design designs[] = {
  {"5 poles, fc 0.1, fw 0.05", 5, 0.1, 0.05, 1, 0, true},
  {"5 poles, fc 0.3, fw 0.1, gain 2 at 0.5", 5, 0.3, 0.1, 2, 0.5, true},
  {"2 poles, fc 0.2, fw 0.04", 2, 0.2, 0.04, 0.5, 0, true},
  {"1 pole, fc 0.25, fw 0.3", 1, 0.25, 0.3, 1, 0.1, true},
  {"3 poles, gain NAN", 3, 0.2, 0.1, QNAN, 0, false},
  {"4 poles, fc NAN, fw NAN", 4, QNAN, QNAN, 1, 0.5, false},
  {"2 poles, fc 0.6, fw -0.1", 2, 0.6, -0.1, 1, 0, false},
};
static const int ND = sizeof designs / sizeof *designs;

template <class F> static void partB(Report& R, const std::string& name, Topo t, int own) {
  enum { D0, RESET = ND, ONE, MIX, COPY, MOVE, ASSIGN, MASSIGN, SELF, GIVE, SWAP, REPORT, NOP };
  static const char* text[] = {"f.reset();", "f.filter(1.0);", "f.filter(-0.5); f.filter(0.0); f.filter(2.0);", "{ F* g = new F(f); /* f is designed anew and destroyed, *g goes on */ }", "{ F* g = new F(std::move(f)); /* f is destroyed, *g goes on */ }", "f = other;", "f = std::move(copy of other);", "f = f;", "other = f; other.filter(1.0);", "std::swap(f, other);", "/* report, coefficients, response */"};
  const int depth = R.thorough ? 5 : 4;
  // twins
  std::vector<std::vector<double>> want(ND + 1); std::vector<Model> ref;
  for (int i = 0; i <= ND; ++i) {
    std::unique_ptr<F> f(new F);
    if (i && designs[i - 1].good) try { f->make(designs[i - 1]); } catch (const std::invalid_argument&) { R.fail(name + " with " + designs[i - 1].n + " is rejected", designs[i - 1].n); }
    want[i] = face(*f); View<F> v(*f);
    if (i && designs[i - 1].good && own) { // the gain asked for, at the reference frequency
      double g = std::abs(f->response(own == 1 ? designs[i - 1].w / (2 * M_PI) : 0.5 - designs[i - 1].w / (2 * M_PI)));
      if (!near(g, designs[i - 1].g, 1e-9)) R.fail(name + " with " + designs[i - 1].n + fmt(" has gain %.12g at its reference frequency", g), designs[i - 1].n);
    }
    Model m(t, v.maxStages()); m.load(v); ref.push_back(m);
  }
  struct S { int d; Model m; };
  auto take = [&](S& s, int d) { for (size_t k = 0; k < s.m.s.size(); ++k) { Model::Sec z = ref[d].s[k]; memcpy(z.z, s.m.s[k].z, sizeof z.z); s.m.s[k] = z; } s.d = d; };
  Arena a(sizeof(F)), b(sizeof(F)), o(sizeof(F));
  std::vector<int> run; bool stop = false;
  auto play = [&](bool designed) {
    Arena *ca = &a, *cb = &b;
    memset(ca->mem, 0xA5, ca->n); memset(o.mem, 0x5A, o.n);
    F* f = new (ca->mem) F; F* other = new (o.mem) F;
    S m = {0, ref[0]}, om = {0, ref[0]}; m.m.reset(); om.m.reset();
    std::string err; double big = 1;
    auto feed = [&](F& g, S& s, double x, const char* who) { double y = g.filter(x), w = s.m.step(x); big = std::max(big, std::fabs(w)); R.evals++; R.outcome(fnv(&y, 8)); if (err.empty() && !near(y, w, 1e-9, 1e-9 * big)) err = std::string("output of ") + who + " is " + num(y) + " instead of " + num(w); };
    auto look = [&](F& g, S& s, const char* who) { if (!err.empty()) return; std::vector<double> v = face(g); int k = firstDiff(v, want[s.d], 1e-12, 1e-13); R.evals++; if (k >= 0) err = fmt("%s is not the filter designed last: entry %d of coefficients, response and report is ", who, k) + (k < (int) v.size() ? num(v[k]) : "missing") + (k < (int) want[s.d].size() ? " instead of " + num(want[s.d][k]) : std::string()); };
    other->make(designs[1]); take(om, 2); feed(*other, om, 1, "the other");
    if (designed) { f->make(designs[0]); take(m, 1); feed(*f, m, 1, "f"); }
    for (size_t i = 0; i < run.size() && err.empty(); ++i) {
      int x = run[i]; R.transitions++;
      if (x < ND) {
        bool ok = true;
        try { f->make(designs[x]); } catch (const std::invalid_argument&) { ok = false; }
        if (ok != designs[x].good) { err = std::string("the design ") + designs[x].n + (ok ? " is accepted" : " is rejected"); break; }
        if (ok) take(m, x + 1);
      } else switch (x) {
      case RESET: f->reset(); m.m.reset(); break;
      case ONE: feed(*f, m, 1, "f"); break;
      case MIX: for (double d : {-0.5, 0.0, 2.0}) feed(*f, m, d, "f"); break;
      case COPY: case MOVE: {
        memset(cb->mem, 0x33, cb->n);
        F* g = x == COPY ? new (cb->mem) F(*f) : new (cb->mem) F(std::move(*f));
        if (x == COPY) { S s = m; feed(*f, s, -1, "the original after its copy"); f->make(designs[2]); }
        f->~F(); memset(ca->mem, 0xCC, ca->n); f = g; std::swap(ca, cb); break; }
      case ASSIGN: *f = *other; m = om; m.m.reset(); break;
      case MASSIGN: { F t2(*other); *f = std::move(t2); m = om; m.m.reset(); break; }
      case SELF: { F& g = *f; *f = g; m.m.reset(); break; }
      case GIVE: *other = *f; om = m; om.m.reset(); feed(*other, om, 1, "the target of the assignment"); break;
      case SWAP: std::swap(*f, *other); std::swap(m, om); m.m.reset(); om.m.reset(); break;
      default: look(*f, m, "f");
      }
    }
    look(*f, m, "f"); look(*other, om, "the other filter");
    for (double d : {1.0, 0.0, 0.0}) { feed(*f, m, d, "f"); feed(*other, om, d, "the other filter"); }
    f->~F(); other->~F();
    R.states++; R.traces++;
    if (!err.empty()) {
      std::string s = "// F: " + name + "\nF f, other; other.make(" + designs[1].n + "); other.filter(1.0);\n" + (designed ? std::string("f.make(") + designs[0].n + "); f.filter(1.0);\n" : "");
      for (int x : run) s += (x < ND ? std::string("try { f.make(") + designs[x].n + "); } catch (std::invalid_argument&) {}" : std::string(text[x - ND])) + "\n";
      R.fail(name + ": " + err, s); stop = true;
    }
  };
  std::function<void()> rec = [&]() {
    if ((int) run.size() == depth) { play(false); if (!stop) play(true); return; }
    for (int x = 0; x < NOP && !stop; ++x) { if (run.size() == 1 && !R.mine()) continue; run.push_back(x); if (run.size() == 2) R.cur(name + fmt(" operations %d %d", run[0], run[1])); rec(); run.pop_back(); }
  };
  rec();
  R.sample(name + fmt(": all sequences of %d out of %d operations", depth, (int) NOP));
}
template <class S> static void all(Report& R, const char* sn, Topo t) {
  partB<Iir::PoleFilter<LPB, S, 5>>(R, std::string("PoleFilter<own low pass,") + sn + ",5>", t, 1);
  partB<Iir::PoleFilter<HPB, S, 6>>(R, std::string("PoleFilter<own high pass,") + sn + ",6>", t, 2);
  partB<Iir::PoleFilter<BPB, S, 5, 10>>(R, std::string("PoleFilter<own band pass,") + sn + ",5,10>", t, 0);
  partB<Iir::PoleFilter<BSB, S, 6, 13>>(R, std::string("PoleFilter<own band stop,") + sn + ",6,13>", t, 0);
}
int main(int argc, char** argv) {
  Report R(argc, argv);
  partA(R);
  all<Iir::DirectFormI>(R, "DirectFormI", DF1);
  all<Iir::DirectFormII>(R, "DirectFormII", DF2);
  all<Iir::TransposedDirectFormII>(R, "TransposedDirectFormII", TDF2);
  return R.finish();
}
