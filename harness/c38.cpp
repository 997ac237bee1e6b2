// C38: the filters run with a state class of the user: every sample visits each
// section in use exactly once and in order, with the coefficients of the section
// and the output of the one before; states are constructed, copied, assigned,
// reset and destroyed as C++ objects and live exactly as long as the filter.
// All operation sequences up to a depth over every class and five kinds of
// state classes, each call compared with a model which holds, per section, all a
// state should have seen.
#include "c38.hpp"
#include "model.hpp"
#include "reg_sos.cpp"
using namespace mc;
namespace mc {
std::vector<Event> g_log; std::string g_bad; long g_alive = 0; int g_fuse = -1;
template <int N, class S> struct NcSos {
  typedef Iir::Custom::SOSCascade<N, S> F;
  static void call(F& f, int, const double* p) { double c[N][6]; for (int i = 0; i < N; ++i) for (int j = 0; j < 6; ++j) c[i][j] = p[6 * i + j]; f.setup(c); }
  static std::vector<Iir::PoleZeroPair> pz(F& f) { std::vector<Iir::PoleZeroPair> v; for (int i = 0; i < N; ++i) v.push_back(f.getCascadeStorage().stageArray[i].getPoleZeros()[0]); return v; }
  static int num(F&) { return N; }
};
template <class W, int N> static void sos(URegistry& r, const char* sn, bool copyable) {
  UEntry u; Entry& e = u.e;
  e.meta.fam = SOS; e.meta.kind = K_SOS; e.meta.topo = DF2; e.meta.cap = N; e.meta.nfreq = 0; e.meta.ndef = 0;
  e.meta.name = "Custom::SOSCascade<" + std::to_string(N) + "," + sn + ">";
  e.make = &makeW<W>; e.size = sizeof(W); u.copyable = copyable; u.keeps = true;
  r.push_back(u);
}
}
static bool same(const Coef& a, const Coef& b) { return a == b || (near(a.a0, b.a0) && near(a.a1, b.a1) && near(a.a2, b.a2) && near(a.b0, b.b0) && near(a.b1, b.b1) && near(a.b2, b.b2)); }
static const uint64_t FRESH = Work().id();

enum { X_SAMPLE, X_FLOAT, X_INT, X_SHORT, X_SETUP, X_RESET, X_QUERY, X_COPY, X_COPYFORM, X_ASSIGN, X_SELF, X_GIVE, X_BOMB };
struct Act { int t; Op o; double x; int k; std::string text; };
// what the states of a filter should have seen, in section order
struct Seen { std::vector<uint64_t> s; explicit Seen(int n = 0) : s(n, FRESH) {} };

struct Run {
  Report& R; const UEntry& u; Arena a, b, c; std::string err; uint64_t h = 0;
  Run(Report& r, const UEntry& e) : R(r), u(e), a(e.e.size), b(e.e.size), c(e.e.size) {}
  // one sample, all checks
  void sample(IFilter& f, Seen& m, const Act& x) {
    const int n = f.numStages(), mx = f.maxStages();
    std::vector<Coef> want;
    for (int i = 0; i < mx; ++i) want.push_back(f.stage(i));
    g_log.clear();
    double y = 0, in = x.x; bool threw = false, integral = false, single = false;
    if (x.t == X_BOMB) g_fuse = x.k;
    try {
      switch (x.t) {
      case X_FLOAT: in = (float) x.x; single = true; y = f.filterF((float) x.x); break;
      case X_INT: in = (int) x.x; integral = true; y = f.filterI((int) x.x); break;
      case X_SHORT: in = (short) x.x; integral = true; y = f.filterS((short) x.x); break;
      default: y = f.filter(x.x);
      }
    } catch (const Bomb&) { threw = true; }
    const bool left = x.t == X_BOMB && g_fuse >= 0;
    g_fuse = -1;
    R.evals++;
    if (x.t == X_BOMB && !threw && !left) { err = "an exception thrown by a state did not reach the caller"; return; }
    if (!threw && (int) g_log.size() < n) { err = fmt("%zu sections were run for one sample instead of %d", g_log.size(), n); return; }
    if ((int) g_log.size() > mx) { err = fmt("states were called %zu times for one sample", g_log.size()); return; }
    double prev = in;
    for (size_t i = 0; i < g_log.size(); ++i) {
      const Event& e = g_log[i];
      if ((int) i >= n) { // sections which are not in use
        if (!e.ident || e.in != e.out) { err = fmt("section %zu is not in use and was run with coefficients", i); return; }
      } else if (!same(e.c, want[i])) { err = fmt("section %zu was run with other coefficients than its own (b0 %.17g instead of %.17g)", i, e.c.b0, want[i].b0); return; }
      if (!(e.in == prev)) { err = fmt("section %zu got ", i) + num(e.in) + " instead of " + num(prev); return; }
      if (e.pre != m.s[i]) { err = fmt("the state of section %zu is not what this section left behind", i); return; }
      m.s[i] = e.post; prev = e.out;
    }
    if (threw) return;
    double w = integral ? (double) (long long) prev : single ? (double) (float) prev : prev;
    if (!(y == w)) { err = "filter returned " + num(y) + " instead of the last section's output " + num(w); return; }
    h = fnv(&y, 8, h + 1);
  }
  // false: stop this history
  bool play(const std::vector<Act>& al, const std::vector<int>& seq, const Act& start, bool otherFirst) {
    err.clear(); g_bad.clear(); h = 0;
    if (g_alive) { err = "states are alive before the first filter"; return false; }
    Arena *cur = &a, *nxt = &b;
    cur->fresh(u.e, 0xA5);
    const long per = g_alive;
    Seen m(cur->f->maxStages()), om(cur->f->maxStages());
    IFilter* other = nullptr;
    auto getOther = [&]() { if (other) return; c.fresh(u.e, 0x5A); other = c.f; Op o = al[1].o; apply(*other, o); Act s = {X_SAMPLE, Op(), 0.5, 0, ""}; sample(*other, om, s); };
    if (otherFirst) getOther();
    apply(*cur->f, start.o);
    for (size_t i = 0; i < seq.size() && err.empty(); ++i) {
      const Act& x = al[seq[i]];
      IFilter& f = *cur->f;
      g_log.clear(); R.transitions++;
      switch (x.t) {
      case X_SETUP: case X_QUERY: apply(f, x.o); break;
      case X_RESET: f.reset(); m = Seen(f.maxStages()); break;
      case X_COPY: case X_COPYFORM: {
        nxt->drop(); memset(nxt->mem, 0x33, nxt->n);
        nxt->f = x.t == X_COPY ? f.clone(nxt->mem) : f.cloneBy(x.k, nxt->mem);
        if (!(x.t == X_COPYFORM && x.k == BY_MOVE)) { Seen o2 = m; Act s = {X_SAMPLE, Op(), -1, 0, ""}; sample(f, o2, s); if (!err.empty()) err = "the original after its copy: " + err; }
        cur->drop(); memset(cur->mem, 0xCC, cur->n); std::swap(cur, nxt); break; }
      case X_ASSIGN: getOther(); f.assign(*other); m = u.keeps ? om : Seen(f.maxStages()); break;
      case X_GIVE: { getOther(); other->assign(f); om = u.keeps ? m : Seen(f.maxStages()); Act s = {X_SAMPLE, Op(), 2, 0, ""}; sample(*other, om, s); if (!err.empty()) err = "the target of the assignment: " + err; break; }
      case X_SELF: f.assign(f); if (!u.keeps) m = Seen(f.maxStages()); break;
      default: sample(f, m, x);
      }
      if (x.t >= X_SETUP && x.t <= X_SELF && x.t != X_COPY && x.t != X_COPYFORM && x.t != X_ASSIGN && !g_log.empty() && err.empty()) err = "the states were fed by a call which filters nothing";
      if (err.empty() && !g_bad.empty()) err = g_bad;
      if (err.empty() && per && g_alive != per * (other ? 2 : 1)) err = fmt("%ld states exist instead of %ld", g_alive, per * (other ? 2 : 1));
    }
    for (int i = 0; i < 2 && err.empty(); ++i) { Act s = {X_SAMPLE, Op(), 1.0 - i, 0, ""}; sample(*cur->f, m, s); if (other && err.empty()) sample(*other, om, s); }
    a.drop(); b.drop(); c.drop();
    if (err.empty() && !g_bad.empty()) err = g_bad;
    if (err.empty() && g_alive) err = fmt("%ld states outlive their filter", g_alive);
    R.traces++; R.states++;
    R.outcome(h);
    return err.empty();
  }
};

int main(int argc, char** argv) {
  Report R(argc, argv);
  URegistry reg;
  userButter(reg); userCheb1(reg); userCheb2(reg);
  sos<SosW<3, Plain>, 3>(reg, "Plain", true); sos<SosW<1, Owning>, 1>(reg, "Owning", true); sos<SosW<2, Owning>, 2>(reg, "Owning", true);
  sos<SosW<2, Aligned>, 2>(reg, "Aligned", true); sos<SosW<4, Meter>, 4>(reg, "Meter", true);
  sos<NcW<Iir::Custom::SOSCascade<2, Fixed>, NcSos<2, Fixed>>, 2>(reg, "Fixed", false);
  const int depth = R.thorough ? 4 : 3;
  for (UEntry& u : reg) {
    const Meta& m = u.e.meta;
    std::vector<Act> al;
    auto add = [&](int t, Op o, double x, int k, std::string s) { Act q; q.t = t; q.o = o; q.x = x; q.k = k; q.text = s; al.push_back(q); };
    std::vector<Op> lg = legal(m), il = illegal(m);
    Op low = lg[0]; if (m.pole()) low.order = m.cap > 2 ? m.cap - 2 : 1;
    Op o2 = lg[lg.size() / 2], one = lg.back(), odd = lg[0]; if (m.pole()) { o2.order = m.cap; one.order = 1; odd.order = m.cap > 1 ? m.cap - 1 : 1; }
    auto setup = [&](const Op& o) { add(X_SETUP, o, 0, 0, "try { " + cxx(o) + " } catch (std::invalid_argument&) {}"); };
    setup(lg[0]); setup(o2); setup(low);
    if (m.cap > 2 && m.pole()) { setup(one); setup(odd); }
    { std::vector<Op> sp = specials(m); if (m.fam == SOS) { for (const Op& o : sp) setup(o); } else for (const Op& o : sp) if (m.shelf() && m.fam == BUTTER && (o.p[m.nfreq] == 0)) { setup(o); break; } }
    setup(il[0]); setup(il[il.size() / 2]);
    add(X_SAMPLE, Op(), 1, 0, "f.filter(1.0);"); add(X_SAMPLE, Op(), -0.3, 0, "f.filter(-0.3);");
    add(X_SAMPLE, Op(), 1e-300, 0, "f.filter(1e-300);");
    add(X_FLOAT, Op(), 0.1, 0, "f.filter(0.1f);"); add(X_INT, Op(), 7, 0, "f.filter(7);"); add(X_SHORT, Op(), -5, 0, "f.filter((short) -5);");
    add(X_RESET, opT(Op::RESET), 0, 0, "f.reset();"); add(X_QUERY, opT(Op::QUERY), 0, 0, "/* response, poles/zeros, coefficients */");
    for (int k = 0; k < std::min(3, (m.cap + 1) / 2 + (m.band() || m.fam == SOS)); ++k) add(X_BOMB, Op(), 3, k, fmt("try { f.filter(3.0); /* the state of section %d throws */ } catch (...) {}", k));
    if (u.copyable) {
      add(X_COPY, Op(), 0, 0, "{ F* g = new F(f); f.filter(-1.0); /* f is destroyed, *g goes on */ }");
      for (int k = 0; k < NBY; ++k) if (k != BY_CHAIN) add(X_COPYFORM, Op(), 0, k, std::string("/* f goes on as b */ ") + BYTEXT[k]);
      add(X_ASSIGN, Op(), 0, 0, "f = other;"); add(X_SELF, Op(), 0, 0, "f = f;"); add(X_GIVE, Op(), 0, 0, "other = f; other.filter(2.0);");
    }
    Run run(R, u);
    std::vector<int> h;
    bool stop = false;
    std::function<void()> rec = [&]() {
      if ((int) h.size() == depth) {
        for (int v = 0; v < 2 && !stop; ++v) { // without and with a sample before the history
          std::vector<int> s;
          if (v) for (size_t i = 0; i < al.size(); ++i) if (al[i].t == X_SAMPLE) { s.push_back(i); break; }
          s.insert(s.end(), h.begin(), h.end());
          if (run.play(al, s, al[v], v)) continue;
          std::string t = "// the state class notes what it is given; F is Iir::" + m.name + "\nF f; " + (v ? "F other; " : "") + al[v].text + "\n";
          for (int i : s) t += al[i].text + "\n";
          R.fail(m.name + ": " + run.err, t);
          run.a.drop(); run.b.drop(); run.c.drop(); g_alive = 0; stop = true;
        }
        return;
      }
      for (int i = 0; i < (int) al.size() && !stop; ++i) {
        if (h.size() == 1 && !R.mine()) continue;
        h.push_back(i);
        if (h.size() == 2) R.cur(m.name + ": " + al[h[0]].text + " " + al[h[1]].text);
        rec(); h.pop_back();
      }
    };
    rec();
    R.sample(m.name + fmt(": %zu operations, all sequences of length %d, e.g. ", al.size(), depth) + al[al.size() - 1].text + " " + al[2].text);
  }
  // one set of coefficients, several states: the sections and cookbook filters with states of their own
  Registry rbj; regRbj(rbj);
  R.counts["entries"] = reg.size() + rbj.size();
  {
    struct Q { const char* n; std::function<void(Iir::Biquad&)> f; };
    std::vector<Q> cfg = {
      {"q.setCoefficients(1, -0.5, 0.25, 0.5, 1, 0.5);", [](Iir::Biquad& q) { q.setCoefficients(1, -0.5, 0.25, 0.5, 1, 0.5); }},
      {"q.setCoefficients(2, 1, 0.5, 1, -2, 1);", [](Iir::Biquad& q) { q.setCoefficients(2, 1, 0.5, 1, -2, 1); }},
      {"q.setOnePole(0.5, -1);", [](Iir::Biquad& q) { q.setOnePole(0.5, -1.0); }},
      {"q.setIdentity();", [](Iir::Biquad& q) { q.setIdentity(); }},
      {"q.applyScale(-0.5);", [](Iir::Biquad& q) { q.applyScale(-0.5); }},
      {"try { q.setCoefficients(NAN, 0, 0, 1, 0, 0); } catch (...) {}", [](Iir::Biquad& q) { try { q.setCoefficients(QNAN, 0, 0, 1, 0, 0); } catch (const std::invalid_argument&) {} }}};
    enum { KINDS = 3 }; // plain section, RBJ low pass, one pole
    const int nst = 6, nact = (int) cfg.size() + nst + 2, d = R.thorough ? 6 : 5;
    for (int kind = 0; kind < KINDS; ++kind) {
      std::vector<int> h;
      std::function<void()> rec = [&]() {
        if ((int) h.size() == d) {
          Iir::Biquad pl; Iir::RBJ::LowPass rl; Iir::Custom::OnePole op;
          Iir::Biquad& q = kind == 0 ? pl : kind == 1 ? (Iir::Biquad&) rl : (Iir::Biquad&) op;
          Plain p[2]; Owning ow; Meter me; Iir::DirectFormII d2[1]; Iir::TransposedDirectFormII td;
          Model md2(DF2, 1), mtd(TDF2, 1), own(DF1, 1);
          Seen w(4);
          std::string err;
          auto load = [&](Model& mo) { Coef c = coef(q); Model::Sec& s = mo.s[0]; s.b0 = c.b0 / c.a0; s.b1 = c.b1 / c.a0; s.b2 = c.b2 / c.a0; s.a1 = c.a1 / c.a0; s.a2 = c.a2 / c.a0; };
          if (kind == 1) rl.setupN(0.2);
          g_bad.clear();
          for (int i = 0; i <= d && err.empty(); ++i) {
            int x = i < d ? h[i] : (int) cfg.size(); R.transitions++;
            g_log.clear();
            if (x < (int) cfg.size()) { cfg[x].f(q); if (!g_log.empty()) err = "setting coefficients fed a state"; continue; }
            x -= cfg.size();
            double in = 1.0 - 0.75 * i, y = 0;
            if (x < 4) {
              y = x == 0 ? q.filter(in, p[0]) : x == 1 ? q.filter(in, p[1]) : x == 2 ? q.filter(in, ow) : q.filter(in, me);
              R.evals++;
              if (g_log.size() != 1) err = fmt("the state was called %zu times", g_log.size());
              else if (g_log[0].in != in || !same(g_log[0].c, coef(q)) || y != g_log[0].out) err = "the state was not called with the sample and the section, or its output was not returned";
              else if (g_log[0].pre != w.s[x]) err = "the state changed between its calls";
              else w.s[x] = g_log[0].post;
            } else if (x < 6) {
              Model& mo = x == 4 ? md2 : mtd; load(mo);
              y = x == 4 ? q.filter(in, d2[0]) : q.filter(in, td);
              double z = mo.step(in);
              R.evals++;
              if (!near(y, z, 1e-11, 1e-12)) err = "output " + num(y) + " instead of " + num(z) + " with a state of the library";
            } else if (kind != 1) { if (x == 6) { p[0].reset(); w.s[0] = FRESH; } else { ow.reset(); w.s[2] = FRESH; } }
            else if (x == 6) { load(own); y = rl.filter(in); double z = own.step(in); R.evals++; if (!near(y, z, 1e-11, 1e-12)) err = "the filter's own output is " + num(y) + " instead of " + num(z) + " while others use its coefficients"; }
            else { rl.reset(); own.reset(); }
            if (err.empty() && !g_bad.empty()) err = g_bad;
            R.outcome(fnv(&y, 8));
          }
          R.traces++; R.states++;
          if (!err.empty()) {
            std::string t = std::string(kind == 0 ? "Iir::Biquad q;" : kind == 1 ? "Iir::RBJ::LowPass r; Iir::Biquad& q = r; r.setupN(0.2);" : "Iir::Custom::OnePole o; Iir::Biquad& q = o;") + " UserState s0, s1, s2, s3; Iir::DirectFormII s4; Iir::TransposedDirectFormII s5;\n";
            for (int i = 0; i < d; ++i) {
              int x = h[i] - (int) cfg.size();
              t += (x < 0 ? std::string(cfg[h[i]].n) : x < 6 ? fmt("q.filter(%g, s%d);", 1.0 - 0.75 * i, x) : kind == 1 ? (x == 6 ? fmt("r.filter(%g);", 1.0 - 0.75 * i) : std::string("r.reset();")) : fmt("s%d.reset();", x == 6 ? 0 : 2)) + "\n";
            }
            R.fail("a section with a state of the user: " + err, t);
          }
          return;
        }
        for (int i = 0; i < nact; ++i) {
          if (h.size() == 1 && !R.mine()) continue;
          h.push_back(i);
          if (h.size() == 2) R.cur(fmt("sections with states of the user, kind %d, actions %d %d", kind, h[0], h[1]));
          rec(); h.pop_back();
        }
      };
      rec();
    }
  }
  return R.finish();
}
