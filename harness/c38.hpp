// State classes of a user for C38 and the registration of classes with them.
#pragma once
#include "core.hpp"
#include <type_traits>
namespace mc {
struct Event { double in, out; Coef c; uint64_t pre, post; bool ident; };
struct Bomb { int id; };
extern std::vector<Event> g_log; // calls of filter() of the states since the last clear()
extern std::string g_bad;        // complaint of a state about its treatment
extern long g_alive;             // states which exist
extern int g_fuse;               // >= 0: the call of filter() which throws
static const uint64_t EMPTY = 1469598103934665603ull;

// what every state does: its output depends on everything it has been given
struct Work {
  double u = 0, v = 0; uint64_t n = 0, h = EMPTY;
  void clear() { u = v = 0; n = 0; h = EMPTY; }
  uint64_t id() const { double d[2] = {u, v}; return fnv(d, sizeof d, h ^ n); }
  double run(double in, const Iir::Biquad& s) {
    Event e; e.in = in; e.c = coef(s); e.pre = id();
    e.ident = e.c.b0 == e.c.a0 && e.c.b1 == 0 && e.c.b2 == 0 && e.c.a1 == 0 && e.c.a2 == 0;
    if (!e.ident && g_fuse >= 0 && g_fuse-- == 0) throw Bomb{(int) g_log.size()};
    h = fnv(&in, sizeof in, h); h = fnv(&e.c, sizeof e.c, h); n++;
    e.out = e.ident ? in : std::remainder(s.getB0() * in + s.getB1() * u - s.getA1() * v - s.getA2() * 0.5 + 0.37 * double(n % 5) + s.getB2(), 16);
    v = u; u = std::remainder(in + 0.25 * v, 16);
    e.post = id();
    g_log.push_back(e);
    return e.out;
  }
};
inline void bad(const char* t) { if (g_bad.empty()) g_bad = t; }
// a plain old structure
struct Plain { Work w; void reset() { w.clear(); } double filter(double x, const Iir::Biquad& s) { return w.run(x, s); } };
// owns memory and knows where it lives
struct Owning {
  std::unique_ptr<Work> w; Owning* self;
  Owning() : w(new Work), self(this) { g_alive++; }
  Owning(const Owning& o) : w(new Work(*o.w)), self(this) { g_alive++; o.check(); }
  Owning& operator=(const Owning& o) { check(); o.check(); *w = *o.w; return *this; }
  ~Owning() { check(); self = nullptr; g_alive--; }
  void check() const { if (self != this) bad("a state which owns memory was moved byte by byte, or used before its construction or after its destruction"); }
  void reset() { check(); w->clear(); }
  double filter(const double x, const Iir::Biquad& s) { check(); return w->run(x, s); }
};
// over-aligned, with virtual functions
struct VBase { virtual ~VBase() {} virtual void reset() = 0; virtual double filter(double, const Iir::Biquad&) = 0; };
struct alignas(64) Aligned : VBase {
  char pad[3]; Work w;
  Aligned() { g_alive++; check(); }
  Aligned(const Aligned& o) : VBase(o), w(o.w) { g_alive++; check(); }
  Aligned& operator=(const Aligned&) = default;
  ~Aligned() { g_alive--; }
  void check() const { if ((uintptr_t) this % 64) bad("a state is not aligned as its class demands"); }
  void reset() override { check(); w.clear(); }
  double filter(double x, const Iir::Biquad& s) override { check(); return w.run(x, s); }
};
// cannot be copied
struct Fixed {
  Work w; Fixed* self = this;
  Fixed() { g_alive++; } ~Fixed() { g_alive--; }
  Fixed(const Fixed&) = delete; Fixed& operator=(const Fixed&) = delete;
  void reset() { w.clear(); }
  double filter(double x, const Iir::Biquad& s) { if (self != this) bad("a state which cannot be copied was moved"); return w.run(x, s); }
};
// built on one of the library's states: a meter which looks at its delay lines
struct Meter : Iir::DirectFormI {
  Work w;
  template <class T> T filter(const T in, const Iir::Biquad& s) {
    static_assert(std::is_same<T, double>::value, "sections are fed with doubles");
    double x1 = m_x1, y1 = m_y1;
    double y = Iir::DirectFormI::filter(in, s);
    auto eq = [](double a, double b) { return near(a, b, 1e-14, 0); };
    if (!eq(m_x1, in) || !eq(m_y1, y) || !eq(m_x2, x1) || !eq(m_y2, y1)) bad("the delay lines of a state derived from DirectFormI are not the last inputs and outputs");
    return w.run(in, s);
  }
  void reset() { Iir::DirectFormI::reset(); if (m_x1 || m_x2 || m_y1 || m_y2) bad("DirectFormI::reset() leaves something"); w.clear(); }
};

struct UEntry { Entry e; bool copyable, keeps; }; // keeps: assignment copies the delay lines
typedef std::vector<UEntry> URegistry;

// for states which cannot be copied
template <class F, class C> struct NcW : IFilter {
  F f;
  void setupN(int o, const double* p, int) override { C::call(f, o, p); }
  void setup(int o, double, const double* p, int np) override { setupN(o, p, np); }
  double filter(double x) override { return f.filter(x); }
  float filterF(float x) override { return f.filter(x); }
  int filterI(int x) override { return f.filter(x); }
  short filterS(short x) override { return f.filter(x); }
  long long filterL(long long x) override { return f.filter(x); }
  void reset() override { f.reset(); }
  cplx response(double fr) override { cplx r(1); for (int i = 0; i < maxStages(); ++i) r *= f.getCascadeStorage().stageArray[i].response(fr); return r; }
  std::vector<Iir::PoleZeroPair> poleZeros() override { return C::pz(f); }
  std::vector<Iir::PoleZeroPair> poleZerosCascade() override { return poleZeros(); }
  int numStages() override { return C::num(f); }
  Coef used(int i) override { return stage(i); }
  int maxStages() override { return f.getCascadeStorage().maxStages; }
  Coef stage(int i) override { return coef(f.getCascadeStorage().stageArray[i]); }
  IFilter* clone(void*) const override { return nullptr; }
  void assign(const IFilter&) override {}
  IFilter* cloneBy(int, void*) override { return nullptr; }
  void assignBy(int, IFilter&) override {}
  size_t size() const override { return sizeof(*this); }
};
template <class F, int NP> struct NcPole {
  static void call(F& f, int o, const double* p) { if (o == NO_ORDER) Call<F, NP>::n(f, p); else Call<F, NP>::no(f, o, p); }
  static std::vector<Iir::PoleZeroPair> pz(F& f) { return f.getPoleZeros(); }
  static int num(F& f) { return f.getNumStages(); }
};
void userButter(URegistry& r);
void userCheb1(URegistry& r);
void userCheb2(URegistry& r);
}
