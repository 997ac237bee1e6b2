// Shared interface of the explorers in this directory: a type-erased view of
// every user-facing filter class of iir1, driven only through its public API.
#pragma once
#include "Iir.h"
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <limits>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace mc {

typedef std::complex<double> cplx;

enum Family { BUTTER, CHEB1, CHEB2, RBJF, SOS };
enum Kind { LP, HP, BP, BS, LS, HS, BSH,                       // pole filters
            R_LP, R_HP, R_BP1, R_BP2, R_BS, R_NOTCH, R_LS, R_HS, R_BSH, R_AP, // RBJ
            K_SOS };
enum Topo { DF1, DF2, TDF2 };
enum Role { FREQ, WIDTH, GAIN, RIPPLE, ATT, QF, BW, SLOPE };

struct Coef {
  double a0, a1, a2, b0, b1, b2;
  bool operator==(const Coef& o) const {
    return a0 == o.a0 && a1 == o.a1 && a2 == o.a2 && b0 == o.b0 && b1 == o.b1 && b2 == o.b2;
  }
};
inline Coef coef(const Iir::Biquad& q) {
  Coef c = {q.getA0(), q.getA1(), q.getA2(), q.getB0(), q.getB1(), q.getB2()};
  return c;
}

struct Meta {
  Family fam; Kind kind; Topo topo; int cap; // cap: template order (RBJ: 2)
  std::vector<Role> roles;                   // parameters of setupN, in order
  int nfreq;                                 // leading parameters that setup() takes in Hz
  int ndef;                                  // trailing parameters with a default value
  std::string name;
  bool pole() const { return fam <= CHEB2; }
  bool band() const { return kind == BP || kind == BS || kind == BSH; }
  bool shelf() const { return kind == LS || kind == HS || kind == BSH; }
};

static const int NO_ORDER = -100000; // use the overload without order argument

#ifdef XTYPES
// a number class of a user: fixed point with 16 binary places
struct Fixed16 {
  long long v;
  explicit Fixed16(double d) : v((long long) (d * 65536)) {}
  operator double() const { return (double) v / 65536; }
};
template <class F> long double filterAs(F& f, int type, long double x) {
  switch (type) {
  case 0: return f.filter((signed char) x);
  case 1: return f.filter((unsigned char) x);
  case 2: return f.filter((char) x);
  case 3: return f.filter((unsigned short) x);
  case 4: return f.filter((unsigned) x);
  case 5: return f.filter((unsigned long long) x);
  case 6: return f.filter((long) x);
  case 7: return f.filter((wchar_t) x);
  case 9: return (long double) f.filter((__int128) x);
  case 10: return (double) f.filter(Fixed16((double) x));
  default: return f.filter(x);
  }
}
#define FILTERX long double filterX(int type, long double x) override { return filterAs(f, type, x); }
#else
#define FILTERX
#endif

struct IFilter {
  virtual ~IFilter() {}
  // np < 0: all parameters, otherwise only the first np (default arguments)
  virtual void setupN(int order, const double* p, int np = -1) = 0;
  virtual void setup(int order, double fs, const double* p, int np = -1) = 0;
  virtual double filter(double x) = 0;
  virtual float filterF(float x) = 0;
  virtual int filterI(int x) = 0;
  virtual short filterS(short x) = 0;
  virtual long long filterL(long long x) = 0;
#ifdef XTYPES
  virtual long double filterX(int type, long double x) = 0; // further sample types
#endif
  virtual void reset() = 0;
  virtual cplx response(double f) = 0;
  virtual std::vector<Iir::PoleZeroPair> poleZeros() = 0;        // as the user calls it
  virtual std::vector<Iir::PoleZeroPair> poleZerosCascade() = 0; // recovered from the coefficients
  virtual int numStages() = 0;       // stages in use
  virtual Coef used(int i) = 0;      // operator[] (throws outside of the stages in use)
  virtual int maxStages() = 0;       // stages reserved
  virtual Coef stage(int i) = 0;     // coefficients of any reserved stage
  virtual Iir::Biquad* raw(int) { return nullptr; } // the stage itself, as the user can reach it
  virtual IFilter* clone(void* where = nullptr) const = 0; // copy construction
  virtual void assign(const IFilter& o) = 0;               // copy assignment
  // the same in the other forms in which a value travels through a program
  virtual IFilter* cloneBy(int form, void* where) = 0;
  virtual void assignBy(int form, IFilter& o) = 0;
  virtual size_t size() const = 0;
};

enum { BY_MOVE, BY_VALUE, BY_VECTOR, BY_CAPTURE, BY_CHAIN, NBY };
static const char* const BYTEXT[] = {"F b(std::move(a)); // a is set up anew before it is used", "F b = [](F x) { return x; }(a);", "std::vector<F> v(1, a); for (int i = 0; i < 9; ++i) v.push_back(F()); v.reserve(100); F b(v[0]);",
  "auto g = [a]() { return a; }; std::function<F()> h = g; F b = h();", "F* p = new F(a); for (int i = 0; i < 300; ++i) { F* q = new F(*p); delete p; p = q; } F b(*p);"};
enum { AS_MOVE, AS_SWAP, AS_CHAIN, AS_STRUCT, NAS };
static const char* const ASTEXT[] = {"b = std::move(a); // a is set up anew before it is used", "std::swap(a, b);", "F x[2]; x[0] = a; for (int i = 0; i < 300; ++i) x[(i + 1) % 2] = x[i % 2]; b = x[0];", "struct S { int i; F f; } x, y; x.f = a; y = x; b = y.f;"};

template <class W, class F> IFilter* byForm(int form, F& f, void* w) {
  switch (form) {
  case BY_MOVE: return new (w) W(std::move(f));
  case BY_VALUE: { struct L { static F pass(F x) { return x; } }; return new (w) W(L::pass(f)); }
  case BY_VECTOR: { std::vector<F> v(1, f); F e; for (int i = 0; i < 9; ++i) v.push_back(e); v.reserve(100); return new (w) W(v[0]); }
  case BY_CAPTURE: { auto g = [f]() { return f; }; std::function<F()> h = g; std::function<F()> k = h; h = nullptr; return new (w) W(k()); }
  default: { std::unique_ptr<F> p(new F(f)); for (int i = 0; i < 300; ++i) p.reset(new F(*p)); return new (w) W(*p); }
  }
}
template <class F> void asForm(int form, F& b, F& a) {
  switch (form) {
  case AS_MOVE: b = std::move(a); break;
  case AS_SWAP: std::swap(a, b); break;
  case AS_CHAIN: { std::unique_ptr<F> x[2]; for (auto& q : x) q.reset(new F); *x[0] = a; for (int i = 0; i < 300; ++i) *x[(i + 1) % 2] = *x[i % 2]; b = *x[0]; break; }
  default: { struct S { int i; F f; } x, y; x.i = y.i = 0; x.f = a; y = x; b = y.f; }
  }
}

struct Entry {
  Meta meta;
  IFilter* (*make)(void* where); // where == nullptr: heap
  size_t size;
};
typedef std::vector<Entry> Registry;

// ---------------------------------------------------------------- wrappers
template <class W> IFilter* makeW(void* where) { return where ? new (where) W() : new W(); }

template <class F, int NP> struct Call;
template <class F> struct Call<F, 1> {
  static void n(F& f, const double* p) { f.setupN(p[0]); }
  static void no(F& f, int o, const double* p) { f.setupN(o, p[0]); }
  static void s(F& f, double fs, const double* p) { f.setup(fs, p[0]); }
  static void so(F& f, int o, double fs, const double* p) { f.setup(o, fs, p[0]); }
};
template <class F> struct Call<F, 2> {
  static void n(F& f, const double* p) { f.setupN(p[0], p[1]); }
  static void no(F& f, int o, const double* p) { f.setupN(o, p[0], p[1]); }
  static void s(F& f, double fs, const double* p) { f.setup(fs, p[0], p[1]); }
  static void so(F& f, int o, double fs, const double* p) { f.setup(o, fs, p[0], p[1]); }
};
template <class F> struct Call<F, 3> {
  static void n(F& f, const double* p) { f.setupN(p[0], p[1], p[2]); }
  static void no(F& f, int o, const double* p) { f.setupN(o, p[0], p[1], p[2]); }
  static void s(F& f, double fs, const double* p) { f.setup(fs, p[0], p[1], p[2]); }
  static void so(F& f, int o, double fs, const double* p) { f.setup(o, fs, p[0], p[1], p[2]); }
};
template <class F> struct Call<F, 4> {
  static void n(F& f, const double* p) { f.setupN(p[0], p[1], p[2], p[3]); }
  static void no(F& f, int o, const double* p) { f.setupN(o, p[0], p[1], p[2], p[3]); }
  static void s(F& f, double fs, const double* p) { f.setup(fs, p[0], p[1], p[2], p[3]); }
  static void so(F& f, int o, double fs, const double* p) { f.setup(o, fs, p[0], p[1], p[2], p[3]); }
};

template <class F, int NP> struct PoleW : IFilter {
  F f;
  PoleW() {}
  explicit PoleW(const F& o) : f(o) {}
  explicit PoleW(F&& o) : f(std::move(o)) {}
  void setupN(int o, const double* p, int) override {
    if (o == NO_ORDER) Call<F, NP>::n(f, p); else Call<F, NP>::no(f, o, p);
  }
  void setup(int o, double fs, const double* p, int) override {
    if (o == NO_ORDER) Call<F, NP>::s(f, fs, p); else Call<F, NP>::so(f, o, fs, p);
  }
  double filter(double x) override { return f.filter(x); }
  float filterF(float x) override { return f.filter(x); }
  int filterI(int x) override { return f.filter(x); }
  short filterS(short x) override { return f.filter(x); }
  long long filterL(long long x) override { return f.filter(x); }
  FILTERX
  void reset() override { f.reset(); }
  cplx response(double fr) override { return f.response(fr); }
  std::vector<Iir::PoleZeroPair> poleZeros() override { return f.getPoleZeros(); }
  std::vector<Iir::PoleZeroPair> poleZerosCascade() override { return f.Iir::Cascade::getPoleZeros(); }
  int numStages() override { return f.getNumStages(); }
  Coef used(int i) override { return coef(f[i]); }
  int maxStages() override { return f.getCascadeStorage().maxStages; }
  Coef stage(int i) override { return coef(f.getCascadeStorage().stageArray[i]); }
  Iir::Biquad* raw(int i) override { return f.getCascadeStorage().stageArray + i; }
  IFilter* clone(void* w) const override { return w ? new (w) PoleW(f) : new PoleW(f); }
  void assign(const IFilter& o) override { f = static_cast<const PoleW&>(o).f; }
  IFilter* cloneBy(int form, void* w) override { return byForm<PoleW>(form, f, w); }
  void assignBy(int form, IFilter& o) override { asForm(form, f, static_cast<PoleW&>(o).f); }
  size_t size() const override { return sizeof(*this); }
};

template <class F> struct RbjCall1 { // (freq, x = default)
  static void n(F& f, const double* p, int np) { if (np == 1) f.setupN(p[0]); else f.setupN(p[0], p[1]); }
  static void s(F& f, double fs, const double* p, int np) { if (np == 1) f.setup(fs, p[0]); else f.setup(fs, p[0], p[1]); }
};
template <class F> struct RbjCall2 { // (freq, x)
  static void n(F& f, const double* p, int) { f.setupN(p[0], p[1]); }
  static void s(F& f, double fs, const double* p, int) { f.setup(fs, p[0], p[1]); }
};
template <class F> struct RbjCall3 { // (freq, gain, slope = default)
  static void n(F& f, const double* p, int np) { if (np == 2) f.setupN(p[0], p[1]); else f.setupN(p[0], p[1], p[2]); }
  static void s(F& f, double fs, const double* p, int np) { if (np == 2) f.setup(fs, p[0], p[1]); else f.setup(fs, p[0], p[1], p[2]); }
};
template <class F> struct RbjCall4 { // (freq, gain, bw)
  static void n(F& f, const double* p, int) { f.setupN(p[0], p[1], p[2]); }
  static void s(F& f, double fs, const double* p, int) { f.setup(fs, p[0], p[1], p[2]); }
};

template <class F, template <class> class C> struct RbjW : IFilter {
  F f;
  RbjW() {}
  explicit RbjW(const F& o) : f(o) {}
  explicit RbjW(F&& o) : f(std::move(o)) {}
  void setupN(int, const double* p, int np) override { C<F>::n(f, p, np); }
  void setup(int, double fs, const double* p, int np) override { C<F>::s(f, fs, p, np); }
  double filter(double x) override { return f.filter(x); }
  float filterF(float x) override { return f.filter(x); }
  int filterI(int x) override { return f.filter(x); }
  short filterS(short x) override { return f.filter(x); }
  long long filterL(long long x) override { return f.filter(x); }
  FILTERX
  void reset() override { f.reset(); }
  cplx response(double fr) override { return f.response(fr); }
  std::vector<Iir::PoleZeroPair> poleZeros() override { return f.getPoleZeros(); }
  std::vector<Iir::PoleZeroPair> poleZerosCascade() override { return f.getPoleZeros(); }
  int numStages() override { return 1; }
  Coef used(int) override { return coef(f); }
  int maxStages() override { return 1; }
  Coef stage(int) override { return coef(f); }
  Iir::Biquad* raw(int) override { return &f; }
  IFilter* clone(void* w) const override { return w ? new (w) RbjW(f) : new RbjW(f); }
  void assign(const IFilter& o) override { f = static_cast<const RbjW&>(o).f; }
  IFilter* cloneBy(int form, void* w) override { return byForm<RbjW>(form, f, w); }
  void assignBy(int form, IFilter& o) override { asForm(form, f, static_cast<RbjW&>(o).f); }
  size_t size() const override { return sizeof(*this); }
};

// registration, one function per family (own translation units)
void regButter(Registry& r);
void regCheb1(Registry& r);
void regCheb2(Registry& r);
void regRbj(Registry& r);
void regSos(Registry& r);

} // namespace mc
