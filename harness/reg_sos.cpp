// Custom::SOSCascade and the Custom one/two pole sections behind IFilter.
// setupN takes the 6*N coefficients (per section b0 b1 b2 a0 a1 a2).
#include "iirmc.hpp"
namespace mc {
namespace {
template <int N, class S> struct SosW : IFilter {
  typedef Iir::Custom::SOSCascade<N, S> F;
  F f;
  SosW() {}
  explicit SosW(const F& o) : f(o) {}
  explicit SosW(F&& o) : f(std::move(o)) {}
  void setupN(int, const double* p, int) override {
    double c[N][6];
    for (int i = 0; i < N; ++i) for (int j = 0; j < 6; ++j) c[i][j] = p[6 * i + j];
    f.setup(c);
  }
  void setup(int o, double, const double* p, int np) override { setupN(o, p, np); }
  double filter(double x) override { return f.filter(x); }
  float filterF(float x) override { return f.filter(x); }
  int filterI(int x) override { return f.filter(x); }
  short filterS(short x) override { return f.filter(x); }
  long long filterL(long long x) override { return f.filter(x); }
  FILTERX
  void reset() override { f.reset(); }
  cplx response(double fr) override { // the class has none: product of its sections
    cplx r(1);
    for (int i = 0; i < N; ++i) r *= f.getCascadeStorage().stageArray[i].response(fr);
    return r;
  }
  std::vector<Iir::PoleZeroPair> poleZeros() override {
    std::vector<Iir::PoleZeroPair> v;
    for (int i = 0; i < N; ++i) v.push_back(f.getCascadeStorage().stageArray[i].getPoleZeros()[0]);
    return v;
  }
  std::vector<Iir::PoleZeroPair> poleZerosCascade() override { return poleZeros(); }
  int numStages() override { return N; }
  Coef used(int i) override { return coef(f.getCascadeStorage().stageArray[i]); }
  int maxStages() override { return f.getCascadeStorage().maxStages; }
  Coef stage(int i) override { return coef(f.getCascadeStorage().stageArray[i]); }
  Iir::Biquad* raw(int i) override { return f.getCascadeStorage().stageArray + i; }
  IFilter* clone(void* w) const override { return w ? new (w) SosW(f) : new SosW(f); }
  void assign(const IFilter& o) override { f = static_cast<const SosW&>(o).f; }
  IFilter* cloneBy(int form, void* w) override { return byForm<SosW>(form, f, w); }
  void assignBy(int form, IFilter& o) override { asForm(form, f, static_cast<SosW&>(o).f); }
  size_t size() const override { return sizeof(*this); }
};
template <int N, class S> void add(Registry& r, Topo t, const char* sn) {
  Entry e;
  e.meta.fam = SOS; e.meta.kind = K_SOS; e.meta.topo = t; e.meta.cap = N; e.meta.nfreq = 0; e.meta.ndef = 0;
  e.meta.name = "Custom::SOSCascade<" + std::to_string(N) + "," + sn + ">";
  e.make = &makeW<SosW<N, S>>;
  e.size = sizeof(SosW<N, S>);
  r.push_back(e);
}
template <int N> void addN(Registry& r) {
  add<N, Iir::DirectFormI>(r, DF1, "DirectFormI");
  add<N, Iir::DirectFormII>(r, DF2, "DirectFormII");
  add<N, Iir::TransposedDirectFormII>(r, TDF2, "TransposedDirectFormII");
}
}
void regSos(Registry& r) { addN<1>(r); addN<2>(r); addN<3>(r); }
}
