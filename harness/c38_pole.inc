// Included by c38_*.cpp with NS, FAM, FN, FNAME, EXTRA defined.
#include "c38.hpp"
namespace mc {
namespace {
#ifdef EXTRA
const int NX = 1;
#else
const int NX = 0;
#endif
template <class F, int NP, bool COPY> struct Pick { typedef PoleW<F, NP> W; };
template <class F, int NP> struct Pick<F, NP, false> { typedef NcW<F, NcPole<F, NP>> W; };
template <class F, int NP, bool COPY>
void add(URegistry& r, Kind k, int cap, int nfreq, const char* kn, const char* sn) {
  typedef typename Pick<F, NP, COPY>::W W;
  UEntry u; Entry& e = u.e;
  e.meta.fam = FAM; e.meta.kind = k; e.meta.topo = DF2; e.meta.cap = cap; e.meta.nfreq = nfreq; e.meta.ndef = 0;
  e.meta.roles.push_back(FREQ);
  if (nfreq == 2) e.meta.roles.push_back(WIDTH);
  if (k == LS || k == HS || k == BSH) e.meta.roles.push_back(GAIN);
#ifdef EXTRA
  e.meta.roles.push_back(EXTRA);
#endif
  e.meta.name = std::string(FNAME) + "::" + kn + "<" + std::to_string(cap) + "," + sn + ">";
  e.make = &makeW<W>;
  e.size = sizeof(W);
  u.copyable = COPY; u.keeps = false;
  r.push_back(u);
}
template <int N, class S, bool COPY> void addAll(URegistry& r, const char* sn) {
  using namespace Iir::NS;
  add<LowPass<N, S>, 1 + NX, COPY>(r, LP, N, 1, "LowPass", sn);
  add<HighPass<N, S>, 1 + NX, COPY>(r, HP, N, 1, "HighPass", sn);
  add<BandPass<N, S>, 2 + NX, COPY>(r, BP, N, 2, "BandPass", sn);
  add<BandStop<N, S>, 2 + NX, COPY>(r, BS, N, 2, "BandStop", sn);
  add<LowShelf<N, S>, 2 + NX, COPY>(r, LS, N, 1, "LowShelf", sn);
  add<HighShelf<N, S>, 2 + NX, COPY>(r, HS, N, 1, "HighShelf", sn);
  add<BandShelf<N, S>, 3 + NX, COPY>(r, BSH, N, 2, "BandShelf", sn);
}
}
void FN(URegistry& r) {
  addAll<4, Plain, true>(r, "Plain");
  addAll<1, Plain, true>(r, "Plain");
  addAll<3, Owning, true>(r, "Owning");
  addAll<5, Aligned, true>(r, "Aligned");
  addAll<2, Fixed, false>(r, "Fixed");
  addAll<6, Meter, true>(r, "Meter");
}
}
