// Included by reg_*.cpp with NS, FAM, FN, FNAME, EXTRA defined.
// CAPS_DF1 / CAPS_DF2 / CAPS_TDF2: X-macro lists of template orders.
#include "iirmc.hpp"
#ifndef CAPS_DF1
#define CAPS_DF1
#endif
#ifndef CAPS_DF2
#define CAPS_DF2 X(4)
#endif
#ifndef CAPS_TDF2
#define CAPS_TDF2
#endif
namespace mc {
namespace {
#ifdef EXTRA
const int NX = 1;
#else
const int NX = 0;
#endif
template <class F, int NP>
void add(Registry& r, Kind k, Topo t, int cap, int nfreq, const char* kn) {
  Entry e;
  e.meta.fam = FAM; e.meta.kind = k; e.meta.topo = t; e.meta.cap = cap; e.meta.nfreq = nfreq; e.meta.ndef = 0;
  e.meta.roles.push_back(FREQ);
  if (nfreq == 2) e.meta.roles.push_back(WIDTH);
  if (k == LS || k == HS || k == BSH) e.meta.roles.push_back(GAIN);
#ifdef EXTRA
  e.meta.roles.push_back(EXTRA);
#endif
  static const char* tn[] = {"DirectFormI", "DirectFormII", "TransposedDirectFormII"};
  e.meta.name = std::string(FNAME) + "::" + kn + "<" + std::to_string(cap) + "," + tn[t] + ">";
  e.make = &makeW<PoleW<F, NP>>;
  e.size = sizeof(PoleW<F, NP>);
  r.push_back(e);
}
template <int N, class S> void addAll(Registry& r, Topo t) {
  using namespace Iir::NS;
  add<LowPass<N, S>, 1 + NX>(r, LP, t, N, 1, "LowPass");
  add<HighPass<N, S>, 1 + NX>(r, HP, t, N, 1, "HighPass");
  add<BandPass<N, S>, 2 + NX>(r, BP, t, N, 2, "BandPass");
  add<BandStop<N, S>, 2 + NX>(r, BS, t, N, 2, "BandStop");
  add<LowShelf<N, S>, 2 + NX>(r, LS, t, N, 1, "LowShelf");
  add<HighShelf<N, S>, 2 + NX>(r, HS, t, N, 1, "HighShelf");
  add<BandShelf<N, S>, 3 + NX>(r, BSH, t, N, 2, "BandShelf");
}
}
void FN(Registry& r) {
#define X(n) addAll<n, Iir::DirectFormI>(r, DF1);
  CAPS_DF1
#undef X
#define X(n) addAll<n, Iir::DirectFormII>(r, DF2);
  CAPS_DF2
#undef X
#define X(n) addAll<n, Iir::TransposedDirectFormII>(r, TDF2);
  CAPS_TDF2
#undef X
  (void) r;
}
}
