#include "iirmc.hpp"
namespace mc {
namespace {
template <class F, template <class> class C>
void add(Registry& r, Kind k, const char* kn, std::vector<Role> roles, int ndef) {
  Entry e;
  e.meta.fam = RBJF; e.meta.kind = k; e.meta.topo = DF1; e.meta.cap = 2; e.meta.nfreq = 1; e.meta.ndef = ndef;
  e.meta.roles = roles;
  e.meta.name = std::string("RBJ::") + kn;
  e.make = &makeW<RbjW<F, C>>;
  e.size = sizeof(RbjW<F, C>);
  r.push_back(e);
}
}
void regRbj(Registry& r) {
  using namespace Iir::RBJ;
  add<LowPass, RbjCall1>(r, R_LP, "LowPass", {FREQ, QF}, 1);
  add<HighPass, RbjCall1>(r, R_HP, "HighPass", {FREQ, QF}, 1);
  add<BandPass1, RbjCall2>(r, R_BP1, "BandPass1", {FREQ, BW}, 0);
  add<BandPass2, RbjCall2>(r, R_BP2, "BandPass2", {FREQ, BW}, 0);
  add<BandStop, RbjCall2>(r, R_BS, "BandStop", {FREQ, BW}, 0);
  add<IIRNotch, RbjCall1>(r, R_NOTCH, "IIRNotch", {FREQ, QF}, 1);
  add<LowShelf, RbjCall3>(r, R_LS, "LowShelf", {FREQ, GAIN, SLOPE}, 1);
  add<HighShelf, RbjCall3>(r, R_HS, "HighShelf", {FREQ, GAIN, SLOPE}, 1);
  add<BandShelf, RbjCall4>(r, R_BSH, "BandShelf", {FREQ, GAIN, BW}, 0);
  add<AllPass, RbjCall1>(r, R_AP, "AllPass", {FREQ, QF}, 1);
}
}
