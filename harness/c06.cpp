// C06: all forms of one setup call are equivalent: setup(fs, F, ..) and
// setupN(F/fs, ..), with and without the explicit default order, with default
// and with explicit default arguments.  Full product of parameters, orders and
// sampling rates; forms also applied one after the other to one object.
#include "core.hpp"
using namespace mc;

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg);
  std::vector<double> rates = {1, 2, 0.125, 100, 250, 360, 1000, 8000, 8192, 44100, 44100.007, 48000, 96000, 192000, 1e6, 5e9 + 1./3};
  if (R.thorough) for (double d : {1e-3, 0.25, 0.5, 3.0, 500.0, 512.0, 11025.0, 16000.0, 22050.0, 32000.0, 88200.0, 176400.0, 1e9}) rates.push_back(d);
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    Arena a(e.size), b(e.size);
    size_t np = m.roles.size();
    std::vector<std::vector<double>> al(np);
    for (size_t i = 0; i < np; ++i) {
      al[i] = valuesFor(m, i, R.thorough || np < 3 || m.cap < 10);
      if (m.roles[i] == FREQ && !m.band()) { al[i].push_back(0.001); al[i].push_back(0.49); }
      if (m.roles[i] == QF) for (double d : {0.1, 30.0}) al[i].push_back(d);
    }
    std::vector<int> os = {NO_ORDER};
    if (m.pole()) for (int o = 1; o <= m.cap; ++o) os.push_back(o);
    std::vector<double> p(np);
    // what rounding of the frequency arguments alone does to each value
    std::vector<double> noise;
    auto estimate = [&](const Op& ref, const std::vector<double>& want) {
      noise.assign(want.size(), 0);
      for (int k = 0; k < m.nfreq; ++k)
        for (int u : {-3, -2, -1, 1, 2, 3}) {
          Op q = ref; q.p[k] *= 1 + u * 2.3e-16;
          if (apply(b.fresh(e), q) != OK) continue;
          std::vector<double> s = signature(*b.f);
          for (size_t i = 0; i < s.size() && i < want.size(); ++i) { double d = std::fabs(s[i] - want[i]); if (d > noise[i]) noise[i] = d; }
        }
    };
    auto compare = [&](const std::vector<Op>& h, const std::vector<double>& want, IFilter& f, const Op& ref) {
      std::vector<double> s = signature(f);
      R.evals++; R.outcome(fnv(s));
      int d = s.size() == want.size() ? -1 : (int) std::min(s.size(), want.size());
      for (size_t i = 0; d < 0 && i < s.size(); ++i) if (!near(s[i], want[i], 1e-11, 1e-14 + 8 * noise[i])) d = (int) i;
      if (d < 0) return true;
      R.fail(m.name + ": " + cxx(h.back()) + " is not equivalent to " + cxx(ref) + ": " + sigName(f, d) + " is " + num(d < (int) s.size() ? s[d] : 0) + " instead of " + num(d < (int) want.size() ? want[d] : 0),
                         cxx(m, h) + "// must be equivalent to " + cxx(ref));
      return false;
    };
    std::function<void(size_t)> rec = [&](size_t i) {
      if (i == np) {
        for (int o : os) {
          Op ref = opN(o, p);
          R.cur(m.name + " " + cxx(ref));
          if (apply(a.fresh(e), ref) != OK) continue; // C03 decides what is legal
          std::vector<double> want = signature(*a.f);
          estimate(ref, want);
          std::vector<Op> forms;
          for (double fs : rates) {
            Op s = ref; s.t = Op::SETUP; s.fs = fs;
            for (int k = 0; k < m.nfreq; ++k) s.p[k] = p[k] * fs;
            forms.push_back(s);
            if (o == NO_ORDER && m.pole()) { s.order = m.cap; forms.push_back(s); }
            if (o == m.cap) { s.order = NO_ORDER; forms.push_back(s); }
          }
          if (o == NO_ORDER && m.pole()) { Op s = ref; s.order = m.cap; forms.push_back(s); }
          R.states++;
          for (size_t k = 0; k < forms.size(); ++k) {
            R.transitions++; R.traces++;
            if (apply(b.fresh(e), forms[k]) != OK) { R.fail(m.name + ": " + cxx(forms[k]) + " is rejected although " + cxx(ref) + " is accepted", cxx(m, {forms[k]})); continue; }
            compare({forms[k]}, want, *b.f, ref);
            // the next form on the same object
            const Op& g = forms[(k + 1) % forms.size()];
            R.transitions++;
            if (apply(*b.f, g) != OK) { R.fail(m.name + ": " + cxx(g) + " is rejected although " + cxx(ref) + " is accepted", cxx(m, {forms[k], g})); continue; }
            compare({forms[k], g}, want, *b.f, ref);
          }
        }
        // default arguments
        if (m.ndef) {
          double dv = m.roles[np - 1] == SLOPE ? 1 : m.kind == R_NOTCH ? 10 : 1 / std::sqrt(2.0);
          if (p[np - 1] == al[np - 1][0]) {
            Op ref = opN(NO_ORDER, p); ref.p[np - 1] = dv;
            if (apply(a.fresh(e), ref) == OK) {
              std::vector<double> want = signature(*a.f);
              estimate(ref, want);
              for (int form = 0; form < 1 + (int) rates.size(); ++form) {
                Op s = ref; s.np = (int) np - 1;
                if (form) { s.t = Op::SETUP; s.fs = rates[form - 1]; s.p[0] *= s.fs; }
                R.transitions++; R.traces++; R.states++;
                if (apply(b.fresh(e), s) != OK) R.fail(m.name + ": " + cxx(s) + " is rejected", cxx(m, {s}));
                else compare({s}, want, *b.f, ref);
              }
            }
          }
        }
        return;
      }
      for (double v : al[i]) { if (i == 0 && !R.mine()) continue; p[i] = v; rec(i + 1); }
    };
    rec(0);
    // dense lines of designs and of sampling rates: every design at another rate, every whole number as a rate
    {
      auto equal = [&](const Op& ref, const Op& s) {
        R.cur(m.name + " " + cxx(s));
        R.states++; R.transitions++; R.traces++; R.evals++;
        if (apply(a.fresh(e), ref) != OK) { R.fail(m.name + ": " + cxx(ref) + " is rejected", cxx(m, {ref})); return false; }
        if (apply(b.fresh(e), s) != OK) { R.fail(m.name + ": " + cxx(s) + " is rejected although " + cxx(ref) + " is accepted", cxx(m, {s})); return false; }
        std::vector<double> want = signature(*a.f), got = signature(*b.f);
        bool same = got.size() == want.size();
        for (size_t i = 0; same && i < got.size(); ++i) same = near(got[i], want[i], 1e-11, 1e-14);
        if (same) return true;
        estimate(ref, want);
        apply(b.fresh(e), s);
        return compare({s}, want, *b.f, ref);
      };
      auto at = [&](const Op& ref, double fs, int shape) { // shape: how the optional arguments are given
        Op s = ref; s.t = Op::SETUP; s.fs = fs;
        for (int k = 0; k < m.nfreq; ++k) s.p[k] = ref.p[k] * fs;
        if (m.pole() && ref.order == m.cap && shape) s.order = NO_ORDER;
        return s;
      };
      uint64_t turn = 0;
      const bool T = R.thorough;
      denseLines(R, m, T ? 20000 : 4000, 10, [&](const Op& op) {
        ++turn;
        double fs = turn % 3 == 0 ? double(1 + turn * 7919 % 200000) : std::pow(10, -3 + 13 * double(turn * 104729 % 100003) / 100003);
        Op ref = op;
        if (m.ndef && turn % 2) { // the default of the last argument
          ref.p.back() = m.roles[np - 1] == SLOPE ? 1 : m.kind == R_NOTCH ? 10 : 1 / std::sqrt(2.0);
          Op s = turn % 4 == 1 ? ref : at(ref, fs, 0); s.np = (int) np - 1;
          return equal(ref, s);
        }
        return equal(ref, at(ref, fs, turn & 1));
      });
      const int whole = T ? 1000000 : 200000, log = T ? 500000 : 50000, chunks = 16;
      for (int c = 0; c < chunks; ++c) if (R.mine()) for (int i = c + 1; i <= whole + log; i += chunks) {
        double fs = i <= whole ? i : std::pow(10, -6 + 18 * double(i - whole) / log);
        std::vector<double> q = base(m);
        q[0] = i % 3 == 0 ? 0.21 : i % 3 == 1 ? 0.137 : 0.34;
        Op ref = opN(m.pole() ? 1 + i % std::min(m.cap, 6) : NO_ORDER, q);
        if (!equal(ref, at(ref, fs, 1))) break;
      }
    }
    R.sample(m.name + ": forms of " + cxx(opN(os.back(), p)));
  }
  return R.finish();
}
