// C28: a designed filter is linear, time invariant and causal: all pairs of
// ternary input sequences up to a length, all delays, all power of two gains.
#include "model.hpp"
using namespace mc;

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg); regSos(reg);
  const int L = R.thorough ? 8 : 6, TAIL = 12;
  int total = 1; for (int i = 0; i < L; ++i) total *= 3;
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    std::vector<Op> lg = legal(m, true), al;
    for (size_t i = 0; i < lg.size(); i += R.thorough || m.cap < 8 ? 1 : std::max<size_t>(1, lg.size() / 12)) al.push_back(lg[i]);
    for (const Op& o : specials(m)) al.push_back(o);
    Arena a(e.size);
    for (const Op& o : al) {
      if (!R.mine()) continue;
      R.cur(m.name + " " + cxx(o));
      a.fresh(e);
      if (apply(*a.f, o) != OK) continue;
      const int N = L + TAIL;
      // impulse response of a new object
      std::vector<double> h(N + 40);
      for (size_t i = 0; i < h.size(); ++i) h[i] = a.f->filter(i == 0);
      double hs = 0; for (double d : h) hs = std::max(hs, std::fabs(d));
      auto fail = [&](const std::string& w, int k) { R.fail(m.name + ": " + cxx(o) + ": " + w, cxx(m, {o}) + fmt("// input sequence %d (base 3 digits - 1, least significant first), then zeros", k)); };
      bool stop = false;
      for (int k = 0; k < total && !stop; ++k) {
        double x[32]; int q = k;
        for (int i = 0; i < N; ++i) { x[i] = i < L ? q % 3 - 1 : 0; q /= 3; }
        // superposition of delayed impulses = linearity + time invariance + causality
        a.f->reset();
        double y[32];
        for (int i = 0; i < N; ++i) {
          y[i] = a.f->filter(x[i]);
          double w = 0, s = hs;
          for (int j = 0; j <= i && j < L; ++j) w += x[j] * h[i - j];
          double er = std::fabs(y[i] - w);
          R.transitions++;
          R.maximum("relative_error", er / (s + 1e-300));
          if (!(er <= 1e-10 * s)) { fail(fmt("output %d is %.17g, the superposition of impulse responses is %.17g", i, y[i], w), k); stop = true; break; }
        }
        R.states++; R.traces++; R.evals++;
        if (stop || (k % 7 && !R.thorough)) continue;
        // gains: exact for powers of two while nothing underflows
        for (int ex : {-900, -600, -300, -100, -30, -1, 1, 10, 100, 300, 600, 900}) {
          a.f->reset();
          for (int i = 0; i < N; ++i) {
            double z = a.f->filter(std::ldexp(x[i], ex)), w = std::ldexp(y[i], ex);
            R.transitions++;
            if (!near(z, w, 1e-9, std::ldexp(hs * 1e-9, ex))) { fail(fmt("with the input scaled by 2^%d output %d is %.17g instead of %.17g", ex, i, z, w), k); stop = true; break; }
          }
          R.states++; R.traces++;
          if (stop) break;
        }
        if (stop) break;
        // delay by n zeros, zeros in give zeros out
        for (int dl : {1, 2, 5, 17, 300}) {
          a.f->reset();
          for (int i = 0; i < dl; ++i) if (a.f->filter(0.0) != 0) { fail("zeros at rest give a non-zero output", k); stop = true; break; }
          for (int i = 0; i < N && !stop; ++i) { double z = a.f->filter(x[i]); R.transitions++; if (!near(z, y[i], 1e-9, 1e-9 * hs)) { fail(fmt("delayed by %d samples output %d is %.17g instead of %.17g", dl, i, z, y[i]), k); stop = true; } }
          R.states++; R.traces++;
          if (stop) break;
        }
      }
      R.outcome(fnv(h));
      // time invariance for ever: a long pseudo random input of several amplitudes
      // against the same sections as a textbook system
      if (stop || (!R.thorough && &o != &al[0] && &o != &al.back())) continue;
      a.f->reset();
      Model q(m.topo, a.f->maxStages()); q.load(*a.f);
      const long T = R.thorough ? 3000000 : 140000;
      uint32_t lfsr = 0xACE1u; double big = 1e-300;
      for (long i = 0; i < T; ++i) {
        lfsr = (lfsr >> 1) ^ (-(lfsr & 1) & 0xD0000001u);
        // bursts, silences and steps, at three amplitudes
        long ph = i % 3000; double amp = (i / 3000) % 3 == 0 ? 1 : (i / 3000) % 3 == 1 ? 1e-3 : 1e3;
        double x = ph < 700 ? ((int) (lfsr & 7) - 3.5) * amp : ph < 1400 ? 0.0 : ph < 2000 ? amp : ph % 97 ? 0.0 : -amp;
        double y = a.f->filter(x), w = q.step(x);
        big = std::max(big, std::fabs(w));
        R.transitions++;
        if (!(std::fabs(y - w) <= 1e-9 * big)) { fail(fmt("output %ld of a long run is %.17g, that of the linear time invariant system %.17g", i, y, w), -1); break; }
      }
      R.states++; R.traces++; R.evals++;
      // and for a very long time: a periodic input gives a periodic output
      if (stop || &o != &al[0]) continue;
      const uint64_t VT = R.thorough ? (1ull << 27) + 100000 : (1ull << 24) + (1ull << 20) + 100000;
      a.f->reset();
      double per[64], top = 1e-300; uint64_t calm = 0; int good = 0;
      for (double& d : per) d = 0;
      for (uint64_t i = 0; i < VT; ++i) {
        int ph = int(i & 63);
        double y = a.f->filter(ph == 0 ? 1.0 : ph == 9 ? -0.75 : ph < 30 ? 0.0 : 0.125);
        double e = std::fabs(y - per[ph]);
        if (!calm) { top = std::max(top, std::fabs(y)); good = e <= 1e-10 * top ? good + 1 : 0; if (good >= 256) calm = i; per[ph] = y; }
        else if (!(e <= 1e-8 * top)) { fail(fmt("output %llu of a very long run with a periodic input is %.17g, but %.17g one period after the transient", (unsigned long long) i, y, per[ph]), -1); break; }
      }
      if (!calm) R.counts["very_long_runs_without_steady_state"]++;
      R.transitions += VT; R.states++; R.traces++; R.evals++;
    }
    // dense lines: designs in small steps, an input of 16 samples against the impulse response
    {
      std::unique_ptr<IFilter> f(e.make(nullptr));
      uint64_t turn = 0;
      auto lin = [&](const Op& op, double A) {
        double h[28], hs = 0, x[16];
        f->reset();
        for (int i = 0; i < 28; ++i) { h[i] = f->filter(i == 0 ? 1 : 0); hs = std::max(hs, std::fabs(h[i])); }
        f->reset();
        uint32_t l = uint32_t(++turn * 2654435761u) | 1;
        for (int i = 0; i < 28; ++i) {
          l = (l >> 1) ^ (-(l & 1) & 0xD0000001u);
          double in = i < 16 ? A * (double(l & 1023) / 512 - 1) : 0, w = 0;
          if (i < 16) x[i] = in;
          for (int j = 0; j <= i && j < 16; ++j) w += x[j] * h[i - j];
          double y = f->filter(in);
          R.transitions++;
          if (!(std::fabs(y - w) <= 1e-10 * hs * std::fabs(A) + 1e-285)) { R.fail(m.name + ": " + cxx(op) + fmt(": output %d is %.17g, the superposition of impulse responses is %.17g, input of size %.17g", i, y, w, A), cxx(m, {op}) + "// input: " + cxx(opFilter(std::vector<double>(x, x + std::min(i + 1, 16))))); return false; }
        }
        R.states++; R.traces++; R.evals++;
        return true;
      };
      denseLines(R, m, R.thorough ? 8000 : 1600, 12, [&](const Op& op) {
        R.cur(m.name + " " + cxx(op));
        if (apply(*f, op) != OK) { R.fail(m.name + ": " + cxx(op) + " is rejected", cxx(m, {op})); return false; }
        return lin(op, 1);
      });
      for (const Op& o : {al[0], al[al.size() / 3], al.back()}) {
        if (!R.mine()) continue;
        if (apply(*f, o) != OK) continue;
        const int N = R.thorough ? 200000 : 20000;
        for (int i = 0; i <= N; ++i) if (!lin(o, i & 1 ? -4 + 8.0 * i / N : std::pow(10, -240 + 500.0 * i / N))) break;
      }
    }
    R.sample(m.name + ": " + cxx(al.back()));
  }
  return R.finish();
}
