// C27: float, integer and double samples: the sample is processed in double
// precision and only the result is converted.  Product of filters, sample types
// and sequences, against the double filter with the same setup.
#include "core.hpp"
using namespace mc;

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg); regSos(reg);
  static const double amp[] = {0, 1, -1, 7, 100, -3000, 20000};
  const int L = R.thorough ? 5 : 4;
  int total = 1; for (int i = 0; i < L; ++i) total *= 7;
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    std::vector<Op> lg = legal(m, true), al;
    for (size_t i = 0; i < lg.size(); i += R.thorough || m.cap < 8 ? 1 : std::max<size_t>(1, lg.size() / 12)) al.push_back(lg[i]);
    for (const Op& o : specials(m)) al.push_back(o);
    al.push_back(opT(Op::QUERY)); // never set up
    Arena a(e.size), b(e.size);
    for (const Op& o : al) {
      if (!R.mine()) continue;
      R.cur(m.name + " " + cxx(o));
      a.fresh(e); b.fresh(e);
      if (apply(*a.f, o) != OK) continue;
      apply(*b.f, o);
      for (int type = 0; type < 8; ++type)
        for (int k = 0; k < total; ++k) {
          a.f->reset(); b.f->reset();
          int q = k; double peak = 0;
          for (int i = 0; i < L + 6; ++i) {
            double x = i < L ? amp[q % 7] : 0; q /= 7;
            if (type == 0) x *= 1.1f; // not representable with few bits
            if (type == 0) x = (float) x;
            if (type == 4) x *= 100000; // wide range
            static const double big[] = {0, 1, -1, 16777217, 100000001, -123456789, 987654321}, wide[] = {0, 1, -1, 9007199254740991.0, 4503599627370497.0, -1234567890123457.0, 33554433};
            if (type == 6 && i < L) x = big[std::find(amp, amp + 7, x) - amp];
            if (type == 7 && i < L) x = wide[std::find(amp, amp + 7, x) - amp];
            if (type == 5) x = (float) (x * 1e-20f);
            double w = b.f->filter(x), y = 0;
            peak = std::max(peak, std::max(std::fabs(x), std::fabs(w)));
            bool same;
            R.transitions += 2;
            switch (type) {
            case 0: case 5: { float g = a.f->filterF((float) x); y = g; same = g == (float) w || (g >= (float) (w - 1e-11 * peak) && g <= (float) (w + 1e-11 * peak)); break; }
            case 1: case 6: { if (std::fabs(w) > 2e9) { same = true; a.f->filterI((int) x); break; } int g = a.f->filterI((int) x); y = g; same = g == (int) w || std::fabs(w - std::nearbyint(w)) < 1e-6; break; }
            case 2: { if (std::fabs(w) > 32767) { same = true; a.f->filterF((float) x); break; } short g = a.f->filterS((short) x); y = g; same = g == (short) w || std::fabs(w - std::nearbyint(w)) < 1e-6; break; }
            case 3: case 4: case 7: { if (std::fabs(w) > 9e18) { same = true; break; } long long g = a.f->filterL((long long) x); y = (double) g; same = g == (long long) w || std::fabs(w - std::nearbyint(w)) < 1e-6 * (1 + std::fabs(w) * 1e-9); break; }
            default: same = true;
            }
            if (same && std::fabs(w - std::nearbyint(w)) < 1e-6 && type >= 1 && type != 5) same = std::fabs(y - w) < 1.1 + 1e-9 * std::fabs(w) || std::fabs(w) > 32767; // a rounding difference at an integer
            if (!same) {
              static const char* tn[] = {"float", "int", "short", "long long", "long long", "float", "int", "long long"};
              R.fail(m.name + ": " + cxx(o) + fmt(": %s sample %d: result %.17g, in double precision %.17g", tn[type], i, y, w), cxx(m, {o}) + fmt("// sequence %d over {0,1,-1,7,100,-3000,20000}, type %s", k, tn[type]));
              k = total; break;
            }
          }
          R.states++; R.traces++; R.evals++;
        }
      // the remaining arithmetic types, within their range
      static const struct { const char* name; double lo, hi; double v[5]; } X[] = {
        {"signed char", -128, 127, {0, 1, 100, -7, -128}}, {"unsigned char", 0, 255, {0, 1, 255, 128, 77}}, {"char", -128, 127, {0, 1, 100, -7, 33}},
        {"unsigned short", 0, 65535, {0, 1, 65535, 40000, 300}}, {"unsigned", 0, 4294967295.0, {0, 1, 4294967295.0, 3000000000.0, 12345}}, {"unsigned long long", 0, 1.8e19, {0, 1, 9007199254740991.0, 1e15, 255}},
        {"long", -9e18, 9e18, {0, 1, -1e15, 9007199254740991.0, 3}}, {"wchar_t", -2147483648.0, 2147483647, {0, 1, -2147483648.0, 2147483647, 65}}, {"long double", -1e300, 1e300, {0, 1, 0.1, -1e-5, 1e10}},
        {"__int128", -1e30, 1e30, {0, 1, -1e25, 9007199254740991.0, 7}}, {"a fixed point class", -1e12, 1e12, {0, 1, -100.5, 1.0 / 65536, 30000}}};
      int xt = 1; for (int i = 0; i < L; ++i) xt *= 5;
      for (int type = 0; type < 11; ++type) for (int k = 0; k < xt; ++k) {
        a.f->reset(); b.f->reset();
        int q = k; bool good = true;
        for (int i = 0; i < L + 4 && good; ++i) {
          double x = i < L ? X[type].v[q % 5] : 0; q /= 5;
          double w = b.f->filter(x);
          R.transitions += 2;
          if (!(w >= X[type].lo && w <= X[type].hi)) break; // the conversion of the result would be undefined
          double y = (double) a.f->filterX(type, x);
          double fl = type == 10 ? std::trunc(w * 65536) / 65536 : std::trunc(w), wi = type == 10 ? w * 65536 : w;
          good = type == 8 ? std::fabs(y - w) <= 1e-15 * std::fabs(w) : y == fl || ((std::fabs(wi - std::nearbyint(wi)) < 1e-6 * (1 + std::fabs(wi) * 1e-9)) && std::fabs(y - w) < (type == 10 ? 1.1 / 65536 : 1.1) + 1e-9 * std::fabs(w));
          if (!good) R.fail(m.name + ": " + cxx(o) + fmt(": %s sample %d: result %.17g, in double precision %.17g", X[type].name, i, y, w), cxx(m, {o}) + fmt("// sequence %d over {%g,%g,%g,%g,%g}, type %s", k, X[type].v[0], X[type].v[1], X[type].v[2], X[type].v[3], X[type].v[4], X[type].name));
        }
        R.states++; R.traces++; R.evals++;
        if (!good) break;
      }
      R.outcome(fnv(coefs(*a.f)));
    }
    // dense lines: every 16 bit sample, and the other types over their range in small steps, as one stream
    for (int which = 0; which < 7; ++which) for (int d = 0; d < 2; ++d) {
      const Op& o = d ? al[al.size() / 2] : al[0];
      if (!R.mine()) continue;
      a.fresh(e); b.fresh(e);
      R.cur(m.name + " " + cxx(o));
      if (apply(*a.f, o) != OK) continue;
      apply(*b.f, o);
      const int N = R.thorough ? 2000000 : 65536;
      static const char* tn[] = {"short", "int", "int", "long long", "float", "float", "double"};
      double peak = 0;
      for (int i = 0; i < N; ++i) {
        const double u = double(i) / N, sg = i % 3 ? 1 : -1;
        double x = 0;
        switch (which) { // scrambled: a step of the stream is not a small step of the value
        case 0: x = (i * 24593) % 65536 - 32768; break;
        case 1: x = (i * 7919LL) % 200003 - 100001; break;
        case 2: x = std::trunc(sg * std::pow(10, 9.3 * u)); break;
        case 3: x = std::trunc(sg * std::pow(10, 15.9 * u)); break;
        case 4: x = (float) (sg * std::pow(10, -30 + 60 * u)); break;
        case 5: x = (float) (-2 + 4 * double((i * 7919LL) % 65537) / 65537); break;
        case 6: x = i & 1 ? sg * std::pow(10, -200 + 400 * u) : -2 + 4 * u; break;
        }
        // the growing streams start afresh now and then, small samples must not drown in what is left of large ones
        if (which == 2 || which == 3 || which == 4 || which == 6) if (i % 8 == 0) { a.f->reset(); b.f->reset(); peak = 0; }
        double w = b.f->filter(x), y = 0; bool same = true;
        peak = std::max(peak, std::max(std::fabs(x), std::fabs(w)));
        const bool edge = std::fabs(w - std::nearbyint(w)) < 1e-6 * (1 + std::fabs(w) * 1e-9) + 1e-11 * peak;
        switch (which) {
        case 0: if (std::fabs(w) > 32767) { a.f->filter(x); break; } y = a.f->filterS((short) x); same = y == (short) w || (edge && std::fabs(y - w) < 1.1); break;
        case 1: case 2: if (std::fabs(w) > 2e9) { a.f->filter(x); break; } y = a.f->filterI((int) x); same = y == (int) w || (edge && std::fabs(y - w) < 1.1 + 1e-11 * peak); break;
        case 3: if (std::fabs(w) > 9e18) { a.f->filter(x); break; } y = (double) a.f->filterL((long long) x); same = y == (double) (long long) w || (edge && std::fabs(y - w) < 1.1 + 1e-9 * std::fabs(w) + 1e-11 * peak); break;
        case 4: case 5: if (std::fabs(w) > 3e38) { a.f->filter(x); break; } y = a.f->filterF((float) x); same = y == (float) w || (y >= (float) (w - 1e-11 * peak) && y <= (float) (w + 1e-11 * peak)); break;
        case 6: y = a.f->filter(x); same = y == w || std::fabs(y - w) <= 1e-11 * peak; break;
        }
        R.transitions += 2;
        if (!same) { R.fail(m.name + ": " + cxx(o) + fmt(": %s sample %.17g (number %d of a line): result %.17g, in double precision %.17g", tn[which], x, i, y, w), cxx(m, {o}) + fmt("// line %d, type %s", which, tn[which])); break; }
      }
      R.states++; R.traces++; R.evals++;
    }
    R.sample(m.name + ": " + cxx(al[0]) + " with float, int, short, long long");
  }
  return R.finish();
}
