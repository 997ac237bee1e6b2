// C10: the three filter structures are interchangeable: same design, same
// samples, same output up to rounding; and all have the same coefficients and
// response.  Product of designs and input patterns.
#include "core.hpp"
using namespace mc;

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regSos(reg);
  auto find = [&](const Meta& m, Topo t) -> Entry* {
    for (Entry& e : reg) if (e.meta.fam == m.fam && e.meta.kind == m.kind && e.meta.cap == m.cap && e.meta.topo == t) return &e;
    return nullptr;
  };
  const int L = R.thorough ? 9 : 6; // all ternary sequences of this length, followed by zeros
  for (Entry& e : reg) {
    const Meta& m = e.meta;
    if (m.topo != DF1) continue;
    Entry* e2 = find(m, DF2); Entry* e3 = find(m, TDF2);
    size_t np = m.roles.size();
    std::vector<double> p(np);
    std::function<void(size_t)> rec = [&](size_t i) {
      if (i < np) {
        std::vector<double> vs = valuesFor(m, i, R.thorough || np == 1);
        if (m.roles[i] == FREQ && !m.band()) { vs.push_back(0.02); vs.push_back(0.48); }
        for (double v : vs) { p[i] = v; rec(i + 1); }
        return;
      }
      for (int o = 1; o <= (m.fam == SOS ? 4 + 32 : m.cap); ++o) {
        if (!R.mine()) continue;
        Op op = m.fam == SOS ? opN(NO_ORDER, sosTable(m.cap, (o - 1) % 4)) : opN(o, p);
        if (m.fam == SOS && o > 4) { // one section with any subset of its coefficients 0
          static const double full[] = {0.75, 0.5, -0.375, 1, -0.5, 0.25};
          static const int col[] = {0, 1, 2, 4, 5};
          double* s = &op.p[6 * ((o - 5) % m.cap)];
          for (int j = 0; j < 6; ++j) s[j] = full[j];
          for (int j = 0; j < 5; ++j) if ((o - 5) >> j & 1) s[col[j]] = 0;
        }
        R.cur(m.name + " " + cxx(op));
        std::unique_ptr<IFilter> f[3] = {std::unique_ptr<IFilter>(e.make(nullptr)), std::unique_ptr<IFilter>(e2->make(nullptr)), std::unique_ptr<IFilter>(e3->make(nullptr))};
        bool ok = true;
        Res v0 = OK;
        for (int k = 0; k < 3; ++k) { Res v = apply(*f[k], op); if (k == 0) v0 = v; else if (v != v0) R.fail(m.name + ": " + cxx(op) + " is accepted with one structure and rejected with another", cxx(m, {op})); ok = ok && v == OK; }
        if (!ok) continue;
        std::vector<double> c0 = coefs(*f[0]);
        for (int k = 1; k < 3; ++k) if (firstDiff(c0, coefs(*f[k])) >= 0) { R.fail(m.name + ": other coefficients with another structure for " + cxx(op), cxx(m, {op})); return; }
        int total = 1; for (int i2 = 0; i2 < L; ++i2) total *= 3;
        int step = R.thorough ? 1 : 1;
        static const double scales[] = {1, 1e-30, 1e30, 1e-12, 1e-150, 1e150, 1e6};
        for (int k = 0; k < total + 3 * 7; k += step) {
          const double sc = k < total ? scales[k % 7] : scales[(k - total) / 3];
          const int pat = k < total ? -1 : (k - total) % 3;
          for (auto& g : f) g->reset();
          int q = k; double big = 0, err = 0; int where = -1;
          int len = k < total ? L + 14 : k == total + 2 && o == std::min(m.cap, 3) ? (R.thorough ? 1000000 : 140000) : 1500;
          for (int i2 = 0; i2 < len; ++i2) {
            double x = 0;
            if (k < total) { if (i2 < L) { x = q % 3 - 1; q /= 3; } }
            else if (pat == 0) x = i2 == 0;
            else if (pat == 1) x = 1;
            else x = (i2 / 13) % 2 ? 1 : -0.5;
            x *= sc;
            double y0 = f[0]->filter(x), y1 = f[1]->filter(x), y2 = f[2]->filter(x);
            big = std::max(big, std::fabs(y0));
            double er = std::max(std::fabs(y1 - y0), std::fabs(y2 - y0));
            if (!(er <= err)) { err = er; where = i2; }
            R.transitions += 3;
          }
          R.states++; R.traces += 3; R.evals++;
          double rel = err / (big + 1e-3 * sc);
          R.maximum("relative_difference", rel);
          if (!(rel < 1e-9)) {
            R.fail(m.name + ": " + cxx(op) + fmt(": output %d differs between the structures by %g of the maximum", where, rel), cxx(m, {op}) + fmt("// input pattern %d of length %d over {-1,0,1}, times %g", k, L, sc));
            break;
          }
        }
        R.outcome(fnv(c0));
      }
    };
    rec(0);
    {
      std::unique_ptr<IFilter> f[3] = {std::unique_ptr<IFilter>(e.make(nullptr)), std::unique_ptr<IFilter>(e2->make(nullptr)), std::unique_ptr<IFilter>(e3->make(nullptr))};
      uint64_t turn = 0;
      denseLines(R, m, R.thorough ? 20000 : 4000, 12, [&](const Op& op) {
        R.cur(m.name + " " + cxx(op));
        for (int k = 0; k < 3; ++k) { if (apply(*f[k], op) != OK) { R.fail(m.name + ": " + cxx(op) + " is rejected", cxx(m, {op})); return false; } f[k]->reset(); }
        std::vector<double> c0 = coefs(*f[0]);
        for (int k = 1; k < 3; ++k) if (firstDiff(c0, coefs(*f[k])) >= 0) { R.fail(m.name + ": other coefficients with another structure for " + cxx(op), cxx(m, {op})); return false; }
        // the samples change from design to design too
        double sc = std::pow(10, -9 + 0.01 * double(++turn % 1801)), big = 0, err = 0;
        for (int i = 0; i < 24; ++i) {
          double x = i < 8 ? sc * (i % 3 == 1 ? -0.7 : i % 3 ? 0.25 : 1) : 0, y0 = f[0]->filter(x), y1 = f[1]->filter(x), y2 = f[2]->filter(x);
          big = std::max(big, std::fabs(y0)); err = std::max(err, std::max(std::fabs(y1 - y0), std::fabs(y2 - y0)));
        }
        R.states++; R.traces += 3; R.evals++; R.transitions += 72;
        if (!(err <= 1e-9 * (big + 1e-3 * sc))) { R.fail(m.name + ": " + cxx(op) + fmt(": the output differs between the structures by %g of the maximum, samples of size %.17g", err / big, sc), cxx(m, {op})); return false; }
        return true;
      });
    }
    R.sample(m.name + ": " + (m.fam == SOS ? std::string("4 tables") : cxx(opN(m.cap, p))));
  }
  return R.finish();
}
