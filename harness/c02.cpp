// C02: a rejected call is rejected in every state of the filter, and the
// filter goes on exactly as if the call had not been made.
#include "core.hpp"
using namespace mc;

// coefficients, then response and pole/zero report
static std::vector<double> visible(IFilter& f) {
  std::vector<double> v = coefs(f);
  for (double fr : {0.0, 0.07, 0.25, 0.5}) { cplx r = f.response(fr); v.push_back(r.real()); v.push_back(r.imag()); }
  std::vector<Iir::PoleZeroPair> pz;
  double refused = 0; // a section without a numerator has no zeros to report
  try { pz = f.poleZeros(); } catch (const std::invalid_argument&) { refused = -1; }
  v.push_back(refused ? refused : (double) pz.size());
  size_t n = v.size() + 16 * f.maxStages();
  for (auto& q : pz) for (cplx c : {q.poles.first, q.poles.second, q.zeros.first, q.zeros.second}) { v.push_back(c.real()); v.push_back(c.imag()); }
  v.resize(n, 0.0);
  return v;
}

int main(int argc, char** argv) {
  Report R(argc, argv);
  Registry reg;
  regButter(reg); regCheb1(reg); regCheb2(reg); regRbj(reg); regSos(reg);
  struct Work { Entry* e; std::vector<Op> good, bad; std::vector<int> vg, vb; };
  std::vector<Work> ws(reg.size());
  for (size_t k = 0; k < reg.size(); ++k) {
    Work& w = ws[k];
    w.e = &reg[k];
    w.good = legal(reg[k].meta, R.thorough);
    w.bad = illegal(reg[k].meta);
    if (reg[k].meta.cap <= 8) for (const Op& o : specials(reg[k].meta)) w.good.push_back(o);
    if (reg[k].meta.cap > 8) { w.good = thinned(w.good, 10); w.bad = thinned(w.bad, 6); }
    if (reg[k].meta.fam != SOS) {
    // calls with a sampling rate and with several wrong arguments at once
    std::vector<Op> more;
    for (const Op& o : w.bad) { Op s = o; s.t = Op::SETUP; s.fs = 1000; for (int i = 0; i < reg[k].meta.nfreq; ++i) s.p[i] *= 1000; more.push_back(s); }
    for (size_t i = 0; i + 1 < w.bad.size(); ++i) {
      Op o = w.bad[i];
      for (size_t j = 0; j < o.p.size(); ++j) if (w.bad[i + 1].p[j] != base(reg[k].meta)[j]) o.p[j] = w.bad[i + 1].p[j];
      more.push_back(o);
    }
    { Op o = opN(NO_ORDER, base(reg[k].meta)); o.t = Op::SETUP; o.fs = 0; more.push_back(o);      // sampling rate 0
      o.fs = -1000; for (int i = 0; i < reg[k].meta.nfreq; ++i) o.p[i] *= 1000; more.push_back(o); } // negative
    // degenerate arguments, some of which give NaN coefficients only at the end
      for (size_t i = 0; i < base(reg[k].meta).size(); ++i)
        for (double d : {0.0, INF, -INF, 1e300, -1e300, 1e5, -1e5, 1e-300, 0.49999999999999994, 7000.0, -7000.0}) { Op o = opN(NO_ORDER, base(reg[k].meta)); o.p[i] = d; more.push_back(o); }
    w.bad.insert(w.bad.end(), more.begin(), more.end());
    }
    std::vector<double> v;
    auto fn = [&](const Op& o) {
      if (!inChild(v, [&]() {
            std::unique_ptr<IFilter> f(w.e->make(nullptr));
            std::vector<double> s; s.push_back(apply(*f, o)); return s; })) {
        R.fail("setup of a new object crashes: " + w.e->meta.name + " " + cxx(o), cxx(w.e->meta, {o})); return (int) OTHER; }
      return (int) v[0];
    };
    for (const Op& o : w.good) w.vg.push_back(fn(o));
    for (const Op& o : w.bad) w.vb.push_back(fn(o));
  }
  static const std::vector<double> pre = {1, -2, 3, 0.3, 0.25}, post = {0, 0.9, 0, -1, 4, 0, 0, 0, 0, 0};
  const int maxbad = R.thorough ? 3 : 2;
  for (Work& w : ws) {
    const Meta& m = w.e->meta;
    Arena a(w.e->size), b(w.e->size);
    int ng = (int) w.good.size(), nb = (int) w.bad.size();
    int nrej = 0;
    for (int v : w.vb) nrej += v == REJ;
    R.maximum("rejected_calls_in_alphabet", nrej);
    // histories: up to 2 accepted setups (or none), samples, 1..maxbad rejected calls, samples
    auto rejected = [&](const std::vector<int>& gs, const std::vector<int>& bs, bool fil) {
      std::vector<Op> h;
      auto verdict = [&](const Op& o, Res r, int want) {
        h.push_back(o); R.transitions++;
        if (r == want) return true;
        R.fail(m.name + ": " + cxx(o) + (r == OK ? " is accepted" : r == REJ ? " is rejected" : " throws something else") + " after this history, but " +
               (want == OK ? "accepted" : want == REJ ? "rejected" : "something else is thrown") + " on a new object", cxx(m, h));
        return false;
      };
      a.fresh(*w.e); b.fresh(*w.e);
      for (int g : gs) { if (!verdict(w.good[g], apply(*a.f, w.good[g]), w.vg[g])) return; apply(*b.f, w.good[g]); }
      if (fil) { for (double x : pre) { a.f->filter(x); b.f->filter(x); } h.push_back(opFilter(pre)); }
      for (int i : bs) if (!verdict(w.bad[i], apply(*a.f, w.bad[i]), w.vb[i])) return;
      R.states++; R.traces++;
      std::vector<double> x = visible(*a.f), y = visible(*b.f);
      for (double s : post) { x.push_back(a.f->filter(s)); y.push_back(b.f->filter(s)); }
      R.evals++; R.outcome(fnv(x));
      int d = firstDiff(x, y);
      if (d >= 0) {
        int n = 1 + 6 * a.f->maxStages(), q = n + 8, z = q + 1 + 16 * a.f->maxStages();
        R.fail(m.name + ": a rejected call changes the filter: " + (d < n ? sigName(*a.f, d) : d < q ? std::string("the response") : d < z ? fmt("the pole/zero report (entry %d)", d - q) : fmt("output sample %d afterwards", d - z)) +
               " is " + num(x[d]) + " instead of " + num(y[d]), cxx(m, h) + cxx(opFilter(post)) + "\n// expected: as without the rejected calls");
        return;
      }
      // the rejected call must not make a later valid one fail or differ
      const Op& g = w.good[(bs[0] + (gs.empty() ? 0 : gs[0])) % ng];
      Res r = apply(*a.f, g);
      if (!verdict(g, r, w.vg[&g - &w.good[0]])) return;
      apply(*b.f, g);
      if (r == OK) {
        x = signature(*a.f); y = signature(*b.f);
        d = firstDiff(x, y);
        R.evals++;
        if (d >= 0) R.fail(m.name + ": after a rejected call the next setup gives another filter: " + sigName(*a.f, d), cxx(m, h));
      }
    };
    // many rejected calls in a row: the same one, two in turn, with or without an accepted setup before
    std::vector<int> rj; for (int i = 0; i < nb; ++i) if (w.vb[i] == REJ) rj.push_back(i);
    const int many[] = {21, 40, 300};
    for (size_t i = 0; i < rj.size(); ++i) for (int var = 0; var < 3; ++var) {
      if (!R.mine()) continue;
      int other = rj[(i * 7 + 3) % rj.size()];
      for (int gi = -1; gi < ng; gi += std::max(1, ng / 4)) {
        std::vector<int> bs;
        for (int k = 0; k < many[(i + gi + 1) % 3]; ++k) bs.push_back(var == 0 || k % 2 == 0 ? rj[i] : var == 1 ? other : rj[k % rj.size()]);
        rejected(gi < 0 ? std::vector<int>() : std::vector<int>{gi}, bs, gi % 2 != 0);
      }
    }
    std::vector<std::vector<int>> gss;
    gss.push_back({});
    for (int i = 0; i < ng; ++i) gss.push_back({i});
    for (int i = 0; i < ng; ++i) for (int j = 0; j < ng; ++j) if (R.thorough || (i + j) % 4 == 0) gss.push_back({i, j});
    for (auto& gs : gss) {
      if (!R.mine()) continue;
      R.cur(m.name);
      std::vector<int> bs;
      std::function<void()> rec = [&]() {
        if (!bs.empty()) { rejected(gs, bs, false); rejected(gs, bs, true); }
        if ((int) bs.size() == (gs.size() > 1 ? maxbad - 1 : maxbad)) return;
        for (int i = 0; i < nb; ++i) { if (w.vb[i] != REJ) continue; bs.push_back(i); rec(); bs.pop_back(); }
      };
      rec();
    }
    R.sample(m.name + fmt(": %d rejected calls such as ", nrej) + cxx(w.bad[nb / 2]) + " after " + cxx(w.good[ng / 2]));
  }
  return R.finish();
}
