// C08 setters are all-or-nothing
#include "proxy.hpp"
using namespace world;

static void gen(sim::Rng &r, Scn &s, bool thorough)
{
  PackCfg c;
  c.maxcells = r.chance(0.3) ? 1 : r.chance(0.4) ? 4 : thorough ? 14 : 8;
  c.spm = r.chance(0.3);
  c.battery = true;
  c.spread = r.chance(0.3) ? 0.05 : 0.02;
  c.soc_lo = r.chance(0.3) ? 0.03 : 0.25;
  c.soc_hi = r.chance(0.3) ? 0.97 : 0.75;
  Node n = gen_pack(r, c);
  s.add("pack").set("spec", n.text());
  const int L = n.leaves();
  const int ops = r.range(2, thorough ? 16 : 9);
  for (int i = 0; i < ops; i++) {
    const int k = (int)r.below(12);
    if (k < 2) {
      s.add("step").set("I", r.chance(0.2) ? r.real(-4, 4) : r.real(-1, 1)).set("dt", (double)r.range(1, 8)).set("n", r.range(1, 4)).set("rep", r.range(1, 12));
      continue;
    }
    if (k == 2) {
      s.add("save");
      continue;
    }
    Line &l = s.add("set");
    l.set("node", r.chance(0.5) ? (int64_t)0 : (int64_t)r.below(3 * L));
    if (k < 6) l.set("what", "i").set("x", r.chance(0.25) ? r.real(-80, 80) : r.chance(0.2) ? r.real(-8, 8) : r.chance(0.1) ? 0.0 : r.real(-1.5, 1.5)).set("chk", r.chance(0.7) ? 1 : 0);
    else if (k < 8) l.set("what", "v").set("x", r.chance(0.3) ? r.real(-0.8, 1.8) : r.real(0.1, 0.9));
    else if (k < 9) l.set("what", "soc").set("x", r.chance(0.4) ? r.real(-0.4, 1.4) : r.unit()).set("chk", r.range(0, 1));
    else {
      const char *m[] = { "soc", "T", "socok", "none", "mT", "saved", "cur" };
      l.set("what", "st").set("mod", m[r.below(7)]).set("leaf", (int64_t)r.below(L)).set("x", r.unit()).set("chk", r.chance(0.6) ? 1 : 0);
    }
    if (r.chance(0.5)) {
      const int codes[] = { 3, 4, 7, 8, 9, 10, 12 };
      l.set("refuse", (int64_t)r.below(L)).set("left", r.chance(0.6) ? 0 : r.range(1, 30)).set("code", codes[r.below(7)]);
    }
  }
}

struct Snap {
  std::vector<std::vector<double>> st;
  std::vector<double> V, T; // voltages and temperatures of all nodes
  std::vector<char> spm;
};
static Snap snap(StorageUnit *su)
{
  Snap s;
  std::vector<StorageUnit *> nd;
  all_nodes(su, nd);
  for (auto n : nd) {
    double v = 0;
    try { v = n->V(); } catch (...) {}
    s.V.push_back(v);
    s.T.push_back(n->T());
  }
  for (auto c : leaves(su)) {
    std::vector<double> x;
    c->getStates(x);
    s.st.push_back(x);
    s.spm.push_back(dynamic_cast<Cell_SPM *>(c) != nullptr);
  }
  return s;
}
static bool same(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))) || (a != a && b != b); }
static std::string differ(const Snap &a, const Snap &b)
{
  for (size_t i = 0; i < a.st.size(); i++)
    for (size_t k = 0; k < a.st[i].size(); k++)
      // the stored voltage of an SPM cell is derived from the other states (the voltages are compared below)
      if (!(a.spm[i] && k == (size_t)State_SPM::i_V) && !same(a.st[i][k], b.st[i][k], 1e-12)) return sim::strf("state %zu of cell %zu was %.12g and is %.12g", k, i, a.st[i][k], b.st[i][k]);
  for (size_t i = 0; i < a.V.size(); i++)
    if (!same(a.V[i], b.V[i], 1e-9)) return sim::strf("the voltage of unit %zu was %.12g and is %.12g", i, a.V[i], b.V[i]);
  for (size_t i = 0; i < a.T.size(); i++)
    if (!same(a.T[i], b.T[i], 1e-12)) return sim::strf("the temperature of unit %zu was %.12g and is %.12g", i, a.T[i], b.T[i]);
  return "";
}

static void run(const Scn &s)
{
  auto n = parse_node(s.get("pack").str("spec"));
  BuildOpt bo;
  bo.par = 0;
  auto su = build(n, bo);
  auto cells = leaves(su.get());
  std::vector<StorageUnit *> nodes;
  all_nodes(su.get(), nodes);
  for (auto c : cells) probe(c)->armed = false;
  call([&] { return su->setCurrent(0, false, false); }); // equalise
  std::vector<std::vector<double>> saved(nodes.size());
  for (auto &l : s.lines) {
    sim::set_label(l.text().c_str());
    if (l.kind == "step") {
      call([&] { return su->setCurrent(l.num("I") * su->Cap(), false, false); });
      for (int i = 0; i < l.i("rep", 1); i++) {
        auto o = call([&] { su->timeStep_CC(l.num("dt"), (int)l.i("n", 1)); });
        sim::sh->simtime += l.num("dt") * l.i("n", 1);
        if (o.threw) break;
      }
    }
    if (l.kind == "save")
      for (size_t i = 0; i < nodes.size(); i++) {
        saved[i].clear();
        nodes[i]->getStates(saved[i]);
      }
    if (l.kind != "set") continue;
    const size_t ni = l.u("node") % nodes.size();
    StorageUnit *u = nodes[ni];
    const auto w = l.str("what");
    if (w == "soc") {
      u = cells[l.u("node") % cells.size()];
    }
    Snap before = snap(su.get());
    bool valid0 = u->validStates(false); // every cell: a battery or module does not ask its cells
    for (auto c : leaves(u)) valid0 = valid0 && c->validStates(false);
    // the failing child, below the unit
    std::vector<Cell *> below = leaves(u);
    ProbeBase *pf = nullptr;
    if (l.has("refuse")) {
      Cell *fc = below[l.u("refuse") % below.size()];
      pf = probe(fc);
      pf->armed = true;
      pf->refuse_code = (int)l.i("code", 8);
      pf->refuse_left = (int)l.i("left");
      pf->refuse_i = true;
      pf->refuse_I0 = fc->I();
      pf->refuse_s = true;
      pf->refuse_st.clear();
      fc->getStates(pf->refuse_st);
      pf->fired = 0;
    }
    std::vector<double> vec;
    Out o;
    double want = 0;
    if (w == "i") {
      want = l.num("x") * u->Cap();
      o = call([&] { return u->setCurrent(want, l.i("chk"), true); });
    } else if (w == "v") {
      want = u->Vmin() + l.num("x") * (u->Vmax() - u->Vmin());
      o = call([&] { return u->setVoltage(want, true, true); });
    } else if (w == "soc") {
      want = l.num("x");
      auto c = dynamic_cast<Cell *>(u);
      o = call([&] { return c->setSOC(want, l.i("chk"), true); });
    } else {
      u->getStates(vec);
      const auto m = l.str("mod");
      if (m == "saved" && saved[ni].size() == vec.size()) vec = saved[ni];
      // position of the states of one cell in the vector of the unit
      const size_t li = l.u("leaf") % below.size();
      auto spot = [&](int which) -> double & { // 0 SOC 1 T 2 I
        std::vector<double> x;
        below[li]->getStates(x);
        size_t off = std::search(vec.begin(), vec.end(), x.begin(), x.end()) - vec.begin();
        if (off + x.size() > vec.size()) off = 0;
        const bool spm = dynamic_cast<Cell_SPM *>(below[li]) != nullptr;
        // the indices are found by their values
        double v = which == 0 ? below[li]->SOC() : which == 1 ? below[li]->T() : below[li]->I();
        for (size_t k = 0; k < x.size(); k++)
          if (x[k] == v && !(which == 2 && spm && k > 0)) return vec[off + k];
        return vec[off];
      };
      const double x = l.num("x");
      if (m == "soc") spot(0) = x < 0.5 ? -0.1 - x : 1 + x;
      if (m == "T") spot(1) = x < 0.5 ? 200 : 400;
      if (m == "socok") spot(0) = std::clamp(spot(0) + (x - 0.5) * 0.1, 0.0, 1.0);
      if (m == "mT" && u != cells[0]) vec.back() = x < 0.5 ? 5 : 300 + 10 * x;
      if (m == "cur") spot(2) = (x - 0.5) * 30;
      std::span<double> sp{ vec };
      o = call([&] { return u->setStates(sp, l.i("chk"), true); });
    }
    for (auto c : cells) {
      auto p = probe(c);
      p->armed = p->refuse_i = p->refuse_s = false;
    }
    const bool bad = o.threw || isStatusBad(o.st);
    const auto how = "'" + l.text() + "' (" + o.text() + ")";
    Snap after = snap(su.get());
    sim::observe(&o.st, 1);
    if (bad) {
      sim::sh->nontrivial = 1;
      auto d = differ(before, after);
      if (!d.empty() && (w != "st" || valid0)) sim::violation("not_undone_" + w, how + ": " + d);
    } else {
      if (w == "i" && std::fabs(u->I() - want) > 1e-6 * std::max(1.0, std::fabs(want))) sim::violation("not_set_i", sim::strf("%s: the current is %.9g A instead of %.9g A", how.c_str(), u->I(), want));
      if (w == "v" && std::fabs(u->V() - want) > 1e-5) sim::violation("not_set_v", sim::strf("%s: the voltage is %.9g V instead of %.9g V", how.c_str(), u->V(), want));
      if (w == "soc" && dynamic_cast<Cell *>(u)->SOC() != want) sim::violation("not_set_soc", sim::strf("%s: the SOC is %.9g instead of %.9g", how.c_str(), dynamic_cast<Cell *>(u)->SOC(), want));
      if (w == "st") {
        std::vector<double> got;
        u->getStates(got);
        // the voltage of an SPM cell is derived from its other states
        for (size_t k = 0; k < vec.size(); k++)
          if (!same(got[k], vec[k], 1e-12)) {
            bool vcache = false;
            for (auto c : below)
              if (dynamic_cast<Cell_SPM *>(c)) {
                std::vector<double> x;
                c->getStates(x);
                auto off = std::search(got.begin(), got.end(), x.begin(), x.end()) - got.begin();
                vcache |= (long)k - off == (long)State_SPM::i_V;
              }
            if (!vcache) sim::violation("not_set_st", sim::strf("%s: state %zu is %.9g instead of %.9g", how.c_str(), k, got[k], vec[k]));
          }
      }
      // what is not below the unit did not change
      for (size_t i = 0; i < cells.size(); i++)
        if (std::find(below.begin(), below.end(), cells[i]) == below.end())
          for (size_t k = 0; k < before.st[i].size(); k++)
            if (!same(before.st[i][k], after.st[i][k], 1e-12)) sim::violation("others", sim::strf("%s changed cell %zu, which is not part of the unit", how.c_str(), i));
      // for a current or voltage nothing but currents changes
      if (w == "i" || w == "v")
        for (size_t i = 0; i < cells.size(); i++) {
          auto a = before.st[i], b = after.st[i];
          const bool spm = dynamic_cast<Cell_SPM *>(cells[i]) != nullptr;
          const size_t iI = spm ? (size_t)State_SPM::i_I : 2;
          for (size_t k = 0; k < a.size(); k++)
            if (k != iI && !(spm && k == (size_t)State_SPM::i_V) && !same(a[k], b[k], 1e-12)) sim::violation("others", sim::strf("%s changed state %zu of cell %zu", how.c_str(), k, i));
        }
    }
  }
  auto sn = snapshot(su.get());
  for (double d : sn) sim::observe_d(d);
  sim::sh->statehash = sim::mix(sim::sh->statehash, coarse(sn));
}
static RegProp r08("C08", gen, run);
