// C13 heat is conserved and temperatures stay consistent (built with the coupled thermal model, or with the model of single cells)
#include "ops.hpp"
#include "settings/constants.hpp"
using namespace world;

static void only_spm(Node &n, sim::Rng &r, char parent = 0)
{
  if (n.ch.empty()) {
    n.kind = 'K';
    n.at.clear();
    n.at["fc"] = sim::strf("%.4g", r.real(0.95, 1.05));
    n.at["fr"] = sim::strf("%.4g", r.real(0.9, 1.1));
  } else
    n.at["cc"] = std::to_string(r.range(1, 5));
  if (n.isModule() && n.ch.size() > 1 && parent != 'P' && r.chance(0.12)) {
    n.ch.resize(1);
    n.at.erase("rc");
  }
  if (n.kind == 'X') n.at["ns"] = n.at["np"] = "1";
  for (auto &c : n.ch) only_spm(c, r, n.kind);
}
static void gen(sim::Rng &r, Scn &s, bool thorough)
{
  PackCfg c;
  c.maxcells = r.chance(0.6) ? 5 : thorough ? 14 : 8;
  c.spm = true;
  c.kfrac = 1;
  c.battery = true;
  c.spread = 0;
  c.soc_lo = c.soc_hi = 0.5;
  c.var_cap = false;
  Node n = gen_pack(r, c);
  only_spm(n, r);
  if (r.chance(0.3)) age_models(n, r, true);
  s.add("pack").set("spec", n.text());
  s.add("cfg").set("par", r.chance(0.3) ? -1 : 0);
  const int nl = n.leaves();
  if (r.chance(0.3)) {
    const int k = (int)r.below(5);
    const char *w[] = { "step_throw", "step_throw_mid", "therm_throw", "therm_hot", "therm_throw" };
    s.add("tfault").set("cell", (int64_t)r.below(nl)).set("what", w[k]).set("at", r.range(0, thorough ? 30 : 12)).set("n", r.range(1, 2)).set("code", r.chance(0.5) ? 9 : r.range(2, 102));
  }
  const int nops = (int)r.range(3, thorough ? 40 : 16);
  for (int i = 0; i < nops; i++) {
    const int m = (int)r.below(20);
    if (m < 12) s.add("step").set("dt", r.chance(0.3) ? r.real(0.1, 5) : r.chance(0.2) ? r.real(0, 0.3) : (double)r.range(1, 4)).set("n", r.chance(0.1) ? 1 : r.chance(0.5) ? r.range(0, 5) : r.range(5, 40));
    else if (m < 16) s.add("seti").set("I", (r.chance(0.5) ? 1 : -1) * (r.chance(0.2) ? r.real(1, 2.5) : r.real(0.05, 1))).set("chk", 0);
    else if (m < 17) s.add("seti").set("I", 0.0).set("chk", 0);
    else if (m < 19) s.add("temp").set("node", (int64_t)r.below(30)).set("T", r.real(280, 320));
    else if (r.chance(0.4)) s.add("block").set("on", r.range(0, 1));
    else s.add("load");
  }
}

// ---------------------------------------------------------------- what every unit has seen so far
struct ThermFault {
  int at = -1, n = 0, code = 0, count = 0;
  bool hot = false, fired = false;
};
class HotCell : public Probe<Cell_SPM>
{
public:
  using Probe<Cell_SPM>::Probe;
  ThermFault tf;
  double thermalModel(int N, double T[], double K[], double A[], double tim) SIM_NX(Cell_SPM, thermalModel(1, T, K, A, 0.)) override
  {
    const int k = tf.count++;
    if (armed && tf.n > 0 && k >= tf.at && k < tf.at + tf.n) {
      tf.fired = true;
      fired++;
      sim::count_fault(sim::F_CHILD_THROW);
      if (!tf.hot) throw tf.code;
      // a neighbour which is far too hot
      double T2[1] = { 3000 }, K2[1] = { 1e6 }, A2[1] = { 1e6 };
      return Cell_SPM::thermalModel(1, T2, K2, A2, tim);
    }
    return Cell_SPM::thermalModel(N, T, K, A, tim);
  }
  HotCell *copy() override { return new HotCell(*this); }
};

struct Coolant { double evac, abs, time, T, C; };
struct NodeRec {
  StorageUnit *u = nullptr;
  int parent = -1;
  std::vector<int> ch;
  Cell_SPM *c = nullptr;
  Module *m = nullptr;
  Battery *b = nullptr;
  CoolSystem *cs = nullptr;
  CoolSystem_HVAC *hv = nullptr;
  std::vector<double> rc;
  double coolC = 0;
  // before the operation
  double T0, Q0, t0, evac0, abs0, time0, ac0, conv0, Iself, H0;
  std::vector<double> Ich;
  // what the operation did
  double handed = 0;
};

static double cellC(Cell_SPM &c)
{
  auto &st = c.getStateObj();
  const double elec = c.getAnodeSurface() / (st.an() * st.thickn());
  return 1626.0 * 750.0 * 1.685e-4 * elec;
}

static int collect(const Node &n, StorageUnit *su, int parent, std::vector<NodeRec> &v)
{
  const int me = (int)v.size();
  v.emplace_back();
  v[me].u = su;
  v[me].parent = parent;
  v[me].c = dynamic_cast<Cell_SPM *>(su);
  v[me].m = dynamic_cast<Module *>(su);
  v[me].b = dynamic_cast<Battery *>(su);
  if (v[me].m) {
    v[me].cs = v[me].m->getCoolSystem();
    auto it = n.at.find("rc");
    if (it != n.at.end()) {
      std::istringstream is(it->second);
      std::string x;
      while (std::getline(is, x, '/')) v[me].rc.push_back(strtod(x.c_str(), nullptr));
    }
    while (v[me].rc.size() < n.ch.size()) v[me].rc.push_back(v[me].rc.empty() ? 0 : v[me].rc.back());
    v[me].rc.resize(n.ch.size());
    for (size_t i = 0; i < n.ch.size(); i++) {
      int k = collect(n.ch[i], v[me].m->getSUs()[i].get(), me, v);
      v[me].ch.push_back(k);
    }
  }
  if (v[me].b) {
    v[me].cs = v[me].b->getCoolSystem();
    int k = collect(n.ch[0], v[me].b->getCells(), me, v);
    v[me].ch.push_back(k);
  }
  if (v[me].cs) v[me].hv = dynamic_cast<CoolSystem_HVAC *>(v[me].cs);
  return me;
}

static void run(const Scn &s)
{
  auto n = parse_node(s.get("pack").str("spec"));
  BuildOpt bo;
  bo.par = (int)s.get("cfg").i("par", 0);
  bo.block = false;
  bool step_fault = false; // cells fail in the electrical part
  bo.hot = [](const std::string &id, DEG_ID d, double fc, double fr, double fs, double fl) -> Cell_SPM * { return new HotCell(id, d, fc, fr, fs, fl); };
  auto su = build(n, bo);
  auto cells = leaves(su.get());
  for (auto l : s.all("tfault")) {
    auto h = dynamic_cast<HotCell *>(cells[l->u("cell") % cells.size()]);
    const auto w = l->str("what");
    if (w == "therm_throw" || w == "therm_hot") {
      h->tf.at = (int)l->i("at");
      h->tf.n = (int)l->i("n");
      h->tf.code = (int)l->i("code");
      h->tf.hot = w == "therm_hot";
    } else {
      CellFault f;
      f.what = w == "step_throw" ? CellFault::StepThrow : CellFault::StepThrowMid;
      f.at = l->i("at");
      f.n = l->i("n");
      f.code = (int)l->i("code");
      h->faults.push_back(f);
      step_fault = true;
    }
  }
  std::vector<NodeRec> N;
  collect(n, su.get(), -1, N);
  const double airC = 1.225 * 1.005e3;
  for (auto &x : N)
    if (x.m) x.coolC = airC * x.m->getNcells();
  OCVcurves curves = OCVcurves::makeOCVcurves(cellType::KokamNMC);
  bool blocked = false;
  bool clean = true; // nothing has failed so far
  int failures = 0;
  auto time_of = [&](Cell *c) { return c->getThroughputs().time(); };
  Cycler cy(su.get(), "A");
  ThroughputData th{};

  for (auto &l : s.lines) {
    if (l.kind != "block" && l.kind != "load" && l.kind != "step" && l.kind != "seti" && l.kind != "temp") continue;
    sim::set_label(l.text().c_str());
    if (l.kind == "block") {
      blocked = l.i("on");
      su->setBlockDegAndTherm(blocked);
      continue;
    }
    if (l.kind == "load") {
      double want = 0, tot = 0;
      for (auto &x : N)
        if (x.cs) want += x.cs->getEoperation();
      if (auto m = dynamic_cast<Module *>(su.get())) tot = m->getCoolingLoad();
      else if (auto b = dynamic_cast<Battery *>(su.get())) tot = b->getCoolingLoad();
      else
        continue;
      if (!(std::fabs(tot - want) <= 1e-9 * (1 + std::fabs(want)))) sim::violation("cooling_load", sim::strf("the cooling load is %.12g J but the cooling systems used %.12g J", tot, want));
      for (auto &x : N)
        if (x.cs && x.cs->getEoperation() != 0) sim::violation("cooling_load", "a cooling system still has energy to report after the cooling load was returned");
      continue;
    }
    if (l.kind != "step") {
      auto o = do_op(l, su.get(), cy, th);
      sim::observe(o.text());
      continue;
    }
    const double dt = l.num("dt"), t = dt * l.i("n");
    const int ns = (int)l.i("n");
    for (auto &x : N) {
      x.T0 = x.u->T();
      x.handed = 0;
      if (x.c) {
        x.Q0 = x.c->thermal_getTotalHeat();
        x.t0 = time_of(x.c);
      }
      if (x.cs) {
        x.evac0 = x.cs->getHeatEvac();
        x.abs0 = x.cs->getHeatabsorbed();
        x.time0 = x.cs->getTotalTime();
        x.H0 = x.cs->getH();
      }
      if (x.hv) x.ac0 = x.hv->getQcoolAC_tot();
      if (x.b) x.conv0 = x.b->getConvLosses_total();
      if (x.m) {
        x.Ich.clear();
        for (auto k : x.ch) x.Ich.push_back(N[k].u->I());
      }
    }
    // what every cell should generate: the same step without thermal model and ageing
    struct Gen { double Q; bool ok; };
    std::vector<Gen> want(N.size(), Gen{ 0, false });
    if (clean && !blocked)
      for (size_t i = 0; i < N.size(); i++)
        if (N[i].c) {
          Cell_SPM k(*N[i].c);
          k.setBlockDegAndTherm(true);
          auto o = call([&] { k.Cell_SPM::timeStep_CC(dt, ns); });
          double cp, cn;
          if (o.threw || !k.getCSurf(cp, cn, false)) continue;
          double dO = 0, ocv = 0, v = 0;
          o = call([&] {
            dO = curves.dOCV_tot.interp(cp / 51385, false, true);
            ocv = k.getOCV();
            v = k.V();
          });
          if (o.threw || v == 0) continue;
          want[i] = Gen{ t * (k.I() * (ocv - v) - k.I() * k.T() * dO), true };
        }

    auto o = call([&] { su->timeStep_CC(dt, ns); });
    sim::observe(o.text());
    for (auto c : cells)
      if (dynamic_cast<HotCell *>(c)->tf.fired && !o.threw) sim::violation("swallowed", "the thermal model of a cell failed but the time step was reported as successful");
    for (auto c : cells)
      if (!std::isfinite(c->T())) sim::violation("finite", "the temperature of a cell is not finite");
    if (o.threw) {
      // either injected, or a cell or coolant that really got too hot or whose current could not be solved
      if (!o.isint) sim::violation("error_kind", "a time step ended with " + o.text());
      clean = false;
      failures++;
      // a failing thermal model comes after the time step of every cell
      bool therm = false;
      for (auto c : cells) therm |= dynamic_cast<HotCell *>(c)->tf.fired;
      if (therm && !step_fault)
        for (auto &x : N)
          if (x.c && !(std::fabs(time_of(x.c) - x.t0 - t) <= 1e-9 * (time_of(x.c) + 1))) sim::violation("ahead", sim::strf("after the thermal model of one cell failed, cell %s simulated %.9g s of the step of %.9g s", x.c->getFullID().c_str(), time_of(x.c) - x.t0, t));
      for (auto c : cells) dynamic_cast<HotCell *>(c)->tf.fired = false;
      continue;
    }
    if (blocked || t == 0) {
      for (auto &x : N) {
        if (x.u->T() != x.T0) sim::violation("blocked", sim::strf("the temperature of %s changed from %.12g to %.12g although %s", x.u->getFullID().c_str(), x.T0, x.u->T(), blocked ? "the thermal model is blocked" : "no time has passed"));
      }
      continue;
    }
    sim::sh->simtime += t;
    // the cells are at the same time
    if (clean)
      for (auto &x : N)
        if (x.c && !(std::fabs(time_of(x.c) - x.t0 - t) <= 1e-9 * (time_of(x.c) + 1))) sim::violation("time", sim::strf("cell %s simulated %.9g s instead of %.9g", x.c->getFullID().c_str(), time_of(x.c) - x.t0, t));
    for (int i = (int)N.size() - 1; i >= 0; i--) {
      auto &x = N[i];
      const auto id = x.u->getFullID();
      if (x.c) {
        const double dQ = x.c->thermal_getTotalHeat() - x.Q0, C = cellC(*x.c), dT = x.c->T() - x.T0;
        x.handed = dQ - C * dT;
        if (!clean) continue;
        if (want[i].ok) {
          const double tol = 1e-7 * (std::fabs(want[i].Q) + std::fabs(x.c->I()) * t) + 1e-11 * std::fabs(x.Q0);
          if (!(std::fabs(dQ - want[i].Q) <= tol)) sim::violation("generated", sim::strf("cell %s generated %.12g J in %g s; its current, voltages and entropy change give %.12g J", id.c_str(), dQ, t, want[i].Q));
        }
        const bool single = settings::T_MODEL == 1 || x.parent < 0;
        if (single) {
          const double env = 45 * x.c->getThermalSurface() * (x.c->getTenv() - x.T0) * t, tol = 1e-9 * (std::fabs(dQ) + std::fabs(env) + C * 300);
          if (!(std::fabs(C * dT - dQ - env) <= tol)) sim::violation("single", sim::strf("cell %s: stored %.12g J, generated %.12g J, received %.12g J from the environment", id.c_str(), C * dT, dQ, env));
        }
        continue;
      }
      if (settings::T_MODEL == 1) {
        if (x.m && x.u->T() != x.T0) sim::violation("module_T", "without coupling the temperature of " + id + " changed");
        continue;
      }
      const double evac = x.cs->getHeatEvac() - x.evac0, abs = x.cs->getHeatabsorbed() - x.abs0, tt = x.cs->getTotalTime() - x.time0, dT = x.u->T() - x.T0;
      x.handed = evac - abs;
      double in = 0, mag = 0;
      for (auto k : x.ch) {
        in += N[k].handed;
        mag += std::fabs(N[k].handed);
        if (N[k].c) mag += cellC(*N[k].c) * 300 * 1e-3;
      }
      if (!clean) continue;
      const double scale = std::fabs(evac) + std::fabs(abs) + mag + 1e-3 * std::fabs(x.cs->getHeatEvac()) + 1e-3 * std::fabs(x.cs->getHeatabsorbed()) + 1e-2;
      // the totals of the cooling system
      if (!(std::fabs(tt - t) <= 1e-9 * (t + x.time0))) sim::violation("cool_time", sim::strf("the cooling system of %s counted %.9g s for a step of %.9g s", id.c_str(), tt, t));
      if (x.m) {
        const double tol = 1e-9 * (scale + x.coolC * 300);
        if (!(std::fabs(abs - x.coolC * dT) <= tol)) sim::violation("coolant", sim::strf("the coolant of %s absorbed %.12g J but its temperature rose by %.9g K (%.12g J)", id.c_str(), abs, dT, x.coolC * dT));
      }
      if (x.hv) {
        const double ac = x.hv->getQcoolAC_tot() - x.ac0;
        if (!(std::fabs(evac - ac - abs) <= 1e-9 * (scale + std::fabs(ac) + 1e-3 * x.hv->getQcoolAC_tot()))) sim::violation("hvac", sim::strf("%s took %.12g J from its children, %.12g J were removed by the air conditioning, %.12g J absorbed", id.c_str(), evac, ac, abs));
        if (ac < 0) sim::violation("hvac", "the air conditioning heats");
        // the heat capacity of a battery's coolant depends on its converter, but it is constant
        if (x.b && std::fabs(dT) > 1e-6 && std::fabs(abs) > 1e-2) {
          const double c = abs / dT, tolr = 1e-9 * (300 / std::fabs(dT)) + 1e-9 * scale / std::fabs(abs);
          if (tolr < 1e-4) {
            const double c0 = airC * (double)x.b->getNcells();
            if (c < c0 * (1 - 2 * tolr)) sim::violation("coolant", sim::strf("the coolant of %s has a heat capacity of %.9g J/K, that is less than that of its volume %.9g J/K", id.c_str(), c, c0));
            if (x.coolC == 0) x.coolC = c;
            if (std::fabs(c / x.coolC - 1) > 1e-3) sim::violation("coolant", sim::strf("the coolant of %s warmed up by %.9g K with %.9g J absorbed, earlier it took %.9g J/K", id.c_str(), dT, abs, x.coolC));
          }
        }
      }
      double own = 0;
      if (x.m) {
        auto *pm = dynamic_cast<Module_p *>(x.m);
        double I = 0;
        std::vector<double> through(x.Ich.size());
        for (int k = (int)x.Ich.size() - 1; k >= 0; k--) {
          I += x.Ich[k];
          through[k] = pm ? I : x.Ich[0];
        }
        for (size_t k = 0; k < x.Ich.size(); k++) own += x.rc[k] * through[k] * through[k] * t;
      } else
        own = x.b->getConvLosses_total() - x.conv0;
      // the converter losses are evaluated with the voltages just before and after the temperatures change
      const double tol = 1e-8 * scale + (x.b ? 1e-4 * std::fabs(own) : 1e-8 * own);
      if (!(std::fabs(evac - in - own) <= tol))
        sim::violation("balance", sim::strf("%s: its children gave off %.12g J, its %s %.12g J, but its coolant received %.12g J (difference %.6g)", id.c_str(), in, x.b ? "converter" : "contact resistances", own, evac, evac - in - own));
      sim::sh->nontrivial = 1;
    }
    clean = true; // every unit has been brought up to date
    for (auto &x : N) sim::observe_d(x.u->T());
  }
  // after a failure the pack can be used again within a bounded number of steps
  if (failures > 0) {
    set_armed(su.get(), false);
    for (auto c : cells) dynamic_cast<HotCell *>(c)->tf.n = 0;
    su->setBlockDegAndTherm(false);
    bool ok = false;
    Out o;
    // a state which the cells cannot leave by themselves (concentrations, temperatures out of range) is not judged
    auto okstate = [&] {
      for (auto &x : N) {
        const double T = x.u->T();
        if (!(T > 278 && T < 325)) return false;
        if (x.c) {
          double v = 0;
          auto p = call([&] { v = x.c->V(); });
          if (p.threw || v < 2.6 || v > 4.3) return false;
        }
      }
      return true;
    };
    call([&] { return su->setCurrent(0, false, false); });
    for (auto c : cells) call([&] { return c->setCurrent(0, false, false); });
    if (okstate()) {
      for (size_t k = 0; k < 2 * cells.size() + 4 && !ok; k++) {
        o = call([&] { su->timeStep_CC(2, 1); });
        ok = !o.threw;
      }
      if (!ok && okstate()) sim::violation("recovery", sim::strf("after a failed time step %zu further steps failed too, the last one with ", 2 * cells.size() + 4) + o.text());
    }
    sim::sh->nontrivial = 1;
  }
  sim::sh->statehash = coarse(snapshot(su.get()));
}
static RegProp r13("C13", gen, run);
