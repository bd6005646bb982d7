// C07 reported charge/energy/time = what was simulated, C09 Kirchhoff, C10 test steps stop for the reason they report
#include "proxy.hpp"
using namespace world;

// ------------------------------------------------------------------------------------ generator
static double rnd_frac(sim::Rng &r) { return r.chance(0.25) ? (r.chance(0.5) ? 1.0 : 0.0) : r.chance(0.15) ? r.real(-0.3, 1.3) : r.real(0.1, 0.95); }
static void gen_cyc_ops(sim::Rng &r, Scn &s, int n, int leaves, bool faults, bool pokes, bool thorough)
{
  const double tmax = thorough ? 900 : 250;
  auto nd = [&] { return r.chance(0.5) ? 0 : r.range(1, 6); };
  for (int i = 0; i < n; i++) {
    const int k = (int)r.below(20);
    const double dt = r.chance(0.3) ? r.real(0.3, 7) : (double)r.range(1, 5);
    const double t = r.chance(0.05) ? 0 : r.chance(0.15) ? dt * r.real(0.1, 1.2) : r.chance(0.3) ? r.real(1, tmax) : (double)r.range(2, (int)tmax);
    const double I = r.chance(0.06) ? 0 : (r.chance(0.5) ? 1 : -1) * (r.chance(0.15) ? r.real(1, 6) : r.real(0.05, 1.2));
    if (k < 5) s.add("cc").set("I", I).set("v", rnd_frac(r)).set("t", t).set("dt", dt).set("nd", nd());
    else if (k < 8) s.add("cv").set("v", r.chance(0.1) ? rnd_frac(r) : r.real(0.15, 0.9)).set("il", r.chance(0.15) ? 0.0 : r.real(0.005, 0.5)).set("t", std::min(t, 120.0)).set("dt", dt).set("nd", nd());
    else if (k < 11) s.add("cccv").set("I", I).set("v", r.chance(0.2) ? rnd_frac(r) : r.real(0.15, 0.9)).set("il", r.chance(0.1) ? 0.0 : r.real(0.005, 0.5)).set("t", t).set("dt", dt).set("nd", nd());
    else if (k < 13) s.add("rest").set("t", t).set("dt", dt).set("nd", nd());
    else if (k < 14) s.add("diag").set("on", r.range(0, 1));
    else if (k < 16) s.add("seti").set("I", I).set("chk", r.range(0, 1));
    else if (k < 17) s.add("setv").set("v", r.real(0.05, 0.95));
    else if (k < 18) s.add("step").set("dt", dt).set("n", r.range(1, 5));
    else if (k < 19 && thorough && r.chance(0.3)) s.add("cccvinf").set("I", r.real(0.3, 1.5)).set("v", r.real(0.2, 0.9)).set("il", r.real(0.05, 0.3)).set("dt", (double)r.range(5, 30)).set("nd", 0);
    else if (pokes && r.chance(0.6)) {
      const char *w[] = { "soc", "cur", "step", "states" };
      s.add("poke").set("cell", (int64_t)r.below(leaves)).set("what", w[r.below(4)]).set("x", r.unit());
    } else
      s.add("store");
  }
  if (faults) {
    const int m = r.chance(0.7) ? 1 : 2;
    for (int i = 0; i < m; i++) {
      const char *w[] = { "step_throw", "step_throw", "step_throw_mid", "seti_bad", "seti_bad", "step_throw_std", "seti_throw" };
      auto what = w[r.below(7)];
      const bool st = std::string(what).substr(0, 4) == "step";
      s.add("cellfault").set("cell", (int64_t)r.below(leaves)).set("what", what).set("at", (int64_t)std::floor(std::pow(10, r.real(0, st ? 2.2 : 3.2)) - 1)).set("n", r.chance(0.7) ? 1 : r.chance(0.5) ? r.range(2, 30) : -1).set("code", st ? r.range(1, 120) : r.range(7, 12));
    }
  }
}
static PackCfg cyc_pack(sim::Rng &r, bool thorough)
{
  PackCfg c;
  c.maxcells = r.chance(0.4) ? 3 : thorough ? 14 : 7;
  c.spm = r.chance(0.25);
  c.battery = true;
  c.spread = r.chance(0.3) ? 0.06 : 0.02;
  c.soc_lo = r.chance(0.3) ? 0.03 : 0.25;
  c.soc_hi = r.chance(0.3) ? 0.97 : 0.75;
  return c;
}
static void gen_cyc(sim::Rng &r, Scn &s, bool thorough, double pfault, double ppoke)
{
  Node n = gen_pack(r, cyc_pack(r, thorough));
  s.add("pack").set("spec", n.text());
  gen_cyc_ops(r, s, (int)r.range(2, thorough ? 12 : 7), n.leaves(), r.chance(pfault), r.chance(ppoke), thorough);
}

// ------------------------------------------------------------------------------------ runner
struct Ctx {
  Node n;
  Deep_ptr<StorageUnit> su;
  std::vector<Cell *> cells;
  std::unique_ptr<ProxySU> px;
  Cycler cyc;
  ThroughputData th{};
  bool diag = false;
  bool consistent = false; // the pack obeys Kirchhoff's laws since the last event
  size_t ev0 = 0;          // first event of this operation
  bool faults = false;
  bool lasting = false; // a fault may hit the recovery from another one
  // a refused current is undone, unless the refusal was an exception or undoing it can fail too
  void refused(const Ev &e) { if (e.threw || lasting) consistent = false; }
};
static bool is_item(const Line &l)
{
  return l.kind == "prop" || l.kind == "pack" || l.kind == "sched" || l.kind == "cfg" || l.kind == "plan" || l.kind == "preempt" || l.kind == "cellfault";
}
static Out cyc_op(const Line &l, Ctx &c)
{
  if (l.kind == "diag") {
    c.diag = l.i("on");
    c.cyc.setDiagnostic(c.diag);
    return Out{};
  }
  if (l.kind == "cccvinf") {
    const double cap = c.px->Cap(), V = c.px->Vmin() + l.num("v") * (c.px->Vmax() - c.px->Vmin());
    return call([&] { return c.cyc.CCCV(l.num("I") * cap, V, l.num("il") * cap, l.num("dt"), 0, c.th); });
  }
  if (l.kind == "poke") {
    auto cell = c.cells[l.u("cell") % c.cells.size()];
    const double x = l.num("x");
    auto w = l.str("what");
    c.consistent = false;
    return call([&] {
      if (w == "soc") cell->setSOC(0.1 + 0.8 * x, false, false);
      else if (w == "cur") cell->setCurrent((x - 0.5) * 16, false, false);
      else if (w == "step") cell->timeStep_CC(1 + std::floor(10 * x), 1);
      else {
        std::vector<double> st;
        cell->getStates(st);
        std::span<double> sp{ st };
        cell->setCurrent((x - 0.5) * 8, false, false);
        cell->setStates(sp, false, false);
      }
    });
  }
  return do_op(l, c.px.get(), c.cyc, c.th);
}
static void setup(Ctx &c, const Scn &s)
{
  c.n = parse_node(s.get("pack").str("spec"));
  BuildOpt bo;
  bo.par = 0;
  c.su = build(c.n, bo);
  c.cells = leaves(c.su.get());
  c.px = std::make_unique<ProxySU>(c.su.get());
  c.cyc = Cycler(c.px.get(), "A");
  c.faults = !s.all("cellfault").empty();
  for (auto l : s.all("cellfault")) c.lasting |= l->str("what").substr(0, 4) == "seti";
  arm_cell_faults(s, c.su.get());
}
static double vset(const Line &l, Ctx &c) { return c.px->Vmin() + l.num("v") * (c.px->Vmax() - c.px->Vmin()); }
static bool is_step_op(const Line &l) { return l.kind == "cc" || l.kind == "cv" || l.kind == "cccv" || l.kind == "cccvinf" || l.kind == "rest"; }
static double cell_cap(const Node &leaf) { return leaf.kind == 'K' ? 16 * leaf.num("fc", 1) : leaf.num("cap", 16); }
static void node_leaves(const Node &n, std::vector<const Node *> &v)
{
  if (n.ch.empty() && !n.isModule()) v.push_back(&n);
  for (auto &c : n.ch) node_leaves(c, v);
}
static void finish(Ctx &c)
{
  auto sn = snapshot(c.su.get());
  for (double d : sn) sim::observe_d(d);
  for (double d : c.th) sim::observe_d(d);
  sim::sh->statehash = sim::mix(sim::sh->statehash, coarse(sn));
  for (auto x : c.cells) sim::sh->simtime = std::max(sim::sh->simtime, probe(x)->dtsum);
}

// ------------------------------------------------------------------------------------ C07
static void gen07(sim::Rng &r, Scn &s, bool thorough) { gen_cyc(r, s, thorough, 0.25, 0.15); }

// signed charge of a node from the recorded steps of its cells; children of a series node must agree
static double charge(const Node &n, const std::vector<double> &q, size_t &i, double tol, std::string &err)
{
  if (!n.isModule() && n.kind != 'X') return q[i++];
  if (n.kind == 'X') return charge(n.ch[0], q, i, tol, err) * std::floor(n.num("np", 1));
  double sum = 0, first = 0;
  for (size_t k = 0; k < n.ch.size(); k++) {
    double c = charge(n.ch[k], q, i, tol, err);
    if (k == 0) first = c;
    else if (n.kind == 'S' && std::fabs(c - first) > tol && err.empty()) err = sim::strf("two units in series carried %.9g and %.9g As", first, c);
    sum += c;
  }
  return n.kind == 'S' ? first : sum;
}
static void run07(const Scn &s)
{
  Ctx c;
  setup(c, s);
  std::vector<const Node *> ln;
  node_leaves(c.n, ln);
  const size_t N = c.cells.size();
  for (auto x : c.cells) probe(x)->rec_flow = true;
  for (auto &l : s.lines) {
    if (is_item(l)) continue;
    sim::set_label(l.text().c_str());
    c.ev0 = c.px->ev.size();
    const ThroughputData th0 = c.th;
    struct S0 { ThroughputData t; double soc; ProbeBase p; };
    struct F { double time, q, ah, lo, hi; ThroughputData t; double soc; Lithium li; double lli; };
    std::vector<F> f0;
    for (auto x : c.cells) {
      auto p = probe(x);
      f0.push_back({ p->f_time, p->f_q, p->f_ah, p->f_wh_lo, p->f_wh_hi, x->getThroughputs(), x->SOC() });
      if (auto k = dynamic_cast<Cell_SPM *>(x)) f0.back().li = lithium(*k), f0.back().lli = k->getStateObj().LLI();
    }
    auto o = cyc_op(l, c);
    sim::observe(&o.st, 1);
    // what was simulated between the cycler and the pack
    double T = 0, Ah = 0, lo = 0, hi = 0, Q = 0;
    bool vok = true, stepfail = false, conserv = true, first = true;
    for (size_t i = c.ev0; i < c.px->ev.size(); i++) {
      auto &e = c.px->ev[i];
      if (e.k == Ev::SetI || e.k == Ev::SetV) {
        if (e.threw || isStatusFailed(e.st)) { if (first) conserv = false; c.refused(e); }
        else if (e.k == Ev::SetI) c.consistent = true;
      }
      if (e.k != Ev::Step) continue;
      first = false;
      if (e.threw) { stepfail = true; continue; }
      if (!c.consistent) conserv = false;
      const double d = e.a * e.n, q = std::fabs(e.I0) * d / 3600;
      T += d;
      Ah += q;
      Q += e.I0 * d;
      vok &= e.vok;
      const double m = 0.25 * std::fabs(e.V1 - e.V0) + 1e-5 * std::fabs(e.V1) + 1e-6;
      lo += q * (std::min(e.V0, e.V1) - m);
      hi += q * (std::max(e.V0, e.V1) + m);
    }
    if (stepfail) c.consistent = false;
    if (is_step_op(l)) {
      const double dT = c.th.time() - th0.time(), dA = c.th.Ah() - th0.Ah(), dW = c.th.Wh() - th0.Wh();
      auto how = l.text() + " (" + o.text() + ")";
      // an exception out of a test step while it sets a current or reads the voltage: the last step may not be accounted for
      const double tl = 1e-7 * std::max(1.0, T) + 1e-10 * std::fabs(c.th.time());
      if (std::fabs(dT - T) > tl) sim::violation("time", sim::strf("'%s' reports %.9g s, %.9g s were simulated", how.c_str(), dT, T));
      if (std::fabs(dA - Ah) > 2e-6 * Ah + 1e-10 * (1 + c.th.Ah())) sim::violation("charge", sim::strf("'%s' reports %.9g Ah, %.9g Ah passed", how.c_str(), dA, Ah));
      if (vok && !o.threw && o.st != Status::V_not_calculated && (dW < lo - 2e-6 * std::fabs(lo) - 1e-10 * (1 + c.th.Wh()) || dW > hi + 2e-6 * std::fabs(hi) + 1e-10 * (1 + c.th.Wh()))) sim::violation("energy", sim::strf("'%s' reports %.9g Wh, the energy was between %.9g and %.9g Wh", how.c_str(), dW, lo, hi));
      if (T > 0) sim::sh->nontrivial = 1;
    } else if (l.kind != "diag" && !(c.th == th0))
      sim::violation("time", "'" + l.text() + "' changed the throughput of the test steps");
    // the cells' own counters
    std::vector<double> q;
    bool cells_ok = true;
    for (size_t i = 0; i < N; i++) {
      auto p = probe(c.cells[i]);
      auto t = c.cells[i]->getThroughputs();
      if (p->f_Ichanged) sim::violation("current", sim::strf("a constant-current time step changed the current of cell %zu", i));
      if (p->f_broken) { cells_ok = false; q.push_back(0); continue; }
      const double ft = p->f_time - f0[i].time, fq = p->f_q - f0[i].q, fa = p->f_ah - f0[i].ah;
      q.push_back(fq);
      if (std::fabs(t.time() - f0[i].t.time() - ft) > 1e-7 * std::max(1.0, t.time())) sim::violation("cell_time", sim::strf("'%s': cell %zu counts %.9g s, %.9g s were simulated", l.text().c_str(), i, t.time() - f0[i].t.time(), ft));
      if (std::fabs(t.Ah() - f0[i].t.Ah() - fa) > 1e-7 * fa + 1e-10 * (1 + t.Ah())) sim::violation("cell_charge", sim::strf("'%s': cell %zu counts %.9g Ah, it carried %.9g Ah", l.text().c_str(), i, t.Ah() - f0[i].t.Ah(), fa));
      const double dW = t.Wh() - f0[i].t.Wh();
      if (dW < p->f_wh_lo - f0[i].lo - 1e-9 * (1 + t.Wh()) || dW > p->f_wh_hi - f0[i].hi + 1e-9 * (1 + t.Wh())) sim::violation("cell_energy", sim::strf("'%s': cell %zu counts %.9g Wh, the energy was between %.9g and %.9g Wh", l.text().c_str(), i, dW, p->f_wh_lo - f0[i].lo, p->f_wh_hi - f0[i].hi));
      if (l.kind != "poke") {
        const double ds = c.cells[i]->SOC() - f0[i].soc, want = -fq / 3600 / cell_cap(*ln[i]);
        if (std::fabs(ds - want) > 1e-7 * std::fabs(want) + 1e-11) sim::violation("soc", sim::strf("'%s': the SOC of cell %zu changed by %.12g, its charge says %.12g", l.text().c_str(), i, ds, want));
        if (auto k = dynamic_cast<Cell_SPM *>(c.cells[i])) { // and so does the lithium in its electrodes
          const auto li = lithium(*k);
          const auto &l0 = f0[i].li;
          const double dl = k->getStateObj().LLI() - f0[i].lli, tol = 1e-9 * (std::fabs(fq) + l0.p + l0.n);
          if (li.geo == l0.geo && (std::fabs(li.p - l0.p - fq) > tol || std::fabs(li.n - l0.n + fq + dl) > tol))
            sim::violation("lithium", sim::strf("'%s': the lithium in the electrodes of cell %zu changed by %.12g and %.12g C, its charge is %.12g C, it lost %.12g C", l.text().c_str(), i, li.p - l0.p, li.n - l0.n, fq, dl));
        }
        if (!stepfail && std::fabs(ft - T) > 1e-7 * std::max(1.0, T)) sim::violation("cell_time", sim::strf("'%s': cell %zu was advanced %.9g s, the pack %.9g s", l.text().c_str(), i, ft, T));
      }
    }
    if (cells_ok && conserv && !stepfail && l.kind != "poke" && T > 0) {
      size_t i = 0;
      std::string err;
      double tot = 0;
      for (double x : q) tot += std::fabs(x);
      const double tol = 1e-6 * (tot + Ah * 3600) + 1e-6 * T + 1e-9;
      const double root = charge(c.n, q, i, tol, err);
      if (err.empty() && std::fabs(root - Q) > tol) err = sim::strf("the pack passed %.9g As, its cells together %.9g As", Q, root);
      if (!err.empty()) sim::violation("conservation", "'" + l.text() + "': " + err);
    }
  }
  finish(c);
}
static RegProp r07("C07", gen07, run07);

// ------------------------------------------------------------------------------------ C09
static void gen09(sim::Rng &r, Scn &s, bool thorough) { gen_cyc(r, s, thorough, 0.2, 0.4); }

// voltage and current of every module follow from those of its children (always);
// equal currents in series, equal terminal voltages in parallel (if the pack is consistent)
static void kirchhoff(const Node &n, StorageUnit *su, bool consistent, const std::string &when)
{
  if (!n.isModule() && n.kind != 'X') return;
  auto rd = [&](StorageUnit *u) { double v = -1; try { v = u->V(); } catch (...) {} return v; };
  if (n.kind == 'X') {
    auto b = dynamic_cast<Battery *>(su);
    auto m = b->getCells();
    kirchhoff(n.ch[0], m, consistent, when);
    const double ns = std::floor(n.num("ns", 1)), np = std::floor(n.num("np", 1)), V = rd(su), v = rd(m);
    if (v > 0 && std::fabs(V - ns * v) > 1e-9 * V) sim::violation("battery", sim::strf("%s: battery voltage %.12g, its %g modules have %.12g", when.c_str(), V, ns, v));
    if (std::fabs(su->I() - np * m->I()) > 1e-9 * (1 + std::fabs(su->I()))) sim::violation("battery", when + ": battery current differs from that of its modules");
    return;
  }
  auto m = dynamic_cast<Module *>(su);
  auto &ch = m->getSUs();
  auto rc = rcontacts(n);
  const size_t N = ch.size();
  std::vector<double> v(N), i(N);
  for (size_t k = 0; k < N; k++) kirchhoff(n.ch[k], ch[k].get(), consistent, when);
  // read the module first: it must not need its children to be read before
  const double V = rd(su), I = su->I();
  bool ok = V > 0;
  double sumI = 0, scale = 0;
  for (size_t k = 0; k < N; k++) {
    v[k] = rd(ch[k].get());
    i[k] = ch[k]->I();
    ok &= v[k] > 0;
    sumI += i[k];
    scale += std::fabs(i[k]);
  }
  if (n.kind == 'S') {
    double sum = 0;
    for (size_t k = 0; k < N; k++) sum += v[k] - rc[k] * i[k];
    if (ok && std::fabs(V - sum) > 1e-8 * N + 1e-9 * V) sim::violation("series_v", sim::strf("%s: a series module reads %.12g V, the sum of its children is %.12g V", when.c_str(), V, sum));
    if (consistent)
      for (size_t k = 0; k < N; k++)
        if (std::fabs(i[k] - I) > 1e-6 * std::max(1.0, std::fabs(I))) sim::violation("series_i", sim::strf("%s: child %zu of a series module carries %.9g A, the module %.9g A", when.c_str(), k, i[k], I));
  } else {
    if (ok && std::fabs(V - (v[0] - rc[0] * sumI)) > 1e-8 + 1e-9 * V) sim::violation("parallel_v", sim::strf("%s: a parallel module reads %.12g V, its first child says %.12g V", when.c_str(), V, v[0] - rc[0] * sumI));
    if (std::fabs(I - sumI) > 1e-9 * (1 + scale)) sim::violation("parallel_i", sim::strf("%s: a parallel module reads %.12g A, its children sum up to %.12g A", when.c_str(), I, sumI));
    if (consistent && ok) {
      double drop = 0, behind = sumI, lo = 1e9, hi = -1e9;
      for (size_t k = 0; k < N; k++) {
        drop += rc[k] * behind;
        behind -= i[k];
        lo = std::min(lo, v[k] - drop);
        hi = std::max(hi, v[k] - drop);
      }
      if (hi - lo > 1e-6) sim::violation("parallel_eq", sim::strf("%s: the terminal voltages of the children of a parallel module differ by %.3g V", when.c_str(), hi - lo));
    }
  }
}
static void cells_reflect_state(Ctx &c, const std::vector<const Node *> &ln, const std::string &when)
{
  for (size_t k = 0; k < c.cells.size(); k++) {
    auto x = c.cells[k];
    if (probe(x)->f_broken) continue;
    double v = -1, w = -1;
    try { v = x->V(); } catch (...) {}
    std::vector<double> st;
    x->getStates(st);
    BuildOpt bo;
    bo.probes = false;
    auto twin = build(*ln[k], bo);
    std::span<double> sp{ st };
    try {
      auto stt = twin->setStates(sp, false, true);
      if (getenv("SIM_VERBOSE")) fprintf(stderr, "twin %zu %d\n", k, (int)stt);
      if (!isStatusBad(stt)) w = twin->V(); // the states may not be valid ones, a test step does not check that
    } catch (...) {}
    if (v > 0 && w > 0 && std::fabs(v - w) > 1e-7) sim::violation("cell_v", sim::strf("%s: cell %zu reads %.12g V, an identical cell in the same state %.12g V", when.c_str(), k, v, w));
  }
}
static void run09(const Scn &s)
{
  Ctx c;
  setup(c, s);
  std::vector<const Node *> ln;
  node_leaves(c.n, ln);
  std::string label;
  c.px->on_ev = [&](const Ev &e) {
    c.px->arm = false;
    set_armed(c.su.get(), false);
    const bool good = !e.threw && e.st == Status::Success;
    if (e.k == Ev::SetI) {
      if (good) {
        c.consistent = true;
        if (std::fabs(e.I1 - e.a) > 1e-6 * std::max(1.0, std::fabs(e.a))) sim::violation("requested", sim::strf("'%s': a current of %.9g A was accepted but the unit has %.9g A", label.c_str(), e.a, e.I1));
      } else if (e.threw || isStatusFailed(e.st))
        c.refused(e);
    } else if (e.k == Ev::SetV) {
      if (e.threw || isStatusFailed(e.st)) c.refused(e);
      if (good && e.vok && std::fabs(e.V1 - e.a) > 1e-5) sim::violation("requested", sim::strf("'%s': a voltage of %.9g V was accepted but the unit has %.9g V", label.c_str(), e.a, e.V1));
    } else {
      if (e.threw) c.consistent = false;
      else if (c.consistent && std::fabs(e.I1 - e.I0) > 1e-6 * std::max(1.0, std::fabs(e.I0)))
        sim::violation("total", sim::strf("'%s': a time step changed the current of the pack from %.9g to %.9g A", label.c_str(), e.I0, e.I1));
    }
    kirchhoff(c.n, c.su.get(), c.consistent && good, label);
    if (good && c.cells.size() > 1) sim::sh->nontrivial = 1;
    c.px->arm = true;
    set_armed(c.su.get(), true);
  };
  for (auto &l : s.lines) {
    if (is_item(l)) continue;
    label = l.text();
    sim::set_label(label.c_str());
    auto o = cyc_op(l, c);
    sim::observe(&o.st, 1);
    set_armed(c.su.get(), false);
    kirchhoff(c.n, c.su.get(), false, "after '" + label + "'");
    cells_reflect_state(c, ln, "after '" + label + "'");
    set_armed(c.su.get(), true);
  }
  finish(c);
}
static RegProp r09("C09", gen09, run09);

// ------------------------------------------------------------------------------------ C10
static void gen10(sim::Rng &r, Scn &s, bool thorough)
{
  gen_cyc(r, s, thorough, 0.45, 0);
  for (auto &l : s.lines)
    if ((l.kind == "cc" || l.kind == "cv" || l.kind == "cccv") && r.chance(0.35)) l.set("edge", r.chance(0.3) ? 0.0 : r.real(-1.1, 1.1));
  // failures of the voltage itself
  if (r.chance(0.1)) s.add("cellfault").set("cell", (int64_t)r.below(12)).set("what", r.chance(0.5) ? "v_zero" : "v_throw").set("at", (int64_t)std::floor(std::pow(10, r.real(0, 3)))).set("n", r.chance(0.5) ? 1 : r.range(2, 50)).set("code", 1);
}
static bool success_like(const Out &o) { return !o.threw && (int)o.st <= 0; }

static void check_step(const Line &l, const Out &o, Ctx &c, bool vfaults)
{
  const auto &k = l.kind;
  std::vector<Ev> ev(c.px->ev.begin() + c.ev0, c.px->ev.end());
  const auto how = "'" + l.text() + "' ended with " + o.text();
  const double dt = l.num("dt", 1), tlim = k == "cccvinf" ? 1e12 : l.num("t");
  double T = 0;
  int64_t nst = 0;
  std::vector<const Ev *> steps;
  const Ev *failed = nullptr;
  for (size_t i = 0; i < ev.size(); i++) {
    auto &e = ev[i];
    if (e.k == Ev::Step) {
      nst++;
      steps.push_back(&e);
      if (!e.threw) T += e.a * e.n;
      if (e.n < 1 || !(e.a >= 0) || e.a > dt * (1 + 1e-9)) sim::violation("step_size", sim::strf("%s: a time step of %d x %g s was made, %g s were requested", how.c_str(), e.n, e.a, dt));
    }
    if (e.threw) failed = failed ? failed : &e;
    else if (e.k != Ev::Step && (int)e.st >= (int)Status::V_not_calculated) {
      const bool restore = i > 0 && ev[i - 1].k != Ev::Step && ev[i - 1].st != Status::Success; // undoing a refused current
      const bool last_rest = k == "rest" && i + 1 == ev.size() && e.a == 0;
      const bool ccpart = (k == "cccv" || k == "cccvinf") && e.k == Ev::SetI && i > 0; // the voltage phase follows
      if (!restore && !last_rest && !ccpart) failed = failed ? failed : &e;
    }
  }
  // bounded, within the time limit
  if (k != "cccvinf") {
    if (T > tlim + 1e-6 * std::max(1.0, tlim)) sim::violation("too_long", sim::strf("%s: %.9g s were simulated, the limit is %.9g s", how.c_str(), T, tlim));
    if (nst > std::ceil(tlim / dt) + 3) sim::violation("unbounded", sim::strf("%s after %ld time steps, %g s of %g s were asked for", how.c_str(), (long)nst, tlim, dt));
    if ((int64_t)ev.size() > 8 * (std::ceil(tlim / dt) + 3) + 10) sim::violation("unbounded", sim::strf("%s after %zu operations on the unit", how.c_str(), ev.size()));
  }
  // a failure inside the step
  if (failed && success_like(o)) sim::violation("swallowed", sim::strf("%s although %s failed inside (%s)", how.c_str(), failed->k == Ev::Step ? "a time step" : failed->k == Ev::SetI ? "setting the current" : "setting the voltage", failed->threw ? "exception" : getStatusMessage(failed->st)));
  if (k != "cccv" && k != "cccvinf" && failed && failed->k == Ev::Step && steps.back() != failed) sim::violation("went_on", how + ": the test step went on after a time step had failed");
  // the voltage cannot be determined any more
  if (c.px->v_bad && (k == "cc" || k == "cv" || k == "cccv") && !(T == 0 && o.st == Status::ReachedTimeLimit)) {
    if (success_like(o)) sim::violation("swallowed", how + " although the voltage could not be determined");
    int64_t after = 0;
    for (size_t i = c.px->v_bad_ev; i < c.px->ev.size(); i++) after += c.px->ev[i].k == Ev::Step;
    if (after > 2) sim::violation("went_on", how + sim::strf(" after %ld time steps since the voltage could not be determined any more", (long)after));
  }
  if (o.threw || vfaults) return;
  // the status is true
  bool vok = true;
  double V = c.px->readV(vok);
  const double I = c.px->I(), eps = 1e-6;
  const bool cccv = k == "cccv" || k == "cccvinf";
  const double Vs = vset(l, c), cap = c.px->Cap(), Il = l.num("il") * cap;
  if (o.st == Status::Invalid_Vset) {
    if (T > 0) sim::violation("advanced", how + sim::strf(" after %g s were simulated", T));
    if (!cccv || (Vs >= c.px->Vmin() && Vs <= c.px->Vmax())) sim::violation("untrue", how + sim::strf(" but %.9g V is a valid voltage", Vs));
  } else if (cccv && (Vs < c.px->Vmin() - 1e-9 || Vs > c.px->Vmax() + 1e-9))
    sim::violation("invalid_vset", how + " although the set voltage is outside the limits of the unit");
  if (o.st == Status::Success || o.st == Status::SafeVoltage) sim::violation("untrue", how + ", which is no reason to stop");
  if (o.st == Status::ReachedTimeLimit && k != "cccvinf" && std::fabs(T - std::max(0.0, tlim)) > 1e-6 * std::max(1.0, tlim)) sim::violation("untrue", sim::strf("%s but %.9g s of %.9g s were simulated", how.c_str(), T, tlim));
  if (o.st == Status::ReachedVoltageLimit && vok) {
    if (k != "cc") sim::violation("untrue", how);
    const double Ir = l.num("I");
    if (Ir == 0 || (Ir < 0 && V < Vs - eps) || (Ir > 0 && V > Vs + eps)) sim::violation("untrue", sim::strf("%s but the voltage is %.9g V and the limit %.9g V", how.c_str(), V, Vs));
  }
  if (k == "cc" && l.num("I") != 0) {
    const double Ir = l.num("I");
    auto past = [&](double v) { return Ir < 0 ? v > Vs + eps : v < Vs - eps; };
    // the limit was passed as soon as the current was set: there is nothing to simulate
    for (auto &e : ev)
      if (e.k == Ev::SetI && !e.threw && e.vok && std::fabs(e.a - Ir * cap) <= 1e-9 * std::max(1.0, std::fabs(Ir * cap))) {
        if (!steps.empty() && past(e.V1)) sim::violation("overshoot", sim::strf("%s: the voltage limit of %.9g V was passed (%.9g V) when the current was set, but time steps were simulated", how.c_str(), Vs, e.V1));
        break;
      }
    for (size_t i = 0; i + 1 < steps.size(); i++)
      if (steps[i]->vok && past(steps[i]->V1)) sim::violation("overshoot", sim::strf("%s: the voltage limit of %.9g V was passed (%.9g V) but the step went on", how.c_str(), Vs, steps[i]->V1));
    if (!steps.empty() && !steps.back()->threw && steps.back()->vok && past(steps.back()->V1)) {
      if (steps.back()->n > 2) sim::violation("overshoot", sim::strf("%s: the voltage limit was passed in a jump of %d time steps", how.c_str(), steps.back()->n));
      if (o.st != Status::ReachedVoltageLimit && o.st != Status::ReachedTimeLimit && success_like(o)) sim::violation("untrue", how + " but the voltage limit has been reached");
    }
    for (auto e : steps)
      if (!e->threw && std::fabs(e->I0 - Ir * cap) > 1e-6 * std::max(1.0, std::fabs(Ir * cap))) sim::violation("wrong_current", sim::strf("%s: a time step was made with %.9g A instead of %.9g A", how.c_str(), e->I0, Ir * cap));
  }
  if (k == "rest")
    for (auto e : steps)
      if (!e->threw && std::fabs(e->I0) > 1e-6) sim::violation("wrong_current", sim::strf("%s: a time step was made with %.9g A", how.c_str(), e->I0));
  auto atV = [&](double v, double e) { return std::fabs(v - Vs) < 0.01 + e || std::fabs(v - Vs) / Vs < 0.001 + e; };
  if (o.st == Status::ReachedCurrentLimit) {
    if (k == "cc" || k == "rest") sim::violation("untrue", how);
    if (vok && (!(std::fabs(I) < Il + 1e-6 * std::max(1.0, Il)) || !atV(V, 1e-6))) sim::violation("untrue", sim::strf("%s but the current is %.9g A (limit %.9g A) at %.9g V (set %.9g V)", how.c_str(), I, Il, V, Vs));
  }
  if (o.st == Status::ReachedSmallCurrent) {
    if (k == "cc" || k == "rest") sim::violation("untrue", how);
    if (std::fabs(I) > std::max(Il / 10, 1e-6) + 1e-6) sim::violation("untrue", sim::strf("%s but the current is %.9g A", how.c_str(), I));
  }
  if (k == "cv")
    for (size_t i = 0; i + 1 < steps.size(); i++)
      if (steps[i]->vok && std::fabs(steps[i]->I1) < Il - 1e-6 && atV(steps[i]->V1, -1e-6)) sim::violation("overshoot", sim::strf("%s: the current limit of %.9g A was reached (%.9g A) but the step went on", how.c_str(), Il, steps[i]->I1));
  if (cccv && o.st != Status::Invalid_Vset && !steps.empty() && ev[0].k == Ev::SetI && ev[0].a == 0 && ev[0].st == Status::Success && ev[0].vok && ev.size() > 1 && ev[1].k == Ev::SetI && std::fabs(ev[0].V1 - Vs) > 1e-6) {
    if (ev[1].a != 0 && (ev[1].a > 0) != (ev[0].V1 > Vs)) sim::violation("direction", sim::strf("%s: %s from %.9g V to reach %.9g V", how.c_str(), ev[1].a > 0 ? "discharged" : "charged", ev[0].V1, Vs));
    if (std::fabs(std::fabs(ev[1].a) - std::fabs(l.num("I")) * cap) > 1e-6 * cap) sim::violation("wrong_current", how + ": the current phase uses another current");
  }
  if (o.st == Status::timeStep_CC_failed && (steps.empty() || !steps.back()->threw)) sim::violation("untrue", how + " but no time step failed");
  const bool refused = !ev.empty() && ev.back().k != Ev::Step && ev.back().st == o.st; // the voltage at a current which was not set
  if (o.st == Status::V_not_calculated && vok && T > 0 && !c.faults && !refused) sim::violation("untrue", sim::strf("%s but the voltage is %.9g V", how.c_str(), V));
  if (vok && o.st == Status::VMINsafety_violation && V > 0.99 * c.px->VMIN() + eps) sim::violation("untrue", sim::strf("%s but the voltage is %.9g V", how.c_str(), V));
  if (vok && o.st == Status::VMAXsafety_violation && V < 1.01 * c.px->VMAX() - eps) sim::violation("untrue", sim::strf("%s but the voltage is %.9g V", how.c_str(), V));
  if (!c.faults && vok && k == "cc" && T > 0 && (int)o.st >= 1 && (int)o.st <= 4) {
    // found by the checks after a time step: some unit of the pack is outside its limits
    std::vector<StorageUnit *> un;
    all_nodes(c.su.get(), un);
    bool f = false;
    for (auto u : un) {
      double v = u->V();
      f |= o.st == Status::Vmin_violation ? v < u->Vmin() : o.st == Status::Vmax_violation ? v > u->Vmax() : o.st == Status::VMIN_violation ? v < u->VMIN() : v > u->VMAX();
    }
    if (!f) sim::violation("untrue", how + " but every unit is within its limits");
  }
}
static void run10(const Scn &s)
{
  Ctx c;
  setup(c, s);
  bool vf = false;
  for (auto l : s.all("cellfault")) vf |= l->str("what")[0] == 'v';
  for (auto &l0 : s.lines) {
    if (is_item(l0)) continue;
    sim::set_label(l0.text().c_str());
    c.ev0 = c.px->ev.size();
    c.px->v_bad = 0;
    Line l = l0;
    if (l.has("edge")) { // put the time limit next to the moment at which the step would end anyway
      set_armed(c.su.get(), false);
      Deep_ptr<StorageUnit> twin(c.su->copy());
      Cycler cy(twin.get(), "E");
      cy.setDiagnostic(c.diag);
      ThroughputData th{};
      do_op(l, twin.get(), cy, th);
      set_armed(c.su.get(), true);
      if (th.time() > 0) l.set("t", std::max(0.0, th.time() + l.num("edge") * l.num("dt", 1)));
    }
    auto o = cyc_op(l, c);
    set_armed(c.su.get(), false);
    c.px->arm = false;
    int64_t fired = 0;
    for (auto x : c.cells) fired += probe(x)->fired;
    c.faults = fired > 0; // from here on the pack may be in an unusual state
    if (is_step_op(l)) {
      check_step(l, o, c, vf);
      sim::sh->nontrivial = 1;
    }
    sim::observe(&o.st, 1);
    c.px->arm = true;
    set_armed(c.su.get(), true);
  }
  finish(c);
}
static RegProp r10("C10", gen10, run10);
