// C01 parallel stepping == sequential stepping, C02 failing workers
#include "ops.hpp"
using namespace world;

static void gen_ops(sim::Rng &r, Scn &s, int n, bool logs)
{
  for (int i = 0; i < n; i++) {
    int k = (int)r.below(10);
    if (r.chance(0.3)) s.add("cores").set("n", r.chance(0.15) ? 0 : r.range(1, 9));
    if (k < 3) s.add("step").set("dt", r.chance(0.2) ? std::floor(r.real(0, 20)) : (double)r.range(1, 5)).set("n", r.range(1, 4));
    else if (k < 5) s.add("seti").set("I", r.real(-0.5, 0.5));
    else if (k < 7) s.add("cc").set("I", (r.chance(0.5) ? 1 : -1) * r.real(0.1, 1)).set("v", r.chance(0.7) ? (r.chance(0.5) ? 0.95 : 0.05) : r.real(0.3, 0.7)).set("t", (double)r.range(3, 25)).set("dt", (double)r.range(1, 3)).set("nd", r.range(0, 3));
    else if (k < 8) s.add("cv").set("v", r.real(0.3, 0.7)).set("il", 0.05).set("t", (double)r.range(2, 10)).set("dt", (double)r.range(1, 2)).set("nd", r.range(0, 2));
    else if (k < 9) s.add("rest").set("t", (double)r.range(2, 30)).set("dt", (double)r.range(1, 3)).set("nd", r.range(0, 3));
    else if (logs) s.add(r.chance(0.5) ? "store" : "flush");
    else s.add("step").set("dt", 2).set("n", 1);
  }
}

static void gen01(sim::Rng &r, Scn &s, bool thorough)
{
  PackCfg c;
  c.maxcells = thorough ? 24 : 10;
  const bool age = r.chance(0.3);
  c.spm = age || r.chance(0.2);
  if (age) c.kfrac = 0.7;
  c.battery = true;
  c.leaf_only_ok = false;
  if (age && !thorough) c.maxcells = 7;
  Node n = gen_pack(r, c);
  (n.kind == 'X' ? n.ch[0] : n).at["par"] = "1";
  const bool block = !age && r.chance(0.5);
  if (!block) age_models(n, r, true);
  s.add("pack").set("spec", n.text()).set("block", block ? 1 : 0);
  gen_ops(r, s, (int)r.range(2, thorough ? 14 : 7), true);
  s.add("sched").set("seed", r.next() >> 1).set("gap", std::floor(std::pow(10, r.real(0.3, 4)))).set("cores", r.chance(0.1) ? 0 : r.range(1, 8));
}

static void run01(const Scn &s)
{
  Node n = parse_node(s.get("pack").str("spec"));
  struct Rec { Out o; std::vector<double> snap; };
  std::vector<Rec> recs[2];
  std::vector<std::vector<std::pair<double, int>>> steps[2];
  std::vector<std::string> files[2];
  uint64_t creates0 = 0;
  double simt = 0;
  bool failed = false;
  for (int run = 0; run < 2; run++) {
    BuildOpt bo;
    bo.par = run == 0 ? 0 : -1;
    bo.block = s.get("pack").i("block", 1);
    auto su = build(n, bo);
    auto cells = leaves(su.get());
    for (auto c : cells) probe(c)->rec_steps = true;
    Cycler cyc(su.get(), run == 0 ? "A" : "B");
    ThroughputData th{};
    creates0 = sim::sh->creates;
    sim::set_cores((int)s.get("sched").i("cores", 4));
    for (auto &l : s.lines) {
      if (l.kind == "cores") { sim::set_cores((int)l.i("n")); sim::count_fault(sim::F_CORES); continue; }
      if (l.kind == "prop" || l.kind == "pack" || l.kind == "sched" || l.kind == "plan" || l.kind == "preempt") continue;
      sim::set_label(((run ? "parallel: " : "sequential: ") + l.text()).c_str());
      Rec rc;
      rc.o = do_op(l, su.get(), cyc, th);
      if (sim::live_threads() != 0) sim::violation("thread_left", sim::strf("%d worker thread(s) not joined when the call returned", sim::live_threads()));
      rc.snap = snapshot(su.get());
      rc.snap.insert(rc.snap.end(), th.begin(), th.end());
      recs[run].push_back(rc);
      if (run == 1) {
        size_t k = recs[1].size() - 1;
        auto &a = recs[0][k];
        auto broke = [](const Out &o) { return o.threw || o.st == Status::timeStep_CC_failed; };
        if (broke(a.o) && broke(rc.o)) { failed = true; break; } // a failed step: what each child did is C02's subject
        if (!(a.o == rc.o)) sim::violation("outcome", "multithreaded run: " + rc.o.text() + ", sequential run: " + a.o.text());
        auto d = diff(a.snap, rc.snap);
        if (!d.empty()) sim::violation("state", "multithreaded stepping gives another state than sequential stepping: " + d);
      }
    }
    for (auto c : cells) steps[run].push_back(probe(c)->steps);
    for (auto c : cells) simt = std::max(simt, probe(c)->dtsum);
    if (failed) break;
    call([&] { cyc.writeData(); });
    for (auto c : cells) files[run].push_back(sim::fs_read(cell_log_name(run == 0 ? "A" : "B", c)));
  }
  for (size_t i = 0; i < steps[0].size() && !failed; i++)
    if (steps[0][i] != steps[1][i]) sim::violation("steps", sim::strf("cell %zu: the multithreaded pack made %zu time steps, the sequential one %zu (or of other length)", i, steps[1][i].size(), steps[0][i].size()));
  for (size_t i = 0; i < files[0].size() && !failed; i++)
    if (files[0][i] != files[1][i]) sim::violation("data", sim::strf("cell %zu: stored data points differ between multithreaded and sequential stepping", i));
  for (auto &r : recs[1]) {
    for (double d : r.snap) sim::observe_d(d);
    sim::sh->statehash = sim::mix(sim::sh->statehash, coarse(r.snap));
  }
  sim::sh->simtime = simt;
  sim::sh->nontrivial = sim::sh->creates > creates0;
}
static RegProp r01("C01", gen01, run01);

// ------------------------------------------------------------------------------------ C02
static void gen02(sim::Rng &r, Scn &s, bool thorough)
{
  PackCfg c;
  c.maxcells = thorough ? 20 : 9;
  c.battery = true;
  c.leaf_only_ok = false;
  c.spread = 0.01;
  c.soc_lo = 0.4; c.soc_hi = 0.6;
  const bool age = r.chance(0.12);
  if (age) c.kfrac = 0.7, c.maxcells = 6;
  Node n = gen_pack(r, c);
  (n.kind == 'X' ? n.ch[0] : n).at["par"] = "1";
  if (age) age_models(n, r, true);
  s.add("pack").set("spec", n.text()).set("block", age ? 0 : 1);
  int nops = (int)r.range(1, 4), leaves = n.leaves();
  int kind = (int)r.below(5); // 0,1 child fault, 2 thread creation, 3 both, 4 allocation
  if (kind == 0 || kind == 1 || kind == 3) {
    int k = r.chance(0.25) ? 2 : 1;
    for (int i = 0; i < k; i++) {
      const char *w[] = { "step_throw", "step_throw", "step_throw_std", "step_throw_mid" };
      s.add("cellfault").set("cell", (int64_t)r.below(leaves)).set("what", w[r.below(4)]).set("at", r.range(0, 5)).set("n", r.chance(0.8) ? 1 : -1).set("code", r.range(1, 120));
    }
  }
  if (kind == 2 || kind == 3) s.add("threadfault").set("at", r.range(0, 12)).set("n", r.chance(0.6) ? 1 : r.chance(0.5) ? r.range(2, 6) : -1);
  if (kind == 4) s.add("allocfault").set("at", r.range(0, 60));
  for (int i = 0; i < nops; i++) {
    int k = (int)r.below(6);
    if (k < 4) s.add("step").set("dt", (double)r.range(1, 4)).set("n", r.range(1, 3));
    else if (k < 5) s.add("cc").set("I", r.real(-0.5, 0.5)).set("v", r.chance(0.5) ? 0.98 : 0.02).set("t", (double)r.range(3, 8)).set("dt", 1).set("nd", 0);
    else s.add("rest").set("t", (double)r.range(2, 8)).set("dt", 1).set("nd", 0);
  }
  s.add("sched").set("seed", r.next() >> 1).set("gap", std::floor(std::pow(10, r.real(0.3, 3.5)))).set("cores", r.range(1, 8));
}

static void run02(const Scn &s)
{
  Node n = parse_node(s.get("pack").str("spec"));
  BuildOpt bo;
  bo.block = s.get("pack").i("block", 1);
  auto su = build(n, bo);
  auto cells = leaves(su.get());
  for (auto c : cells) probe(c)->rec_steps = true;
  Cycler cyc(su.get(), "A");
  ThroughputData th{};
  // settle the currents so that the healthy pack can be stepped
  auto o0 = call([&] { return su->setCurrent(0, false, false); });
  if (o0.threw || isStatusBad(o0.st)) { sim::sh->res = sim::Res::Skip; return; }
  // a healthy pack can be stepped?  (reference, sequentially)
  {
    BuildOpt b2;
    b2.par = 0;
    b2.block = bo.block;
    auto ref = build(n, b2);
    call([&] { return ref->setCurrent(0, false, false); });
    Cycler c2(ref.get(), "R");
    ThroughputData t2{};
    for (auto &l : s.lines)
      if (l.kind == "step" || l.kind == "cc" || l.kind == "rest") {
        auto o = do_op(l, ref.get(), c2, t2);
        if (o.threw || (l.kind == "cc" && isStatusBad(o.st))) { sim::sh->res = sim::Res::Skip; return; }
      }
  }
  arm_cell_faults(s, su.get());
  if (auto l = s.find("threadfault")) sim::arm_thread_fault(l->i("at"), (int)l->i("n", 1));
  if (auto l = s.find("allocfault")) { sim::alloc_enable(true); sim::alloc_arm(l->i("at")); }
  auto fired = [&] { int64_t f = 0; for (auto c : cells) f += probe(c)->fired; return f; };
  for (auto &l : s.lines) {
    if (l.kind != "step" && l.kind != "cc" && l.kind != "rest") continue;
    sim::set_label(l.text().c_str());
    auto f0 = fired();
    auto tf0 = sim::sh->fault_n[sim::F_THREAD];
    bool af0 = sim::alloc_fired();
    std::vector<int64_t> e0, s0;
    bool std_fault = false;
    {
      sim::AllocOff ao;
      for (auto c : cells) { e0.push_back(probe(c)->entered); s0.push_back(probe(c)->stepped); }
    }
    auto o = do_op(l, su.get(), cyc, th);
    sim::AllocOff ao;
    const bool child = fired() > f0, thr = sim::sh->fault_n[sim::F_THREAD] > tf0, al = sim::alloc_fired() && !af0;
    for (auto &x : s.all("cellfault")) std_fault |= x->str("what") == "step_throw_std";
    if (child || thr || al) sim::sh->nontrivial = 1;
    if (sim::live_threads() != 0) sim::violation("thread_left", sim::strf("%d worker thread(s) still exist when the call returned", sim::live_threads()));
    if (l.kind == "step") {
      const int64_t want = l.i("n", 1);
      if (child && !o.threw) sim::violation("not_reported", "a child failed during the step but the step reported success");
      bool all = true;
      for (size_t i = 0; i < cells.size(); i++) {
        auto p = probe(cells[i]);
        if (p->entered - e0[i] > 1) sim::violation("advanced_twice", sim::strf("cell %zu was advanced %ld times by one step", i, (long)(p->entered - e0[i])));
        if (p->stepped - s0[i] != want) all = false;
      }
      if (!o.threw && !all) sim::violation("not_advanced", std::string("the step reported success but some cell was not advanced") + (thr ? " (a worker thread could not be started)" : ""));
      if (o.threw && !child && !thr && !al) sim::violation("spurious", "a step failed although nothing went wrong: " + o.text());
    } else if (l.kind == "cc") {
      if (child && !std_fault && !(o.threw == false && o.st == Status::timeStep_CC_failed)) sim::violation("cc_status", "a failing child during a constant-current phase gave " + o.text() + " instead of its failed-step status");
      if (child && !o.threw && (isStatusSuccessful(o.st) || isCCLimitReached(o.st))) sim::violation("cc_status", "a failing child during a constant-current phase gave " + o.text());
    } else {
      if (child && !o.threw && !isStatusBad(o.st)) sim::violation("rest_status", "a failing child during a rest gave " + o.text());
    }
  }
  // the cause is gone: the pack can be stepped again
  sim::set_label("stepping again after the fault");
  set_armed(su.get(), false);
  sim::arm_thread_fault(-1, 0);
  sim::alloc_enable(false);
  std::vector<int64_t> s0;
  for (auto c : cells) s0.push_back(probe(c)->stepped);
  auto ob = call([&] { return su->setCurrent(0, false, false); });
  auto o = call([&] { su->timeStep_CC(1, 2); });
  if (o.threw) sim::violation("not_recovered", "after the cause was gone the pack could not be stepped: " + o.text());
  for (size_t i = 0; i < cells.size(); i++)
    if (probe(cells[i])->stepped - s0[i] != 2) sim::violation("not_recovered", sim::strf("after the cause was gone cell %zu was advanced %ld instead of 2 steps", i, (long)(probe(cells[i])->stepped - s0[i])));
  auto sn = snapshot(su.get());
  for (double d : sn) sim::observe_d(d);
  sim::sh->statehash = coarse(sn);
  for (auto c : cells) sim::sh->simtime = std::max(sim::sh->simtime, probe(c)->dtsum);
}
static RegProp r02("C02", gen02, run02);
