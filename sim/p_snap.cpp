// C11 snapshots, copies and capacity tests are exact and isolated
#include "ops.hpp"
using namespace world;

static void gen(sim::Rng &r, Scn &s, bool thorough)
{
  const char *modes[] = { "copy", "copy", "same", "fresh", "cap" };
  const std::string mode = modes[r.below(5)];
  PackCfg c;
  c.maxcells = r.chance(0.4) ? 3 : thorough ? 12 : 7;
  if (mode == "cap") c.maxcells = 3;
  c.spm = r.chance(0.5);
  c.battery = true;
  c.spread = 0.02;
  c.soc_lo = r.chance(0.2) ? 0.05 : 0.25;
  c.soc_hi = r.chance(0.2) ? 0.95 : 0.75;
  const bool full = mode == "cap" && r.chance(0.15);
  if (full) { c.maxdepth = 0; c.kfrac = 0.7; c.battery = false; }
  Node n = gen_pack(r, c);
  const bool block = r.chance(0.5);
  if (!block) age_models(n, r, mode == "copy"); // the stress history of some models is not part of the states
  s.add("pack").set("spec", n.text());
  const bool hf = r.chance(0.25);
  const bool probes = hf || mode == "cap" || r.chance(0.5);
  s.add("cfg").set("mode", mode).set("block", (int)block).set("probes", (int)probes).set("max", r.chance(0.5) ? 100000 : r.range(2, 60)).set("order", r.range(0, 3)).set("poison", r.chance(0.3) ? r.range(0, 255) : -1).set("warm", r.range(0, 1));
  if (mode == "copy" && r.chance(0.3)) s.add("cut").set("back", 1); // copy of a copy
  gen_unit_ops(r, s, (int)r.range(0, thorough ? 8 : 5), 0, thorough);
  // a full charge (the SOC may then exceed 1)
  if (full) s.add("cccv").set("I", -1.0).set("v", 1.0).set("il", 0.01).set("t", 12000.0).set("dt", 5.0).set("nd", 0).set("ph", 0);
  gen_unit_ops(r, s, (int)r.range(1, thorough ? 8 : 5), 1, thorough);
  const int L = n.leaves();
  if (hf) s.add("cellfault").set("cell", (int64_t)r.below(L)).set("what", r.chance(0.5) ? "step_throw_mid" : "seti_bad").set("at", (int64_t)std::floor(std::pow(10, r.real(0, 2)) - 1)).set("n", r.range(1, 3)).set("code", 8);
  if (mode == "cap" && !(thorough ? r.chance(0.1) : r.chance(0.01))) {
    const char *w[] = { "step_throw", "step_throw_mid", "step_throw_std", "seti_bad", "seti_throw" };
    s.add("capfault").set("cell", (int64_t)r.below(L)).set("what", w[r.below(5)]).set("at", (int64_t)std::floor(std::pow(10, r.real(0, 3)) - 1)).set("n", r.chance(0.6) ? 1 : r.range(2, 5)).set("code", 9);
  }
}

struct Rec {
  Out o;
  std::vector<double> v;
};
static std::vector<double> snap(StorageUnit *su, const ThroughputData &th)
{
  auto v = snapshot(su);
  for (double d : th) v.push_back(d);
  return v;
}
static Rec one(const Line &l, StorageUnit *su, Cycler &cy, ThroughputData &th)
{
  Rec r;
  r.o = do_op(l, su, cy, th);
  r.v = snap(su, th);
  return r;
}
static std::string cmp(const Rec &a, const Rec &b)
{
  if (!(a.o == b.o)) return "ended with " + b.o.text() + " instead of " + a.o.text();
  return diff(a.v, b.v);
}
static std::map<std::string, std::string> logs(const std::string &pfx)
{
  std::map<std::string, std::string> m;
  for (auto &f : sim::fs_list()) {
    auto p = f.find("/results/" + pfx + "_");
    if (p != std::string::npos) m[f.substr(p + 10 + pfx.size())] = sim::fs_read(f);
  }
  return m;
}
static bool all_valid(StorageUnit *su)
{
  bool v = su->validStates(false);
  for (auto c : leaves(su)) v = v && c->validStates(false);
  return v;
}

static void run(const Scn &s)
{
  auto n = parse_node(s.get("pack").str("spec"));
  const auto &cf = s.get("cfg");
  const auto mode = cf.str("mode");
  BuildOpt bo;
  bo.par = 0;
  bo.block = cf.i("block", 1);
  bo.probes = cf.i("probes", 1);
  slide::settings::CELL_NDATA_MAX = (size_t)cf.i("max", 100000);
  auto su = build(n, bo);
  if (bo.probes) arm_cell_faults(s, su.get());
  Cycler h(su.get(), "H");
  ThroughputData hth{};
  std::vector<const Line *> cont;
  for (auto &l : s.lines) {
    if (!l.has("ph")) continue;
    if (l.i("ph") == 1) {
      cont.push_back(&l);
      continue;
    }
    sim::set_label(l.text().c_str());
    auto o = do_op(l, su.get(), h, hth);
    sim::observe(o.text());
  }
  sim::sh->simtime += hth.time();
  set_armed(su.get(), false);
  sim::sh->nontrivial = !cont.empty();
  const bool warm = cf.i("warm", 1); // else the copy is made with whatever has not been computed yet
  if (warm) snapshot(su.get());

  if (mode == "copy") {
    Deep_ptr<StorageUnit> b(su.get()->copy());
    if (s.find("cut")) b = Deep_ptr<StorageUnit>(b.get()->copy());
    ThroughputData ta{}, tb{};
    auto a0 = snap(su.get(), ta), b0 = snap(b.get(), tb);
    if (auto d = diff(a0, b0); !d.empty()) sim::violation("copy", "a copy differs from its original: " + d);
    const int order = (int)cf.i("order");
    const int poison = (int)cf.i("poison", -1);
    std::vector<Rec> ra, rb;
    Cycler ca(su.get(), "A"), cb(b.get(), "B");
    auto runA = [&](const Line &l) { sim::set_label(("original: " + l.text()).c_str()); ra.push_back(one(l, su.get(), ca, ta)); };
    auto runB = [&](const Line &l) { sim::set_label(("copy: " + l.text()).c_str()); rb.push_back(one(l, b.get(), cb, tb)); };
    auto flush = [&](StorageUnit *u, const char *p) { call([&] { u->writeData(p); return Status::Success; }); };
    auto isolated = [&](const char *who, const std::vector<double> &x0, StorageUnit *u, const ThroughputData &t) {
      if (auto d = diff(x0, snap(u, t)); !d.empty()) sim::violation("isolation", std::string("using ") + who + " changed the other: " + d);
    };
    if (order == 0) { // original first, then it is destroyed
      for (auto l : cont) {
        runA(*l);
        isolated("the original", b0, b.get(), tb);
      }
      flush(su.get(), "A");
      if (poison >= 0) {
        sim::count_fault(sim::F_MEMFILL);
        sim::alloc_fill(poison);
        su.reset();
      }
      for (auto l : cont) runB(*l);
      flush(b.get(), "B");
    } else if (order == 1) { // copy first
      for (auto l : cont) {
        runB(*l);
        isolated("the copy", a0, su.get(), ta);
      }
      flush(b.get(), "B");
      if (poison >= 0) {
        sim::count_fault(sim::F_MEMFILL);
        sim::alloc_fill(poison);
        b.reset();
      }
      for (auto l : cont) runA(*l);
      flush(su.get(), "A");
    } else { // in turns
      for (auto l : cont) {
        if (order == 2) runA(*l), runB(*l);
        else
          runB(*l), runA(*l);
        auto xa = snap(su.get(), ta), xb = snap(b.get(), tb);
        if (auto d = diff(xa, xb); !d.empty()) sim::violation("copy_continues", "'" + l->text() + "': the copy differs from its original: " + d);
      }
      flush(su.get(), "A");
      flush(b.get(), "B");
    }
    for (size_t i = 0; i < cont.size(); i++)
      if (auto d = cmp(ra[i], rb[i]); !d.empty()) sim::violation("copy_continues", "'" + cont[i]->text() + "' on a copy: " + d);
    auto la = logs("A"), lb = logs("B");
    if (la != lb) {
      std::string f = "?";
      for (auto &[k, v] : la)
        if (!lb.count(k) || lb[k] != v) f = k;
      for (auto &[k, v] : lb)
        if (!la.count(k)) f = k;
      sim::violation("copy_logs", "the data written by the copy differ from those of its original: " + f);
    }
    for (auto &x : ra)
      for (double d : x.v) sim::observe_d(d);
    sim::sh->statehash = sim::mix(sim::sh->statehash, coarse(ra.empty() ? a0 : ra.back().v));
    return;
  }

  if (mode == "cap") {
    Deep_ptr<StorageUnit> ref(su.get()->copy());
    ThroughputData t0{}, t1{};
    auto before = snap(ref.get(), t0);
    auto cells = leaves(su.get());
    if (auto f = s.find("capfault")) {
      Scn sc;
      Line l = *f;
      l.kind = "cellfault";
      sc.lines.push_back(l);
      for (auto c : cells) {
        auto p = probe(c);
        p->faults.clear();
        p->n_step = p->n_setI = p->n_V = p->n_setS = 0;
      }
      set_armed(su.get(), true);
      arm_cell_faults(sc, su.get());
    }
    Cycler cy(su.get(), "C");
    double ah = 0, tt = 0, cap = 0;
    sim::set_label("capacity test");
    auto o = call([&] { cap = cy.testCapacity(ah, tt); return Status::Success; });
    set_armed(su.get(), false);
    sim::sh->simtime += tt;
    auto after = snap(su.get(), t0);
    const auto how = sim::strf("a capacity test (%s, %.6g Ah)", o.threw ? o.text().c_str() : cap > 0 ? "successful" : "failed", cap);
    if (auto d = diff(before, after); !d.empty()) sim::violation("capacity", how + " changed the unit: " + d);
    Cycler c1(su.get(), "A"), c0(ref.get(), "B");
    for (auto l : cont) {
      sim::set_label(l->text().c_str());
      auto x0 = one(*l, ref.get(), c0, t0), x1 = one(*l, su.get(), c1, t1);
      if (auto d = cmp(x0, x1); !d.empty()) sim::violation("capacity_continues", "'" + l->text() + "' after " + how + ": " + d);
    }
    for (double d : after) sim::observe_d(d);
    sim::observe_d(cap);
    sim::sh->statehash = sim::mix(sim::sh->statehash, coarse(after) + (uint64_t)(cap * 1000));
    return;
  }

  // states into the same or an identically built unit
  if (!all_valid(su.get())) return;
  std::vector<double> saved;
  su->getStates(saved);
  if (saved.empty()) sim::violation("states", "a unit has no states");
  ThroughputData t0{}, t1{};
  auto before = snap(su.get(), t0);
  std::vector<Rec> r0;
  Cycler c0(su.get(), "A");
  for (auto l : cont) {
    sim::set_label(l->text().c_str());
    r0.push_back(one(*l, su.get(), c0, t0));
  }
  Deep_ptr<StorageUnit> fresh;
  StorageUnit *u = su.get();
  if (mode == "fresh") {
    if (cf.i("poison", -1) >= 0) {
      sim::count_fault(sim::F_MEMFILL);
      sim::alloc_fill((int)cf.i("poison"));
    }
    fresh = build(n, bo);
    set_armed(fresh.get(), false);
    u = fresh.get();
  }
  auto sv = saved;
  std::span<double> sp{ sv };
  auto o = call([&] { return u->setStates(sp, cf.i("order") & 1, false); });
  if (o.threw || (isStatusBad(o.st) && !(cf.i("order") & 1))) sim::violation("restore", "saved states could not be set: " + o.text());
  if (isStatusBad(o.st)) return; // the saved state is outside the voltage limits
  std::vector<double> got;
  u->getStates(got);
  auto b1 = snap(u, t1);
  if (auto d = diff(before, b1); !d.empty()) sim::violation("restore", "after setting the saved states: " + d);
  Cycler c1(u, "B");
  for (size_t i = 0; i < cont.size(); i++) {
    sim::set_label(("restored: " + cont[i]->text()).c_str());
    auto x = one(*cont[i], u, c1, t1);
    if (auto d = cmp(r0[i], x); !d.empty()) sim::violation("restore_continues", "'" + cont[i]->text() + "' from restored states: " + d);
    for (double dd : x.v) sim::observe_d(dd);
  }
  sim::sh->statehash = sim::mix(sim::sh->statehash, coarse(r0.empty() ? before : r0.back().v));
}
static RegProp r11("C11", gen, run);
