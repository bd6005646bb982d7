// C15 running out of memory at any point is reported and harmless
#include "ops.hpp"
#include <unistd.h>
#include <sys/wait.h>
using namespace world;

static void gen(sim::Rng &r, Scn &s, bool thorough)
{
  if (r.chance(0.12)) { // the very first cell of a process: shared data are read from files
    s.add("cfg").set("mode", "cold").set("kind", r.range(0, 2)).set("pos", r.unit()).set("sei", r.range(0, 4));
    return;
  }
  PackCfg c;
  c.maxcells = r.chance(0.4) ? 3 : thorough ? 12 : 7;
  c.spm = r.chance(0.4);
  c.battery = true;
  c.spread = 0.02;
  c.soc_lo = r.chance(0.2) ? 0.05 : 0.25;
  c.soc_hi = r.chance(0.2) ? 0.95 : 0.75;
  Node n = gen_pack(r, c);
  const bool block = r.chance(0.6);
  if (!block) age_models(n, r, true);
  s.add("pack").set("spec", n.text());
  s.add("cfg").set("mode", "op").set("block", (int)block).set("max", r.chance(0.3) ? 100000 : r.range(1, 40)).set("par", r.chance(0.4) ? -1 : 0);
  const int nops = (int)r.range(2, thorough ? 12 : 8);
  for (int i = 0; i < nops; i++) {
    const int k = (int)r.below(12);
    if (k < 6) gen_unit_ops(r, s, 1, 0, false, 60);
    else if (k < 7) s.add("copy").set("ph", 0);
    else if (k < 8) s.add("states").set("ph", 0);
    else if (k < 9) s.add("flush").set("ph", 0);
    else if (k < 10) s.add("store").set("ph", 0);
    else if (k < 11) s.add("seti").set("I", r.real(-1, 1)).set("chk", r.range(0, 1)).set("ph", 0);
    else s.add("step").set("dt", r.real(0.3, 4)).set("n", r.range(1, 6)).set("ph", 0);
    if (r.chance(0.5)) s.lines.back().set("al", r.unit()).set("again", r.chance(0.25) ? r.range(2, 4) : 1);
  }
}

static void check_logs(const std::string &after, const std::vector<Cell *> &cells, bool all)
{
  for (size_t i = 0; i < cells.size(); i++) {
    auto p = probe(cells[i]);
    Log L = parse_log(sim::fs_read(cell_log_name("A", cells[i])));
    if (!L.torn.empty()) sim::violation("line", sim::strf("after '%s' the log of cell %zu has a line which is not one data point: '%s'", after.c_str(), i, L.torn[0].substr(0, 100).c_str()));
    if (L.rows.size() > p->rows.size()) sim::violation("twice", sim::strf("after '%s' the log of cell %zu has %zu data points but %zu were stored", after.c_str(), i, L.rows.size(), p->rows.size()));
    for (size_t k = 0; k < L.rows.size(); k++)
      if (!row_matches(L.rows[k], p->rows[k])) {
        auto &x = p->rows[k];
        auto &r = L.rows[k];
        sim::violation("content", sim::strf("after '%s' data point %zu of cell %zu in the log is %g,%g,%g,%g,%g,%g,%g but %g,%g,%g,%g,%g,%g,%g was stored", after.c_str(), k, i, r[0], r[1], r[2], r[3], r[4], r[5], r[6], x.I, x.V, x.SOC, x.T, x.time, x.Ah, x.Wh));
      }
    if (all && L.rows.size() != p->rows.size()) sim::violation("missing", sim::strf("after '%s' %zu of the %zu data points stored for cell %zu are not in its log", after.c_str(), p->rows.size() - L.rows.size(), p->rows.size(), i));
  }
}

static Out op_on(const Line &l, StorageUnit *su, Cycler &cy, ThroughputData &th, Deep_ptr<StorageUnit> *cp)
{
  if (l.kind == "copy") return call([&] { Deep_ptr<StorageUnit> c(su->copy()); if (cp) *cp = std::move(c); return Status::Success; });
  if (l.kind == "states") return call([&] { // read the states and set them again
    std::vector<double> v;
    su->getStates(v);
    std::span<double> sp{ v };
    return su->setStates(sp, false, false); });
  return do_op(l, su, cy, th);
}

static void cold(const Scn &s)
{
  const auto &cf = s.get("cfg");
  const int kind = (int)cf.i("kind");
  DEG_ID d;
  if (cf.i("sei")) d.SEI_id.add_model((DEG_ID::data_t)cf.i("sei"));
  std::vector<double> sn;
  auto make = [&] {
    std::unique_ptr<StorageUnit> u;
    auto o = call([&] {
      if (kind == 0) u = std::make_unique<Cell_SPM>();
      else if (kind == 1) u = std::make_unique<Cell_SPM>("c0", d, 1, 1, 1, 1);
      else u = std::make_unique<Cell_ECM<2>>();
      return Status::Success; });
    sim::AllocOff off;
    sn = o.threw || !u ? std::vector<double>{} : snapshot(u.get());
    if (u) { // and its behaviour
      u->setCurrent(1, false, false);
      u->timeStep_CC(1, 3);
      auto s2 = snapshot(u.get());
      sn.insert(sn.end(), s2.begin(), s2.end());
    }
    return o;
  };
  // a process with enough memory
  int fd[2];
  if (pipe(fd)) sim::harness_error("pipe");
  pid_t pid = fork();
  if (pid == 0) {
    sim::alloc_enable(true);
    sim::alloc_arm(-1);
    auto o = make();
    uint64_t n = sim::alloc_count(), k = o.threw ? 0 : sn.size();
    sim::alloc_enable(false);
    if (write(fd[1], &n, 8) != 8 || write(fd[1], &k, 8) != 8 || write(fd[1], sn.data(), 8 * k) != (ssize_t)(8 * k)) _exit(3);
    _exit(0);
  }
  close(fd[1]);
  uint64_t n = 0, k = 0;
  auto rd = [&](void *p, size_t c) { auto q = (char *)p; while (c) { auto r = read(fd[0], q, c); if (r <= 0) { if (sim::sh->res != sim::Res::None) _exit(0); sim::violation("crash", "creating a cell with enough memory failed"); } q += r; c -= (size_t)r; } };
  rd(&n, 8);
  rd(&k, 8);
  std::vector<double> ref(k);
  if (k) rd(ref.data(), 8 * k);
  int st;
  waitpid(pid, &st, 0);
  if (n == 0 || k == 0) return;
  sim::sh->nontrivial = 1;
  sim::alloc_enable(true);
  sim::alloc_arm((int64_t)(cf.num("pos") * (double)n));
  auto o = make();
  sim::alloc_enable(false);
  sim::alloc_arm(-1);
  auto same = [&] { return sn.size() == ref.size() && diff(ref, sn).empty(); };
  const auto w = sim::strf("the first cell (kind %d) with allocation %ld of %ld failing", kind, (long)(cf.num("pos") * (double)n), (long)n);
  if (!o.threw && !same()) sim::violation("cold", w + " was built without an error but differs from a cell built with enough memory");
  o = make();
  if (o.threw) sim::violation("cold_again", w + ": with memory available again the cell could not be built: " + o.text());
  if (!same()) sim::violation("cold_again", w + ": with memory available again the cell differs from one which always had enough");
  for (double x : sn) sim::observe_d(x);
  sim::sh->statehash = (uint64_t)(cf.num("pos") * (double)n) * 8 + kind;
}

static void run(const Scn &s)
{
  const auto &cf = s.get("cfg");
  if (cf.str("mode") == "cold") return cold(s);
  auto n = parse_node(s.get("pack").str("spec"));
  BuildOpt bo;
  bo.par = (int)cf.i("par", 0);
  bo.block = cf.i("block", 1);
  slide::settings::CELL_NDATA_MAX = (size_t)cf.i("max", 100000);
  auto su = build(n, bo);
  auto cells = leaves(su.get());
  for (auto c : cells) probe(c)->rec_rows = true;
  Cycler cy(su.get(), "A");
  ThroughputData th{};
  uint64_t hsh = 0;
  for (auto &l : s.lines) {
    if (!l.has("ph")) continue;
    const int times = l.has("al") ? (int)l.i("again", 1) : 1;
    for (int rep = 0; rep < times; rep++) {
      sim::set_label(l.text().c_str());
      if (!l.has("al")) {
        auto o = op_on(l, su.get(), cy, th, nullptr);
        sim::observe(o.text());
        continue;
      }
      // the same operation with enough memory, on a copy
      snapshot(su.get());
      Deep_ptr<StorageUnit> twin(su.get()->copy());
      Deep_ptr<StorageUnit> c0, c1;
      Cycler ct(twin.get(), "R");
      ThroughputData tt = th;
      const auto before = snapshot(su.get());
      sim::alloc_enable(true);
      sim::alloc_arm(-1);
      auto ot = op_on(l, twin.get(), ct, tt, &c1);
      const auto cnt = sim::alloc_count();
      sim::alloc_enable(false);
      const auto snt = snapshot(twin.get());
      if (cnt == 0) { // needs no memory
        op_on(l, su.get(), cy, th, nullptr);
        continue;
      }
      double pos = l.num("al") + rep * 0.37;
      pos -= std::floor(pos);
      const auto nth = (int64_t)(pos * (double)cnt);
      const auto w = sim::strf("'%s' with allocation %ld of %ld failing", l.text().c_str(), (long)nth, (long)cnt);
      sim::set_label(w.c_str());
      ThroughputData t0 = th;
      sim::alloc_enable(true);
      sim::alloc_arm(nth);
      auto o = op_on(l, su.get(), cy, th, &c0);
      const bool fired = sim::alloc_fired();
      sim::alloc_enable(false);
      sim::alloc_arm(-1);
      if (fired) sim::sh->nontrivial = 1;
      hsh = sim::mix(hsh, (uint64_t)nth * 131 + (uint64_t)cnt);
      sim::observe(o.text());
      if (sim::live_threads() != 0) sim::violation("thread_left", w + ": a worker thread was left behind");
      if (sim::fs_open_handles() != 0) sim::violation("handle_left", w + ": a file was left open");
      for (double d : th)
        if (!std::isfinite(d)) sim::violation("throughput", w + ": the throughput is not finite");
      const auto after = snapshot(su.get());
      const bool reported = o.threw || isStatusBad(o.st);
      if (fired && !reported) {
        if (!(o == ot)) sim::violation("not_reported", w + " ended with " + o.text() + " instead of " + ot.text());
        if (auto d = diff(snt, after); !d.empty()) sim::violation("not_reported", w + " was not reported, but the unit differs from one which had enough memory: " + d);
        if (l.kind == "copy")
          if (auto d = diff(snapshot(c1.get()), snapshot(c0.get())); !d.empty()) sim::violation("copy", w + " gave a copy which differs: " + d);
      }
      if (fired && reported && !ot.threw) {
        const bool setter = l.kind == "seti" || l.kind == "setv" || l.kind == "states";
        if (setter || l.kind == "copy" || l.kind == "flush" || l.kind == "store") {
          if (auto d = diff(before, after); !d.empty()) sim::violation("not_restored", w + " failed (" + o.text() + ") but changed the unit: " + d);
        }
        // the same operation again, now with enough memory
        sim::set_label((w + ", repeated").c_str());
        Deep_ptr<StorageUnit> c2, t2;
        if (!setter && l.kind != "copy") { // stepped part of the way: what is left behind has to behave like a unit in that state
          snapshot(su.get());
          t2 = Deep_ptr<StorageUnit>(su.get()->copy());
        }
        auto o2 = op_on(l, su.get(), cy, th, &c2);
        if (setter || l.kind == "copy") {
          if (!(o2 == ot)) sim::violation("not_repeatable", w + ": repeated with enough memory it ended with " + o2.text() + " instead of " + ot.text());
          if (auto d = diff(snt, snapshot(su.get())); !d.empty()) sim::violation("not_repeatable", w + ": repeated with enough memory it gave another state: " + d);
          if (c2 && c1)
            if (auto d = diff(snapshot(c1.get()), snapshot(c2.get())); !d.empty()) sim::violation("copy", w + ": the copy made afterwards differs: " + d);
        } else if (l.kind == "flush" || l.kind == "store") {
          if (o2.threw) sim::violation("not_repeatable", w + ": repeated with enough memory it failed: " + o2.text());
        } else {
          Cycler c3(t2.get(), "R");
          ThroughputData th3{};
          auto o3 = op_on(l, t2.get(), c3, th3, nullptr);
          if (!(o2 == o3)) sim::violation("not_repeatable", w + ": repeated with enough memory it ended with " + o2.text() + " but on a copy with " + o3.text());
          if (auto d = diff(snapshot(t2.get()), snapshot(su.get())); !d.empty()) sim::violation("not_repeatable", w + ": repeated with enough memory it gave another state than a copy: " + d);
        }
      }
      if (l.kind == "flush") check_logs(w, cells, false);
    }
  }
  sim::set_label("final flush");
  auto o = call([&] { cy.writeData(); return Status::Success; });
  if (o.threw) sim::violation("flush", "with memory available again the stored data could not be written: " + o.text());
  check_logs("the final flush", cells, true);
  for (auto c : cells) sim::sh->simtime = std::max(sim::sh->simtime, probe(c)->dtsum);
  auto sn = snapshot(su.get());
  for (double d : sn) sim::observe_d(d);
  sim::sh->statehash = sim::mix(coarse(sn), hsh);
}
static RegProp r15("C15", gen, run);
