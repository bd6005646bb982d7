// C05 results depend only on the experiment, not on its environment
#include "ops.hpp"
#include "factories/makeBattery.hpp"
#include "procedures/Procedure.hpp"
#include <unistd.h>
#include <sys/wait.h>
using namespace world;

static void gen(sim::Rng &r, Scn &s, bool thorough)
{
  const double kind = r.unit();
  if (kind < (thorough ? 0.06 : 0.03)) {
    const char *f[] = { "TestParallel", "Test", "smaller" };
    s.add("factory").set("which", f[r.below(3)]).set("cap", r.range(0, 1)).set("r", r.range(0, 1)).set("deg", r.range(0, 1)).set("rc", r.range(0, 1)).set("cool", r.range(0, 3)).set("block", 1);
    for (int i = 0; i < 3; i++) s.add(r.chance(0.5) ? "seti" : "cc").set("I", r.real(-0.5, 0.5)).set("v", 0.5).set("t", 10).set("dt", 2).set("nd", 1).set("n", 2).set("ph", 1);
  } else {
    PackCfg c;
    c.maxcells = r.chance(0.4) ? 3 : thorough ? 10 : 6;
    c.spm = r.chance(0.5);
    c.battery = true;
    c.spread = 0.02;
    Node n = gen_pack(r, c);
    const bool block = r.chance(0.5);
    if (!block) age_models(n, r, true);
    s.add("pack").set("spec", n.text());
    s.add("cfg").set("block", (int)block).set("max", r.chance(0.5) ? 100000 : r.range(2, 60)).set("par", r.chance(0.3) ? -1 : 0).set("probes", 0);
    gen_unit_ops(r, s, (int)r.range(1, thorough ? 9 : 5), 1, thorough);
    if (r.chance(thorough ? 0.1 : 0.02)) {
      Line &l = s.add("proc");
      l.set("ph", 1).set("n", r.range(1, 3)).set("nbal", r.range(1, 3)).set("cv", r.range(0, 1)).set("vmin", r.real(0.3, 0.45)).set("vmax", r.real(0.55, 0.7)).set("nd", r.chance(0.5) ? 0 : r.range(1, 50));
    }
    if (r.chance(0.1)) s.add("capacity").set("ph", 1).set("cell", (int64_t)r.below(6));
  }
  // the other environment
  Line &e = s.add("env");
  e.set("clock", r.range(0, 3)).set("cseed", (int64_t)r.below(1000000)).set("cores", r.pick(std::vector<int>{ 0, 1, 2, 3, 8, 64 }));
  const int fills[] = { 0xff, 0x7f, 0x01, 0x40, 0xc0, 0x3f };
  e.set("fill", fills[r.below(6)]).set("fillA", r.chance(0.5) ? 0 : -1).set("stack", fills[r.below(6)]);
  if (r.chance(0.6)) {
    PackCfg c;
    c.maxcells = 4;
    c.spm = r.chance(0.7);
    c.battery = true;
    Node n = gen_pack(r, c);
    age_models(n, r, true);
    s.add("prior").set("spec", n.text()).set("block", r.range(0, 1)).set("keep", r.range(0, 1));
    gen_unit_ops(r, s, (int)r.range(1, 4), 2, false);
  }
}

using Trace = std::vector<std::pair<std::string, std::string>>;
static void put(Trace &t, const std::string &l, const std::string &v) { t.emplace_back(l, v); }
static void put(Trace &t, const std::string &l, const std::vector<double> &v) { t.emplace_back(l, std::string((const char *)v.data(), 8 * v.size())); }

static Deep_ptr<StorageUnit> make_unit(const Scn &s)
{
  if (auto f = s.find("factory")) {
    auto w = f->str("which");
    auto mk = w == "Test" ? makeBattery_Test : w == "smaller" ? makeBattery_EPFL_smaller : makeBattery_TestParallel;
    auto u = mk(f->i("cap"), f->i("r"), f->i("deg"), f->i("rc"), (int)f->i("cool"), "x", 1e-4);
    if (f->i("block")) u->setBlockDegAndTherm(true);
    return u;
  }
  BuildOpt bo;
  bo.par = (int)s.get("cfg").i("par", 0);
  bo.block = s.get("cfg").i("block", 1);
  bo.probes = s.get("cfg").i("probes", 0);
  return build(parse_node(s.get("pack").str("spec")), bo);
}
static void experiment(const Scn &s, Trace &t, int stack)
{
  slide::settings::CELL_NDATA_MAX = (size_t)s.get("cfg").i("max", 100000);
  Deep_ptr<StorageUnit> su;
  if (stack >= 0) sim::dirty_stack((unsigned char)stack);
  auto ob = call([&] { su = make_unit(s); return Status::Success; });
  put(t, "building", ob.text());
  if (ob.threw || !su) return;
  put(t, "the new unit", snapshot(su.get()));
  Cycler cy(su.get(), "E");
  ThroughputData th{};
  for (auto &l : s.lines) {
    if (l.i("ph") != 1) continue;
    if (stack >= 0) sim::dirty_stack((unsigned char)stack);
    sim::set_label(l.text().c_str());
    if (l.kind == "proc") {
      Procedure p(true, su->Vmin() + 0.5 * (su->Vmax() - su->Vmin()), (int)l.i("nd"), true);
      const double d = su->Vmax() - su->Vmin();
      auto o = call([&] { p.cycleAge(su.get(), (int)l.i("n"), 1000, (int)l.i("nbal"), l.i("cv"), 1, 1, su->Vmin() + l.num("vmax") * d, su->Vmin() + l.num("vmin") * d); return Status::Success; });
      put(t, "'" + l.text() + "'", o.text());
    } else if (l.kind == "capacity") {
      auto cs = leaves(su.get());
      double ah = 0, tt = 0, cap = 0;
      auto o = call([&] { cap = Cycler(cs[l.u("cell") % cs.size()]).testCapacity(ah, tt); return Status::Success; });
      put(t, "'" + l.text() + "'", o.text());
      put(t, "'" + l.text() + "'", std::vector<double>{ cap, ah, tt });
    } else {
      auto o = do_op(l, su.get(), cy, th);
      put(t, "'" + l.text() + "'", o.text());
    }
    auto v = snapshot(su.get());
    for (double d : th) v.push_back(d);
    put(t, "the unit after '" + l.text() + "'", v);
  }
  sim::sh->simtime += th.time();
  auto o = call([&] { cy.writeData(); return Status::Success; });
  put(t, "flush", o.text());
  for (auto &f : sim::fs_list()) {
    if (f.find("/data/") != std::string::npos || f.find("/Z_") != std::string::npos || f.find("_Z_") != std::string::npos) continue;
    put(t, "file " + f, sim::fs_read(f));
  }
}

static void run(const Scn &s)
{
  const auto &e = s.get("env");
  int fd[2];
  if (pipe(fd)) sim::harness_error("pipe");
  pid_t pid = fork();
  if (pid == 0) { // the reference environment
    close(fd[0]);
    if (e.i("fillA", -1) >= 0) sim::alloc_fill((int)e.i("fillA"));
    Trace t;
    experiment(s, t, -1);
    std::string b;
    for (auto &[l, v] : t) {
      size_t n[2] = { l.size(), v.size() };
      b.append((const char *)n, sizeof n);
      b += l;
      b += v;
    }
    size_t p = 0;
    while (p < b.size()) {
      auto k = write(fd[1], b.data() + p, b.size() - p);
      if (k <= 0) break;
      p += (size_t)k;
    }
    _exit(p == b.size() ? 0 : 3);
  }
  close(fd[1]);
  std::string b;
  char buf[65536];
  for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) > 0;) b.append(buf, (size_t)k);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (sim::sh->res != sim::Res::None) _exit(0); // reported by the other process
  if (st != 0) sim::violation("crash", sim::strf("the experiment died (wait status 0x%x)", st));
  Trace ta;
  for (size_t p = 0; p < b.size();) {
    size_t n[2];
    memcpy(n, b.data() + p, sizeof n);
    p += sizeof n;
    ta.emplace_back(b.substr(p, n[0]), b.substr(p + n[0], n[1]));
    p += n[0] + n[1];
  }

  // the other environment
  sim::clock_cfg((uint64_t)e.i("cseed"), (int)e.i("clock"));
  sim::entropy_cfg((uint64_t)e.i("cseed"));
  sim::set_cores((int)e.i("cores", 4));
  sim::count_fault(sim::F_CORES);
  sim::alloc_fill((int)e.i("fill", -1));
  sim::count_fault(sim::F_MEMFILL);
  Deep_ptr<StorageUnit> other;
  if (auto pr = s.find("prior")) {
    sim::count_fault(sim::F_PRIOR);
    BuildOpt bo;
    bo.par = 0;
    bo.probes = false;
    bo.block = pr->i("block", 1);
    other = build(parse_node(pr->str("spec")), bo);
    Cycler cy(other.get(), "Z");
    ThroughputData th{};
    for (auto &l : s.lines)
      if (l.i("ph") == 2) do_op(l, other.get(), cy, th);
    call([&] { cy.writeData(); return Status::Success; });
    if (!pr->i("keep")) other.reset();
  }
  Trace tb;
  experiment(s, tb, (int)e.i("stack", -1));
  sim::sh->nontrivial = ta.size() > 2;
  for (size_t i = 0; i < std::min(ta.size(), tb.size()); i++) {
    if (ta[i] == tb[i]) continue;
    std::string d = "";
    if (ta[i].first != tb[i].first) d = tb[i].first + " instead of " + ta[i].first;
    else {
      auto &x = ta[i].second, &y = tb[i].second;
      size_t k = 0;
      while (k < x.size() && k < y.size() && x[k] == y[k]) k++;
      d = ta[i].first + sim::strf(" differs from byte %zu (of %zu and %zu)", k, x.size(), y.size());
      if (x.size() == y.size() && x.size() % 8 == 0 && ta[i].first.find("file") != 0 && k < x.size()) {
        double p, q;
        memcpy(&p, &x[k / 8 * 8], 8);
        memcpy(&q, &y[k / 8 * 8], 8);
        d += sim::strf(": value %zu is %.17g instead of %.17g", k / 8, q, p);
      }
    }
    sim::violation("environment", "in another environment " + d);
  }
  if (ta.size() != tb.size()) sim::violation("environment", sim::strf("%zu results instead of %zu, first: %s", tb.size(), ta.size(), (ta.size() > tb.size() ? ta : tb)[std::min(ta.size(), tb.size())].first.c_str()));
  for (auto &x : tb) sim::observe(x.second);
  uint64_t h = 7;
  for (auto &x : tb) h = sim::fnvs(x.second, h);
  sim::sh->statehash = h;
}
static RegProp r05("C05", gen, run);
