// C12 independent experiments running at the same time
#include "ops.hpp"
#include "factories/makeBattery.hpp"
#include "procedures/Procedure.hpp"
#include "utility/parallelisation.hpp"
#include <thread>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
using namespace world;

static void gen(sim::Rng &r, Scn &s, bool thorough)
{
  const int ne = r.chance(0.6) ? 2 : r.range(3, 4);
  const bool ids = r.chance(0.5); // units of different experiments have different names
  const bool block = r.chance(0.4);
  const double heavy = thorough ? 0.3 : 0.15;
  auto &c0 = s.add("cfg");
  c0.set("max", r.chance(0.5) ? 100000 : r.range(2, 40)).set("ids", (int)ids).set("block", (int)block).set("warm", (int)r.chance(0.15)).set("inmain", (int)r.chance(0.2)).set("how", r.chance(0.5) ? 1 : 0).set("workers", r.range(0, 5));
  if (r.chance(0.25)) s.add("curves").set("n", r.range(1, 4)).set("rows", r.range(1, 20));
  std::string proto;
  for (int e = 0; e < ne; e++) {
    Line &l = s.add("exp").set("e", e);
    const bool cap = r.chance(heavy * 0.25), proc = ids && r.chance(heavy * 0.3); // these take many steps
    PackCfg c;
    c.maxcells = cap || proc ? 2 : r.chance(0.5) ? 2 : thorough ? 7 : 4;
    c.spm = !cap && !proc && r.chance(0.75);
    c.kfrac = c.spm ? 0.6 : 0;
    c.battery = true;
    if (proc) c.maxdepth = 0;
    c.spread = 0.02;
    Node n = gen_pack(r, c);
    if (!block) age_models(n, r, true);
    const bool par = !cap && !proc && r.chance(0.12); // stepping with threads of its own
    if (par) (n.kind == 'X' ? n.ch[0] : n).at["par"] = "1";
    const bool same = !cap && !proc && !proto.empty() && r.chance(0.35); // the same kind of unit, or a copy of it
    if (!same) proto = n.text();
    const std::string spec = proto;
    if (cap || proc) proto.clear();
    l.set("par", par ? -1 : 0).set("spec", spec).set("copy", (int)(same && r.chance(0.5)));
    if (!cap && !proc && r.chance(heavy * 0.1)) { // its modules make many threads
      l.set("factory", r.range(0, 1)).set("cool", r.range(0, 3)).set("deg", r.range(0, 1));
      s.add("seti").set("I", r.real(-0.5, 0.5)).set("ph", e);
      s.add("step").set("dt", 2).set("n", r.range(1, 3)).set("ph", e);
      continue;
    }
    gen_unit_ops(r, s, (int)r.range(1, thorough ? 6 : 3), e, false, thorough ? 50 : 20);
    if (r.chance(0.2)) s.add("copy").set("ph", e);
    if (r.chance(0.2)) s.add("states").set("ph", e);
    if (cap) s.add("capacity").set("ph", e).set("cell", (int64_t)r.below(6));
    if (proc) s.add("proc").set("ph", e).set("n", r.range(1, 2)).set("nbal", r.range(1, 2)).set("cv", 0).set("vmin", r.real(0.45, 0.49)).set("vmax", r.real(0.51, 0.55)).set("nd", r.chance(0.5) ? 0 : r.range(1, 50));
    if (r.chance(0.12)) s.add("cellfault").set("ph", e).set("cell", (int64_t)r.below(6)).set("what", r.chance(0.5) ? "step_throw" : "step_throw_mid").set("at", r.range(0, 6)).set("n", 1).set("code", r.range(1, 120));
    if (r.chance(0.12)) s.add("writefault").set("ph", e).set("kind", r.range(0, 1)).set("at", r.range(0, 3)).set("n", r.range(1, 2));
  }
  if (r.chance(0.2)) s.add("readfault").set("file", r.range(0, 5)).set("at", r.range(0, 1)).set("n", r.chance(0.7) ? 1 : 2);
  if (r.chance(0.1)) s.add("threadfault").set("at", r.range(0, 5)).set("n", r.range(1, 3));
  const bool longrun = s.find("capacity") || s.find("proc");
  s.add("sched").set("seed", r.next() >> 1).set("gap", std::floor(std::pow(10, r.real(longrun ? 2.7 : thorough ? 1.2 : 0.7, 4.3)))).set("cores", r.chance(0.1) ? 0 : r.range(1, 8));
}

using Trace = std::vector<std::pair<std::string, std::string>>;
static void put(Trace &t, const std::string &l, const std::string &v) { t.emplace_back(l, v); }
static void put(Trace &t, const std::string &l, const std::vector<double> &v) { t.emplace_back(l, std::string((const char *)v.data(), 8 * v.size())); }

struct Exp {
  int e = 0;
  Scn sub;              // the lines of this experiment
  const Scn *all = nullptr;
  Deep_ptr<StorageUnit> su;
  Trace t;
  double time = 0;
};
static std::string prefix(const Exp &x) { return "E" + std::to_string(x.e); }

static Status make_unit(Exp &x, Exp *first)
{
  auto &l = x.sub.get("exp");
  const auto &cfg = x.all->get("cfg");
  if (l.has("factory")) {
    auto mk = l.i("factory") ? makeBattery_Test : makeBattery_TestParallel;
    auto u = mk(true, true, l.i("deg"), true, (int)l.i("cool"), cfg.i("ids") ? "x" + std::to_string(x.e) : "x", 1e-4);
    u->setBlockDegAndTherm(true);
    x.su = std::move(u);
    return Status::Success;
  }
  if (l.i("copy") && first && first->su) {
    x.su = Deep_ptr<StorageUnit>(first->su->copy());
    return Status::Success;
  }
  BuildOpt bo;
  bo.block = cfg.i("block", 1);
  bo.par = (int)l.i("par", 0);
  bo.probes = x.sub.find("cellfault") != nullptr;
  if (cfg.i("ids")) bo.tag = "_" + std::to_string(x.e);
  x.su = build(parse_node(l.str("spec")), bo);
  return Status::Success;
}
// reading a file can fail: the experiment tries again, as its user would
static void build_unit(Exp &x, Exp *first)
{
  Out o;
  for (int i = 0; i < 4; i++) {
    o = call([&] { return make_unit(x, first); });
    if (!o.threw && x.su) break;
  }
  put(x.t, "building", o.text());
  if (x.su) put(x.t, "the new unit", snapshot(x.su.get()));
  if (x.su) arm_cell_faults(x.sub, x.su.get());
}
static void curves(Exp &x, int n)
{ // the user's own curves: every file with the reader with a shared cache, and one without
  for (int i = 0; i < n; i++) {
    XYdata_ss c;
    XYdata_vv d;
    Out o, p;
    const std::filesystem::path f = PathVar::data / ("curve" + std::to_string((i + x.e) % n) + ".csv");
    for (int k = 0; k < 4; k++) {
      o = call([&] { loadCSV_2col(f, c.x, c.y, 0); return Status::Success; });
      if (!o.threw) break;
    }
    for (int k = 0; k < 4; k++) {
      p = call([&] { loadCSV_2col(f, d.x, d.y, 0); return Status::Success; });
      if (!p.threw) break;
    }
    put(x.t, "reading " + f.string(), o.text() + p.text());
    std::vector<double> v(c.x.begin(), c.x.end());
    v.insert(v.end(), c.y.begin(), c.y.end());
    put(x.t, "curve of " + f.string(), v);
    std::vector<double> w(d.x.begin(), d.x.end());
    w.insert(w.end(), d.y.begin(), d.y.end());
    put(x.t, "data of " + f.string(), w);
  }
}
static void experiment(Exp &x)
{
  if (!x.su) build_unit(x, nullptr);
  if (auto c = x.all->find("curves")) curves(x, (int)c->i("n"));
  if (!x.su) return;
  auto &t = x.t;
  StorageUnit *su = x.su.get();
  Cycler cy(su, prefix(x));
  ThroughputData th{};
  Deep_ptr<StorageUnit> cp;
  for (auto &l : x.sub.lines) {
    const auto &k = l.kind;
    if (k == "exp" || k == "cellfault" || k == "writefault") continue;
    if (k == "proc") {
      const double d = su->Vmax() - su->Vmin();
      Procedure p(true, su->Vmin() + 0.5 * d, (int)l.i("nd"), true);
      auto o = call([&] { p.cycleAge(su, (int)l.i("n"), 1000, (int)l.i("nbal"), l.i("cv"), 1, 1, su->Vmin() + l.num("vmax") * d, su->Vmin() + l.num("vmin") * d); return Status::Success; });
      put(t, "'" + l.text() + "'", o.text());
    } else if (k == "capacity") {
      auto cs = leaves(su);
      double ah = 0, tt = 0, cap = 0;
      auto o = call([&] { cap = Cycler(cs[l.u("cell") % cs.size()]).testCapacity(ah, tt); return Status::Success; });
      put(t, "'" + l.text() + "'", o.text());
      put(t, "'" + l.text() + "'", std::vector<double>{ cap, ah, tt });
    } else if (k == "copy") {
      cp = Deep_ptr<StorageUnit>(su->copy());
      call([&] { cp->timeStep_CC(1, 2); return Status::Success; });
      put(t, "a copy after a step", snapshot(cp.get()));
    } else if (k == "states") {
      std::vector<double> v;
      su->getStates(v);
      std::span<double> sp(v);
      auto o = call([&] { return su->setStates(sp, false, false); });
      put(t, "setting the states", o.text());
    } else {
      auto o = do_op(l, su, cy, th);
      put(t, "'" + l.text() + "'", o.text());
    }
    auto v = snapshot(su);
    for (double d : th) v.push_back(d);
    put(t, "the unit after '" + l.text() + "'", v);
  }
  x.time = th.time();
  auto o = call([&] { cy.writeData(); return Status::Success; });
  put(t, "flush", o.text());
}
static void arm_files(const Scn &s, bool readfaults)
{
  for (auto l : s.all("writefault")) {
    sim::FsFault f;
    f.kind = l->i("kind") ? sim::F_ENOSPC : sim::F_OPEN;
    f.match = "/E" + std::to_string(l->i("ph")) + "_";
    f.nth = (int)l->i("at");
    f.count = (int)l->i("n", 1);
    sim::fs_arm(f);
  }
  if (!readfaults) return;
  if (auto l = s.find("readfault")) {
    const char *names[] = { "Kokam_OCV_NMC.csv", "Kokam_OCV_C.csv", "Kokam_entropic_C.csv", "Kokam_entropic_cell.csv", "Cheb_", "curve0" };
    sim::FsFault f;
    f.kind = sim::F_OPEN;
    f.match = names[l->i("file")];
    f.nth = (int)l->i("at");
    f.count = (int)l->i("n", 1);
    sim::fs_arm(f);
  }
}
static std::vector<Exp> split(const Scn &s)
{
  std::vector<Exp> v;
  for (auto l : s.all("exp")) {
    Exp x;
    x.e = (int)l->i("e");
    x.all = &s;
    x.sub.lines.push_back(*l);
    for (auto &m : s.lines)
      if (m.has("ph") && m.i("ph") == x.e) x.sub.lines.push_back(m);
    v.push_back(std::move(x));
  }
  return v;
}
static void prepare(const Scn &s, std::vector<Exp> &v)
{
  slide::settings::CELL_NDATA_MAX = (size_t)s.get("cfg").i("max", 100000);
  if (auto c = s.find("curves"))
    for (int i = 0; i < c->i("n"); i++) {
      std::string t;
      for (int k = 0; k < c->i("rows") + i; k++) t += sim::strf("%d,%.3f\n", k, 3 + 0.01 * k + 0.1 * i);
      sim::fs_add_file(std::string(ROOT) + "/data/curve" + std::to_string(i) + ".csv", t);
    }
  if (s.get("cfg").i("warm")) {
    sim::fs_heal_pause(true);
    warm_spm();
    sim::fs_heal_pause(false);
  }
  // experiments which start with a copy of another one's unit: made by the main thread
  const bool inmain = s.get("cfg").i("inmain");
  for (size_t i = 0; i < v.size(); i++) {
    const bool cp = v[i].sub.get("exp").i("copy"), next = i + 1 < v.size() && v[i + 1].sub.get("exp").i("copy");
    if (inmain || cp || next) build_unit(v[i], i && cp ? &v[i - 1] : nullptr);
  }
}
static Trace results(std::vector<Exp> &v)
{
  Trace t;
  for (auto &x : v)
    for (auto &[l, d] : x.t) t.emplace_back("experiment " + std::to_string(x.e) + ": " + l, d);
  for (auto &f : sim::fs_list())
    if (f.find("/data/") == std::string::npos) put(t, "file " + f, sim::fs_read(f));
  return t;
}

static void run(const Scn &s)
{
  if (!s.find("exp")) { sim::sh->res = sim::Res::Skip; return; }
  struct rlimit rl{ 120, 140 };
  setrlimit(RLIMIT_CPU, &rl);
  const int cores = (int)s.get("sched").i("cores", 4);
  int fd[2];
  if (pipe(fd)) sim::harness_error("pipe");
  pid_t pid = fork();
  if (pid == 0) { // one after another
    close(fd[0]);
    sim::set_label("one after another");
    auto v = split(s);
    sim::set_cores(cores);
    arm_files(s, false);
    prepare(s, v);
    for (auto &x : v) experiment(x);
    Trace t = results(v);
    std::string b;
    for (auto &[l, v] : t) {
      size_t n[2] = { l.size(), v.size() };
      b.append((const char *)n, sizeof n);
      b += l;
      b += v;
    }
    size_t p = 0;
    while (p < b.size()) {
      auto k = write(fd[1], b.data() + p, b.size() - p);
      if (k <= 0) break;
      p += (size_t)k;
    }
    _exit(p == b.size() ? 0 : 3);
  }
  close(fd[1]);
  std::string b;
  char buf[65536];
  for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) > 0;) b.append(buf, (size_t)k);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (sim::sh->res != sim::Res::None) _exit(0); // reported by the other process
  if (st != 0) sim::violation("crash", sim::strf("the experiments, one after another, died (wait status 0x%x)", st));
  Trace ta;
  for (size_t p = 0; p < b.size();) {
    size_t n[2];
    memcpy(n, b.data() + p, sizeof n);
    p += sizeof n;
    ta.emplace_back(b.substr(p, n[0]), b.substr(p + n[0], n[1]));
    p += n[0] + n[1];
  }

  // the same experiments at the same time
  sim::set_label("at the same time");
  auto v = split(s);
  sim::set_cores(cores);
  arm_files(s, true);
  prepare(s, v);
  if (auto l = s.find("threadfault")) sim::arm_thread_fault(l->i("at"), (int)l->i("n", 1));
  const auto creates0 = sim::sh->creates;
  const auto &cfg = s.get("cfg");
  if (cfg.i("how") == 1) {
    slide::run([&](int i) { experiment(v[(size_t)i]); }, (int)v.size(), (unsigned)cfg.i("workers"));
  } else {
    std::vector<std::thread> th;
    th.reserve(v.size());
    for (auto &x : v) {
      bool started = true;
      try {
        th.emplace_back([&x] { experiment(x); });
      } catch (...) {
        started = false;
      }
      if (!started) experiment(x);
    }
    for (auto &t : th) t.join();
  }
  if (sim::live_threads() != 0) sim::violation("thread_left", sim::strf("%d thread(s) still exist after all experiments", sim::live_threads()));
  Trace tb = results(v);
  sim::sh->nontrivial = ta.size() > 2 && sim::sh->creates > creates0;
  for (auto &x : v) sim::sh->simtime += x.time;
  for (size_t i = 0; i < std::min(ta.size(), tb.size()); i++) {
    if (ta[i] == tb[i]) continue;
    std::string d;
    if (ta[i].first != tb[i].first) d = tb[i].first + " instead of " + ta[i].first;
    else {
      auto &x = ta[i].second, &y = tb[i].second;
      size_t k = 0;
      while (k < x.size() && k < y.size() && x[k] == y[k]) k++;
      d = ta[i].first + sim::strf(" differs from byte %zu (of %zu and %zu)", k, x.size(), y.size());
      if (x.size() == y.size() && x.size() % 8 == 0 && ta[i].first.find("file") != 0 && k < x.size()) {
        double p, q;
        memcpy(&p, &x[k / 8 * 8], 8);
        memcpy(&q, &y[k / 8 * 8], 8);
        d += sim::strf(": value %zu is %.17g instead of %.17g", k / 8, q, p);
      } else if (x.size() < 200 && y.size() < 200 && ta[i].first.find("file") != 0)
        d += ": '" + y + "' instead of '" + x + "'";
    }
    sim::violation("concurrent", "run at the same time " + d);
  }
  if (ta.size() != tb.size()) sim::violation("concurrent", sim::strf("%zu results instead of %zu, first: %s", tb.size(), ta.size(), (ta.size() > tb.size() ? ta : tb)[std::min(ta.size(), tb.size())].first.c_str()));
  uint64_t h = 7;
  for (auto &x : tb) {
    sim::observe(x.second);
    h = sim::fnvs(x.second, h);
  }
  sim::sh->statehash = h;
}
static RegProp r12("C12", gen, run);
