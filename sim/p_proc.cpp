// C14 the ageing procedures report every action and survive faults of their report files
#include "ops.hpp"
#include <sys/resource.h>
using namespace world;

static PackCfg proc_pack(sim::Rng &r, bool thorough)
{
  PackCfg c;
  c.maxcells = thorough ? 5 : 3;
  c.maxdepth = 2;
  c.spm = r.chance(0.4);
  c.kfrac = r.chance(0.3) ? 0.5 : 0;
  c.battery = true;
  c.spread = r.chance(0.5) ? 0 : 0.02;
  c.soc_lo = 0.3;
  c.soc_hi = 0.7;
  return c;
}
static void gen(sim::Rng &r, Scn &s, bool thorough)
{
  const bool use = r.chance(0.06);
  auto n = gen_pack(r, proc_pack(r, thorough));
  if (use)
    while (n.leaves() > (thorough ? 3 : 1) || n.text().find("P(") != std::string::npos) n = gen_pack(r, proc_pack(r, thorough));
  if (r.chance(0.4)) age_models(n, r, true);
  // small cells reach their limits in fewer steps at the same C rate
  s.add("pack").set("spec", n.text());
  auto &c = s.add("cfg");
  if (thorough) c.set("cpu", 110);
  c.set("mode", use ? "use" : "cycle").set("unit", r.range(0, 1)).set("balance", r.range(0, 1)).set("vbal", r.real(3.3, 3.9)).set("nd", r.chance(0.5) ? 0 : r.range(20, 400)).set("max", r.chance(0.8) ? 100000 : r.range(10, 200));
  if (!use) {
    const double lo = r.chance(0.7) ? r.real(0.1, 0.5) : 0, hi = r.chance(0.7) ? r.real(0.55, 0.95) : 1;
    c.set("n", r.chance(0.1) ? 0 : r.range(1, thorough ? 7 : 4)).set("ncheck", r.range(1, 4)).set("nbal", r.range(1, 4)).set("cv", r.range(0, 1)).set("cc", r.real(0.3, 2)).set("cd", r.real(0.3, 2)).set("lo", lo).set("hi", hi);
  }
  if (r.chance(0.5)) {
    const char *files[] = { "_throughput.csv", "_checkUp.csv", "_checkModules_overall.csv", "_checkModules_histograms.csv", "_state.csv", "cycleAge_", "_throughput.csv", "_checkUp.csv" };
    const char *kinds[] = { "open", "enospc", "eio", "close", "shortw", "eintr" };
    for (int k = (int)r.range(1, 3); k > 0; k--)
      s.add("fsfault").set("kind", kinds[r.below(6)]).set("file", files[r.below(8)]).set("nth", r.chance(0.5) ? 0 : r.range(0, 4)).set("count", r.chance(0.6) ? 1 : r.chance(0.5) ? r.range(2, 5) : -1).set("arg", r.chance(0.4) ? 0 : r.chance(0.5) ? r.range(1, 40) : r.range(1, 600));
  } else if (r.chance(0.3)) {
    const char *w[] = { "seti_bad", "seti_bad", "step_throw", "step_throw_std", "seti_throw" };
    s.add("cellfault").set("cell", (int64_t)r.below(n.leaves())).set("what", w[r.below(5)]).set("at", (int64_t)std::floor(std::pow(10, r.real(0, 4)) - 1)).set("n", r.chance(0.7) ? 1 : r.range(2, 5)).set("code", r.chance(0.5) ? 8 : 2);
  }
  // something else was written there by an earlier experiment
  if (r.chance(0.2)) s.add("stale");
}

struct CellRow {
  std::string id;
  std::vector<double> v; // variations(4) Ah cycle time Ah Wh capacity
  std::vector<double> st; // without the concentrations
  bool valid = true;      // a capacity test can only restore states which the cell accepts
};
struct Expect {
  std::vector<std::array<double, 4>> th;
  std::vector<std::vector<CellRow>> checks;
  int last_state_cycle = -1;
  std::vector<double> last_state;
};

// ------------------------------------------------------------- reference model of the procedures, which reports nothing
struct Ref {
  StorageUnit *su;
  Expect &e;
  bool balance;
  double vbal;
  void entry(const ThroughputData &th)
  {
    double cool = 0, loss = 0;
    if (auto m = dynamic_cast<Module *>(su)) cool = m->getCoolingLoad() / 3600;
    else if (auto b = dynamic_cast<Battery *>(su)) {
      cool = b->getCoolingLoad() / 3600;
      loss = b->getAndResetConvLosses() / 3600;
    }
    e.th.push_back({ th.Ah(), th.Wh(), cool, loss });
  }
  Status rebal(StorageUnit *u)
  {
    if (auto m = dynamic_cast<Module *>(u)) {
      for (auto &c : m->getSUs())
        if (auto st = rebal(c.get()); !isStatusSuccessful(st)) return st;
    } else if (typeid(*u) == typeid(Cell_SPM)) {
      ThroughputData th{};
      Cycler(u).CCCV(u->Cap() / 2, vbal, u->Cap() / 1000, 1, 0, th);
      auto st = u->setCurrent(0, true, true);
      if (isStatusBad(st)) return st;
    }
    return Status::Success;
  }
  void checkup(double Ah, int cycle)
  {
    ThroughputData th{};
    Cycler(su, "ref").setDiagnostic(true).CC(-su->Cap() / 25, 0.75 * su->Vmax() + 0.25 * su->Vmin(), TIME_INF, 2, 0, th);
    std::vector<CellRow> rows;
    std::vector<std::unique_ptr<Cell>> copies;
    for (auto c : leaves(su)) copies.emplace_back(static_cast<Cell *>(c->copy()));
    auto src = leaves(su);
    for (size_t i = 0; i < copies.size(); i++) {
      auto &c = *copies[i];
      CellRow r;
      r.id = c.getFullID();
      for (double x : c.getVariations()) r.v.push_back(x);
      auto t = c.getThroughputs();
      r.v.insert(r.v.end(), { Ah, (double)cycle, t.time(), t.Ah(), t.Wh() });
      r.v.push_back(Cycler(&c).testCapacity());
      auto v = src[i]->viewStates();
      const bool spm = dynamic_cast<Cell_SPM *>(src[i]);
      for (size_t k = 0; k < v.size(); k++)
        if (!spm || k < State_SPM::i_zp || k >= State_SPM::i_zn + settings::nch) r.st.push_back(v[k]);
      r.valid = src[i]->validStates(false);
      rows.push_back(r);
    }
    e.checks.push_back(rows);
  }
  void at_cycle(int i, bool bal, bool check, double Ah)
  {
    e.last_state_cycle = i;
    e.last_state.clear();
    su->getStates(e.last_state);
    if (bal) {
      su->setBlockDegAndTherm(true);
      rebal(su);
      su->setBlockDegAndTherm(false);
    }
    if (check) checkup(Ah, i);
  }
  void cycle(int N, int ncheck, int nbal, bool cv, double cc, double cd, double vmax, double vmin, int nd)
  {
    ThroughputData th{};
    Cycler cy(su, "ref");
    cy.setDiagnostic(true);
    for (int i = 0; i < N; i++) {
      at_cycle(i, balance && i % nbal == 0, i % ncheck == 0, th.Ah());
      const double ah = th.Ah();
      auto st = cy.CC(-cc * su->Cap(), vmax, TIME_INF, 2, nd, th);
      if (!isVoltageLimitReached(st)) break;
      entry(th);
      if (th.Ah() - ah < 1e-5) break;
      if (cv) {
        st = cy.CV(vmax, 0.1, TIME_INF, 2, nd, th);
        if (!isCurrentLimitReached(st)) break;
        entry(th);
      }
      st = cy.CC(cd * su->Cap(), vmin, TIME_INF, 2, nd, th);
      entry(th);
      if (!isVoltageLimitReached(st)) break;
      if (cv) {
        st = cy.CV(vmin, 0.1, TIME_INF, 2, nd, th);
        if (!isCurrentLimitReached(st)) break;
        entry(th);
      }
    }
    checkup(th.Ah(), N);
  }
  void use(int nd)
  {
    ThroughputData th{};
    Cycler cy(su, "ref");
    cy.setDiagnostic(true);
    cy.CC(su->Cap() / 2, su->Vmin(), TIME_INF, 1, nd, th);
    for (int i = 0; i < 20; i++) {
      at_cycle(i, balance && i % 7 == 0, i % 10 == 0, th.Ah());
      try {
        auto rest = [&](double h) {
          auto st = cy.rest(h * 3600, 1, nd, th);
          entry(th);
          return st == Status::ReachedTimeLimit;
        };
        auto cc = [&](double c, double v) {
          auto st = cy.CC(c * su->Cap(), v, TIME_INF, 1, nd, th);
          entry(th);
          return st == Status::ReachedVoltageLimit;
        };
        if (!rest(4)) break;
        cc(-1, su->Vmax());
        if (!rest(1)) break;
        cc(1, su->Vmin());
        if (!rest(4)) break;
        cc(-0.5, su->Vmax());
        if (!rest(4)) break;
        if (!cc(0.5, su->Vmin())) break;
        if (!rest(5)) break;
      } catch (...) {
        break;
      }
    }
    checkup(th.Ah(), 20);
  }
};

// ------------------------------------------------------------- reading the reports
static std::vector<std::string> split_lines(const std::string &s)
{
  std::vector<std::string> v;
  size_t p = 0;
  while (p < s.size()) {
    auto e = s.find('\n', p);
    v.push_back(s.substr(p, e == std::string::npos ? e : e - p));
    p = e == std::string::npos ? s.size() : e + 1;
  }
  return v;
}
static std::vector<std::string> fields(const std::string &l)
{
  std::vector<std::string> v{ "" };
  for (char c : l)
    if (c == ',') v.emplace_back();
    else
      v.back() += c;
  return v;
}
static bool number(const std::string &s, double &d)
{
  char *e;
  d = strtod(s.c_str(), &e);
  return !s.empty() && *e == 0;
}
static bool eq6(double a, double b)
{
  return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 5.2e-6 * std::max(std::fabs(a), std::fabs(b)) + 1e-12;
}
static bool th_line(const std::string &l, std::vector<double> &v)
{
  v.clear();
  for (auto &f : fields(l)) {
    double d;
    if (!number(f, d)) return false;
    v.push_back(d);
  }
  return v.size() == 4;
}

static void run(const Scn &s)
{
  if (auto cpu = s.get("cfg").i("cpu")) {
    rlimit rl{ (rlim_t)cpu, 140 };
    setrlimit(RLIMIT_CPU, &rl);
  }
  const auto &cf = s.get("cfg");
  auto n = parse_node(s.get("pack").str("spec"));
  BuildOpt bo;
  bo.par = 0;
  bo.block = false;
  bo.spm_probes = false;
  slide::settings::CELL_NDATA_MAX = (size_t)cf.i("max", 100000);
  auto ref = build(n, bo), su = build(n, bo);
  arm_cell_faults(s, ref.get());
  arm_cell_faults(s, su.get());
  const bool use = cf.str("mode") == "use", unit = cf.i("unit"), bal = cf.i("balance");
  const int nd = (int)cf.i("nd"), N = (int)cf.i("n"), ncheck = (int)cf.i("ncheck", 1), nbal = (int)cf.i("nbal", 1);
  const double vmax = su->Vmin() + cf.num("hi") * (su->Vmax() - su->Vmin()), vmin = su->Vmin() + cf.num("lo") * (su->Vmax() - su->Vmin());
  const std::string id = su->getFullID();
  const auto f_th = results_path(id + "_throughput.csv"), f_mod = results_path(id + "_checkModules_overall.csv"), f_hist = results_path(id + "_checkModules_histograms.csv"), f_state = results_path(id + "_state.csv"), f_chk = "/simroot/cwd/" + id + "_checkUp.csv";
  const std::string pref = use ? "useAge" : "cycleAge";

  Expect e;
  Ref rm{ ref.get(), e, bal, cf.num("vbal") };
  sim::set_label("reference");
  auto oref = call([&] { use ? rm.use(nd) : rm.cycle(N, ncheck, nbal, cf.i("cv"), cf.num("cc"), cf.num("cd"), vmax, vmin, nd); });

  const bool stale = s.find("stale");
  if (stale)
    for (auto f : { f_th, f_mod, f_hist, f_state }) sim::fs_add_file(f, "old 1,2,3\n4,5,6,7\n");
  std::map<std::string, bool> armed;
  for (auto l : s.all("fsfault")) {
    sim::FsFault f;
    auto k = l->str("kind");
    f.kind = k == "open" ? sim::F_OPEN : k == "enospc" ? sim::F_ENOSPC : k == "eio" ? sim::F_EIO_W : k == "close" ? sim::F_CLOSE : k == "shortw" ? sim::F_SHORTW : sim::F_EINTR_W;
    f.match = l->str("file") == "cycleAge_" ? pref + "_" : l->str("file");
    f.nth = (int)l->i("nth");
    f.count = (int)l->i("count", 1);
    f.arg = l->i("arg");
    if (f.kind == sim::F_EINTR_W && (f.count < 0 || f.count > 20)) f.count = 20;
    const bool harmless = f.kind == sim::F_EINTR_W || f.kind == sim::F_SHORTW; // transparent for a correct writer
    if (!harmless) armed[l->str("file")] = true;
    sim::fs_arm(f);
  }
  Procedure pr(bal, cf.num("vbal"), nd, unit);
  sim::set_label(use ? "useCaseAge" : "cycleAge");
  auto o = call([&] { use ? pr.useCaseAge(su.get(), 0) : pr.cycleAge(su.get(), N, ncheck, nbal, cf.i("cv"), cf.num("cc"), cf.num("cd"), vmax, vmin); });
  sim::set_label("");
  const auto fired = sim::fs_faults_fired();
  sim::fs_heal();

  // ---- outcome and ageing
  const bool log_fault = armed.count("cycleAge_"), auto_flush = cf.i("max", 100000) < 100000;
  const bool aborted = o.threw && log_fault && auto_flush; // the flush of a cell in the middle of a step
  if (oref.threw != o.threw && !(o.threw && log_fault)) sim::violation("outcome", "the procedure ended with " + o.text() + ", the same steps without reports with " + oref.text());
  if (!aborted)
    if (auto d = diff(snapshot(ref.get()), snapshot(su.get())); !d.empty()) sim::violation("ageing", "the unit has not aged as by the same steps without reports: " + d);
  if (sim::fs_open_handles() != 0) sim::violation("handle", sim::strf("%d files are still open after the procedure", sim::fs_open_handles()));

  // ---- throughput
  if (!aborted && !(oref.threw && e.checks.empty())) {
    const bool th_fault = armed.count("_throughput.csv");
    if (o.threw || th_fault) { // what is not in the file yet can still be written
      auto o2 = call([&] { pr.writeThroughput(id, 1); });
      if (o2.threw) sim::violation("crash", "writing the throughput after the faults are gone failed: " + o2.text());
    }
    const auto lines = split_lines(sim::fs_read(f_th));
    std::vector<std::vector<double>> got;
    std::vector<double> v;
    size_t heads = 0, other = 0;
    for (size_t i = 0; i < lines.size(); i++) {
      if (lines[i].rfind("ID number", 0) == 0) heads++, other += i != 0;
      else if (th_line(lines[i], v)) got.push_back(v);
      else
        other++;
    }
    auto same = [&](const std::vector<double> &a, const std::array<double, 4> &b) {
      for (int k = 0; k < 4; k++)
        if (!eq6(a[k], b[k])) return false;
      return true;
    };
    if (!th_fault) {
      if (heads != 1 || other) sim::violation("throughput_format", sim::strf("the throughput report has %zu headers and %zu lines which are neither header nor entry", heads, other));
      if (got.size() != e.th.size()) sim::violation("throughput", sim::strf("the throughput report has %zu entries, %zu actions were completed", got.size(), e.th.size()));
      for (size_t i = 0; i < got.size(); i++)
        if (!same(got[i], e.th[i])) sim::violation("throughput", sim::strf("entry %zu of the throughput report is %g,%g,%g,%g, the action gave %g,%g,%g,%g", i, got[i][0], got[i][1], got[i][2], got[i][3], e.th[i][0], e.th[i][1], e.th[i][2], e.th[i][3]));
    } else { // nothing is lost: entries appear in order, some perhaps again
      size_t p = 0;
      for (size_t i = 0; i < e.th.size(); i++) {
        while (p < got.size() && !same(got[p], e.th[i])) p++;
        if (p == got.size()) sim::violation("throughput_lost", sim::strf("entry %zu of %zu (%g Ah) is not in the throughput report although it was written again after the faults were gone", i, e.th.size(), e.th[i][0]));
        p++;
      }
    }
  }
  // ---- check-ups
  {
    const bool faulty = armed.count("_checkUp.csv");
    const auto lines = split_lines(sim::fs_read(f_chk));
    std::vector<CellRow> all;
    for (auto &c : e.checks) all.insert(all.end(), c.begin(), c.end());
    auto match = [&](const std::string &l, const CellRow &r) -> std::string {
      auto f = fields(l);
      if (f.size() < 11 || f[0] != r.id) return "is not about cell " + r.id;
      for (size_t k = 0; k < r.v.size(); k++) {
        double d;
        if (!number(f[1 + k], d) || !eq6(d, r.v[k])) return sim::strf("has %s in column %zu instead of %g", f[1 + k].c_str(), k + 1, r.v[k]);
      }
      const size_t ns = f.size() - 11;
      if (ns != r.st.size()) return sim::strf("has %zu state variables, the cell %zu", ns, r.st.size());
      for (size_t k = 0; k < ns; k++) {
        double d;
        const double want = r.st[k];
        if (!number(f[11 + k], d) || !(eq6(d, want) || want == 0 || !r.valid)) return sim::strf("has the state %s instead of %g", f[11 + k].c_str(), want);
      }
      return "";
    };
    size_t li = 0, missing = 0;
    auto next = [&] {
      while (li < lines.size() && (lines[li].empty() || lines[li].rfind("ID,var", 0) == 0)) li++;
    };
    if (aborted) {
    } else if (!faulty) {
      for (size_t k = 0; k < all.size(); k++) {
        next();
        if (li == lines.size()) sim::violation("checkup", sim::strf("the check-up report has %zu of %zu lines for %zu check-ups", k, all.size(), e.checks.size()));
        if (auto m = match(lines[li], all[k]); !m.empty()) sim::violation("checkup", sim::strf("line '%s' of the check-up report ", lines[li].substr(0, 150).c_str()) + m);
        li++;
      }
      next();
      if (li != lines.size() && !oref.threw) sim::violation("checkup", "the check-up report has more lines than there are cells and check-ups: " + lines[li].substr(0, 100));
    } else { // check-ups which were not hit by a fault are complete
      size_t hit = 0;
      for (auto &c : e.checks) {
        size_t p = li, k = 0;
        for (; k < c.size(); k++) {
          while (p < lines.size() && !match(lines[p], c[k]).empty()) p++;
          if (p == lines.size()) break;
          p++;
        }
        if (k == c.size()) li = p;
        else
          missing++;
      }
      (void)hit;
      if (missing > fired) sim::violation("checkup_lost", sim::strf("%zu of %zu check-ups are not complete in the report although only %d file operations failed", missing, e.checks.size(), (int)fired));
    }
  }
  // ---- modules
  if (!o.threw && !armed.count("_checkModules_overall.csv")) {
    std::vector<StorageUnit *> ns;
    all_nodes(su.get(), ns);
    const auto lines = split_lines(sim::fs_read(f_mod));
    size_t li = 1;
    if (lines.empty() || lines[0].rfind("Full ID,", 0) != 0) sim::violation("modules", "the module report has no header");
    for (auto u : ns) {
      CoolSystem *cs = nullptr;
      if (auto m = dynamic_cast<Module *>(u)) cs = m->getCoolSystem();
      else if (auto b = dynamic_cast<Battery *>(u))
        cs = b->getCoolSystem();
      else
        continue;
      if (li >= lines.size()) sim::violation("modules", "the module report has no line for " + u->getFullID());
      auto f = fields(lines[li++]);
      const double want[] = { (double)u->getNcells(), cs->getTotalTime(), cs->getHeatEvac(), cs->getHeatabsorbed() };
      bool ok = f.size() == 5 && f[0] == u->getFullID();
      for (int k = 0; ok && k < 4; k++) {
        double d;
        ok = number(f[1 + k], d) && eq6(d, want[k]);
      }
      if (!ok) sim::violation("modules", sim::strf("line '%s' of the module report is not the one of %s with %g cells, %g s, %g J, %g J", lines[li - 1].c_str(), u->getFullID().c_str(), want[0], want[1], want[2], want[3]));
    }
    if (li != lines.size()) sim::violation("modules", "the module report has a line too many: " + lines[li]);
  }
  if (!o.threw && !armed.count("_checkModules_histograms.csv")) {
    const auto lines = split_lines(sim::fs_read(f_hist));
    std::vector<StorageUnit *> ns;
    all_nodes(su.get(), ns);
    size_t k = 0;
    std::vector<std::string> ids;
    for (auto &l : lines)
      if (l.rfind("Temperature statistics:,", 0) == 0) ids.push_back(l.substr(24));
    for (auto u : ns) {
      if (dynamic_cast<Cell *>(u)) continue;
      if (settings::DATASTORE_COOL == 1 && (k >= ids.size() || ids[k] != u->getFullID())) sim::violation("histograms", "the histogram report has no entry for " + u->getFullID());
      k++;
    }
    if (settings::DATASTORE_COOL == 1 && k != ids.size()) sim::violation("histograms", "the histogram report has too many entries");
  }
  // ---- state of the battery at the start of the last cycle
  if (!unit && !oref.threw && !aborted && e.last_state_cycle >= 0 && !armed.count("_state.csv")) {
    const auto lines = split_lines(sim::fs_read(f_state));
    if (lines.size() != e.last_state.size() + 1) sim::violation("state", sim::strf("the state report has %zu lines, the unit %zu states", lines.size(), e.last_state.size()));
    double d;
    if (!number(lines[0], d) || d != e.last_state_cycle) sim::violation("state", "the state report is of cycle " + lines[0]);
    for (size_t i = 0; i < e.last_state.size(); i++)
      if (!number(lines[i + 1], d) || !(eq6(d, e.last_state[i]) || e.last_state[i] == 0)) sim::violation("state", sim::strf("state %zu is %s in the report instead of %g", i, lines[i + 1].c_str(), e.last_state[i]));
  }
  // ---- data points of the cells
  if (!aborted && !oref.threw) {
    for (int rep = 0; rep < 2; rep++) {
      auto a = call([&] { ref->writeData("ref"); }), b = call([&] { su->writeData(pref); });
      if (a.threw || b.threw) sim::violation("flush", "a flush after the faults are gone failed: " + b.text());
    }
    auto ca = leaves(ref.get()), cb = leaves(su.get());
    for (size_t i = 0; i < ca.size(); i++) {
      const auto A = parse_log(sim::fs_read(cell_log_name("ref", ca[i]))), B = parse_log(sim::fs_read(cell_log_name(pref, cb[i])));
      if (!log_fault) {
        if (A.rows != B.rows) sim::violation("log", sim::strf("cell %zu: the log of the procedure has %zu data points, the same steps without reports store %zu (or they differ)", i, B.rows.size(), A.rows.size()));
      } else {
        size_t p = 0;
        for (size_t k = 0; k < A.rows.size(); k++) {
          while (p < B.rows.size() && B.rows[p] != A.rows[k]) p++;
          if (p == B.rows.size()) sim::violation("log_lost", sim::strf("cell %zu: data point %zu (t=%g) is not in the log of the procedure although it was flushed again after the faults were gone", i, k, A.rows[k][4]));
          p++;
        }
      }
    }
  }
  sim::observe(o.text());
  for (auto &t : e.th)
    for (double d : t) sim::observe_d(d);
  auto sn = snapshot(su.get());
  for (double d : sn) sim::observe_d(d);
  for (auto f : { f_th, f_mod, f_hist, f_state, f_chk }) sim::observe(sim::fs_read(f));
  double t = 0;
  for (auto c : leaves(su.get())) t = std::max(t, c->getThroughputs().time());
  sim::sh->simtime += t;
  sim::sh->nontrivial = e.th.size() > 0 && e.checks.size() > 0;
  sim::sh->statehash = coarse(sn);
}
static RegProp r14("C14", gen, run);
