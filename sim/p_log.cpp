// C03 every stored data point is written exactly once and in order, C04 storage faults never silently lose data
#include "world.hpp"
using namespace world;

static const char *PFX[3] = { "A", "B", "expC" };

static void gen_log_ops(sim::Rng &r, Scn &s, int n, int ncyc, bool faults, bool thorough)
{
  for (int i = 0; i < n; i++) {
    int c = (int)r.below(ncyc);
    int k = (int)r.below(14);
    auto nd = [&] { return r.chance(0.2) ? 0 : r.chance(0.15) ? r.range(8, 15) : r.range(1, 5); };
    auto dt = [&] { return r.chance(0.3) ? r.real(0.2, 3) : (double)r.range(1, 4); };
    double tmax = thorough ? 90 : 40;
    Line *l;
    if (k < 3) l = &s.add("cc").set("I", (r.chance(0.5) ? 1 : -1) * r.real(0.1, 1.5)).set("v", r.chance(0.5) ? (r.chance(0.5) ? 0.95 : 0.05) : r.real(0.2, 0.8)).set("t", r.chance(0.3) ? std::floor(r.real(1, tmax) * 10) / 10 : (double)r.range(3, (int)tmax)).set("dt", dt()).set("nd", nd());
    else if (k < 5) l = &s.add("cv").set("v", r.real(0.3, 0.7)).set("il", 0.05).set("t", (double)r.range(2, 20)).set("dt", dt()).set("nd", nd());
    else if (k < 6) l = &s.add("cccv").set("I", (r.chance(0.5) ? 1 : -1) * r.real(0.1, 1)).set("v", r.real(0.3, 0.7)).set("il", 0.02).set("t", (double)r.range(2, 25)).set("dt", dt()).set("nd", nd());
    else if (k < 8) l = &s.add("rest").set("t", (double)r.range(1, (int)tmax)).set("dt", dt()).set("nd", nd());
    else if (k < 9) l = &s.add("store");
    else if (k < 11) l = &s.add("flush");
    else if (k < 12) l = &s.add("ustore");
    else if (k < 13) l = &s.add("uflush");
    else l = &s.add("seti").set("I", r.real(-0.6, 0.6));
    l->set("c", c);
    if (faults && r.chance(0.35)) {
      const char *kinds[] = { "open", "enospc", "eio", "close", "shortw", "eintr" };
      auto &f = s.add("fsfault");
      f.set("kind", kinds[r.below(6)]).set("nth", r.chance(0.5) ? 0 : r.range(0, 8)).set("count", r.chance(0.6) ? 1 : r.chance(0.5) ? r.range(2, 5) : -1).set("arg", r.chance(0.4) ? 0 : r.chance(0.5) ? r.range(1, 40) : r.range(1, 3000));
      if (r.chance(0.4)) f.set("cell", (int64_t)r.below(12));
      if (s.lines.size() > 2 && r.chance(0.5)) std::swap(s.lines[s.lines.size() - 1], s.lines[s.lines.size() - 2]);
    }
    if (faults && r.chance(0.25)) s.add("heal");
  }
}
static PackCfg log_pack(sim::Rng &r, bool thorough)
{
  PackCfg c;
  c.maxcells = thorough ? 12 : 5;
  c.spm = r.chance(0.25);
  c.battery = true;
  c.spread = 0.02;
  return c;
}
static void gen03(sim::Rng &r, Scn &s, bool thorough)
{
  s.add("pack").set("spec", gen_pack(r, log_pack(r, thorough)).text());
  int nc = (int)r.range(1, 3);
  s.add("cfg").set("max", r.chance(0.3) ? r.range(40, 100000) : r.range(1, 30)).set("ncyc", nc);
  gen_log_ops(r, s, (int)r.range(2, thorough ? 20 : 9), nc, false, thorough);
  // long logs: many points in memory, many writes
  if (r.chance(0.06)) s.add("rest").set("t", std::floor(r.real(300, 4000))).set("dt", 1).set("nd", r.range(1, 3)).set("c", 0);
  if (r.chance(0.004)) {
    s.lines[1].set("spec", "B(soc:0.5)");
    s.lines[2].set("max", 100000);
    s.add("rest").set("t", std::floor(r.real(100500, 130000))).set("dt", 1).set("nd", 1).set("c", 0);
  }
}

static bool limit_reached(const Out &o) { return !o.threw && isLimitsReached(o.st); }
static bool close_t(double a, double b) { return std::fabs(a - b) <= 1e-7 * std::max(1.0, std::fabs(b)); }

static void check_cadence(const Line &l, const Out &o, const std::vector<Row> &rows, size_t r0, double t0, double t1, int cell)
{
  const int nd = (int)l.i("nd");
  if (nd <= 0 || !(l.kind == "cc" || l.kind == "cv" || l.kind == "rest" || l.kind == "cccv")) return;
  if (o.threw || isStatusBad(o.st)) {
    // a failed step: only the spacing of what is there
  } else if (limit_reached(o) || o.st == Status::Success) {
    if (rows.size() <= r0) sim::violation("no_points", sim::strf("cell %d: '%s' ended with %s but stored no data point", cell, l.text().c_str(), o.text().c_str()));
    if (!close_t(rows[r0].time, t0)) sim::violation("no_start", sim::strf("cell %d: '%s' has its first data point at %g s instead of at its start at %g s", cell, l.text().c_str(), rows[r0].time, t0));
    if (limit_reached(o) && !close_t(rows.back().time, t1)) sim::violation("no_end", sim::strf("cell %d: '%s' ended at %g s with %s but its last data point is at %g s", cell, l.text().c_str(), t1, o.text().c_str(), rows.back().time));
  }
  const double gap = 2 * nd * l.num("dt", 1);
  for (size_t i = r0 + 1; i < rows.size(); i++) {
    double d = rows[i].time - rows[i - 1].time;
    if (d > gap * (1 + 1e-6) + 1e-6) sim::violation("gap", sim::strf("cell %d: '%s': data points %g s apart, more than twice the requested interval", cell, l.text().c_str(), d));
    if (d < -1e-9) sim::violation("order", sim::strf("cell %d: data points go back in time", cell));
  }
  if (!rows.empty() && rows.size() > r0 && !o.threw && !isStatusBad(o.st) && t1 - rows.back().time > gap * (1 + 1e-6) + 1e-6)
    sim::violation("gap", sim::strf("cell %d: '%s': the step went on for %g s after its last data point", cell, l.text().c_str(), t1 - rows.back().time));
}

static Out log_op(const Line &l, StorageUnit *su, std::vector<Cycler> &cy, std::vector<ThroughputData> &th, int &c)
{
  c = (int)(l.i("c") % (int64_t)cy.size());
  if (l.kind == "ustore") return call([&] { su->storeData(); return Status::Success; });
  if (l.kind == "uflush") return call([&] { su->writeData(PFX[c]); return Status::Success; });
  return do_op(l, su, cy[c], th[c]);
}

static void run03(const Scn &s)
{
  Node n = parse_node(s.get("pack").str("spec"));
  BuildOpt bo;
  bo.par = 0;
  auto su = build(n, bo);
  auto cells = leaves(su.get());
  for (auto c : cells) probe(c)->rec_rows = true;
  slide::settings::CELL_NDATA_MAX = (size_t)s.get("cfg").i("max", 10);
  const int nc = (int)s.get("cfg").i("ncyc", 1);
  std::vector<Cycler> cy;
  std::vector<ThroughputData> th(nc);
  for (int i = 0; i < nc; i++) cy.emplace_back(su.get(), PFX[i]);

  const size_t N = cells.size();
  std::vector<std::vector<std::string>> content(N, std::vector<std::string>(3));
  std::vector<std::vector<size_t>> nfile(N, std::vector<size_t>(3, 0)); // rows in each file so far
  std::vector<size_t> written(N, 0);                                    // rows of the cell which are in some file
  size_t direct = 0;

  auto scan = [&](const Line &l, int c, bool all) {
    for (size_t i = 0; i < N; i++) {
      auto p = probe(cells[i]);
      for (int f = 0; f < nc; f++) {
        std::string now = sim::fs_read(cell_log_name(PFX[f], cells[i]));
        auto &old = content[i][f];
        if (now.compare(0, old.size(), old) != 0 || now.size() < old.size()) sim::violation("altered", sim::strf("after '%s' earlier content of the log of cell %zu was changed", l.text().c_str(), i));
        if (now.size() != old.size()) {
          if (f != c) sim::violation("wrong_file", sim::strf("'%s' with prefix %s wrote to the log with prefix %s", l.text().c_str(), PFX[c], PFX[f]));
          old = now;
          Log L = parse_log(now);
          if (!L.torn.empty()) sim::violation("line", sim::strf("the log of cell %zu has a line which is not one data point: '%s'", i, L.torn[0].substr(0, 150).c_str()));
          for (size_t k = nfile[i][f]; k < L.rows.size(); k++) {
            if (written[i] >= p->rows.size()) sim::violation("twice", sim::strf("after '%s' the logs of cell %zu contain more data points than were stored (%zu)", l.text().c_str(), i, p->rows.size()));
            if (!row_matches(L.rows[k], p->rows[written[i]])) {
              auto &x = p->rows[written[i]];
              auto &r = L.rows[k];
              sim::violation("content", sim::strf("after '%s' data point %zu of cell %zu in the log is %g,%g,%g,%g,%g,%g,%g but %g,%g,%g,%g,%g,%g,%g was stored", l.text().c_str(), written[i], i, r[0], r[1], r[2], r[3], r[4], r[5], r[6], x.I, x.V, x.SOC, x.T, x.time, x.Ah, x.Wh));
            }
            written[i]++;
          }
          if (L.rows.size() < nfile[i][f]) sim::violation("altered", "a log has fewer data points than before");
          nfile[i][f] = L.rows.size();
        }
      }
      if (all && written[i] != p->rows.size()) sim::violation("missing", sim::strf("after '%s' %zu of the %zu data points stored for cell %zu are not in its log", l.text().c_str(), p->rows.size() - written[i], p->rows.size(), i));
      if (p->rows.size() - written[i] > (size_t)nc * (slide::settings::CELL_NDATA_MAX + 1) + direct) sim::violation("no_autoflush", sim::strf("cell %zu keeps %zu data points in memory, the limit is %zu", i, p->rows.size() - written[i], slide::settings::CELL_NDATA_MAX));
    }
  };

  bool wrote = false;
  for (auto &l : s.lines) {
    if (l.kind == "prop" || l.kind == "pack" || l.kind == "sched" || l.kind == "cfg" || l.kind == "plan" || l.kind == "preempt") continue;
    sim::set_label(l.text().c_str());
    std::vector<size_t> r0;
    std::vector<double> t0;
    for (auto c : cells) { r0.push_back(probe(c)->rows.size()); t0.push_back(c->getThroughputs().time()); }
    std::vector<double> before;
    const bool pure = l.kind == "store" || l.kind == "flush" || l.kind == "ustore" || l.kind == "uflush";
    if (pure) before = snapshot(su.get());
    int c;
    auto o = log_op(l, su.get(), cy, th, c);
    if (pure) {
      if (o.threw) sim::violation("failed", "'" + l.text() + "' failed without a fault: " + o.text());
      auto d = diff(before, snapshot(su.get()));
      if (!d.empty()) sim::violation("changed", "'" + l.text() + "' changed the unit: " + d);
      if (l.kind == "store" || l.kind == "ustore")
        for (size_t i = 0; i < N; i++)
          if (probe(cells[i])->rows.size() != r0[i] + 1) sim::violation("not_stored", sim::strf("'%s' stored %zu data points for cell %zu", l.text().c_str(), probe(cells[i])->rows.size() - r0[i], i));
      if (l.kind == "ustore") direct++;
    }
    for (size_t i = 0; i < N; i++) {
      if (probe(cells[i])->store_changed) sim::violation("changed", "storing a data point changed the states of a cell");
      check_cadence(l, o, probe(cells[i])->rows, r0[i], t0[i], cells[i]->getThroughputs().time(), (int)i);
    }
    scan(l, c, l.kind == "flush" || l.kind == "uflush");
    sim::observe(&o.st, 1);
  }
  Line fin("final flush");
  auto o = call([&] { cy[0].writeData(); });
  if (o.threw) sim::violation("failed", "the final flush failed: " + o.text());
  scan(fin, 0, true);
  std::string why;
  if (!sim::fs_history_ok(&why)) sim::violation("altered", why);
  uint64_t h = 0;
  size_t tot = 0;
  for (size_t i = 0; i < N; i++) {
    tot += written[i];
    for (int f = 0; f < nc; f++) { sim::observe(content[i][f]); h = sim::fnvs(content[i][f], h); }
    sim::sh->simtime = std::max(sim::sh->simtime, probe(cells[i])->dtsum);
  }
  sim::sh->statehash = h;
  sim::sh->nontrivial = tot > N * 2;
}
static RegProp r03("C03", gen03, run03);

// ------------------------------------------------------------------------------------ C04
static void gen04(sim::Rng &r, Scn &s, bool thorough)
{
  s.add("pack").set("spec", gen_pack(r, log_pack(r, thorough)).text());
  int nc = (int)r.range(1, 2);
  s.add("cfg").set("max", r.chance(0.3) ? r.range(40, 100000) : r.range(1, 30)).set("ncyc", nc).set("crash", r.next() >> 1).set("ncrash", r.range(2, 6));
  gen_log_ops(r, s, (int)r.range(3, thorough ? 20 : 10), nc, true, thorough);
}
static void arm_fs(const Line &l, const std::vector<Cell *> &cells)
{
  sim::FsFault f;
  auto k = l.str("kind");
  f.kind = k == "open" ? sim::F_OPEN : k == "enospc" ? sim::F_ENOSPC : k == "eio" ? sim::F_EIO_W : k == "close" ? sim::F_CLOSE : k == "shortw" ? sim::F_SHORTW : sim::F_EINTR_W;
  f.match = l.has("cell") ? cells[l.u("cell") % cells.size()]->getFullID() + "_cellData" : std::string("/results/");
  f.nth = (int)l.i("nth");
  f.count = (int)l.i("count", 1);
  if (f.kind == sim::F_EINTR_W && (f.count < 0 || f.count > 20)) f.count = 20; // interrupted for ever is not a fault which ends
  f.arg = l.i("arg");
  sim::fs_arm(f);
}
// every stored row is in the file(s), in order; every row in a file was stored
static void check_all(const char *when, size_t i, const std::vector<Row> &rows, size_t n, const std::vector<Log> &logs, bool exact)
{
  // with several prefixes the rows of one cell are spread over the files: each stored row must be matched in order in the file it went to
  std::vector<size_t> pos(logs.size(), 0);
  // a stored row may be in any of the files; greedy per file is exact for one file, for more files membership is checked
  if (logs.size() == 1) {
    size_t p = 0;
    for (size_t k = 0; k < n; k++) {
      while (p < logs[0].rows.size() && !row_matches(logs[0].rows[p], rows[k])) p++;
      if (p == logs[0].rows.size()) sim::violation("lost", sim::strf("%s: data point %zu (t=%g) of cell %zu is not in its log although no flush of it reported an error since", when, k, rows[k].time, i));
      p++;
    }
  } else {
    for (size_t k = 0; k < n; k++) {
      bool f = false;
      for (auto &L : logs)
        for (auto &r : L.rows)
          if (row_matches(r, rows[k])) { f = true; break; }
      if (!f) sim::violation("lost", sim::strf("%s: data point %zu (t=%g) of cell %zu is in none of its logs although no flush of it reported an error since", when, k, rows[k].time, i));
    }
  }
  size_t tot = 0;
  for (auto &L : logs) {
    tot += L.rows.size();
    for (auto &r : L.rows) {
      bool f = false;
      for (auto &x : rows) if (row_matches(r, x)) { f = true; break; }
      // the remains of a failed write may end within the last number of a line, which then still looks like a data point
      if (!f && !exact && r.size() == 7)
        for (auto &x : rows) {
          auto r2 = r;
          r2[6] = x.Wh;
          if (row_matches(r2, x) && std::fabs(r[6]) <= std::fabs(x.Wh) * 1.0001 + 1e-4) { f = true; break; }
        }
      if (!f) sim::violation("garbage", sim::strf("%s: the log of cell %zu has the data point %g,%g,%g,%g,%g,%g,%g which was never stored", when, i, r[0], r[1], r[2], r[3], r[4], r[5], r[6]));
    }
  }
  if (exact) {
    if (tot > n) sim::violation("twice", sim::strf("%s: the logs of cell %zu have %zu data points, %zu were stored and no write failed", when, i, tot, n));
    for (auto &L : logs)
      if (!L.torn.empty()) sim::violation("line", sim::strf("%s: the log of cell %zu has the broken line '%s' although no write failed", when, i, L.torn[0].substr(0, 120).c_str()));
  }
}

static void run04(const Scn &s)
{
  Node n = parse_node(s.get("pack").str("spec"));
  BuildOpt bo;
  bo.par = 0;
  slide::settings::CELL_NDATA_MAX = (size_t)s.get("cfg").i("max", 10);
  const int nc = (int)s.get("cfg").i("ncyc", 1);
  auto su = build(n, bo), twin = build(n, bo);
  auto cells = leaves(su.get());
  const size_t N = cells.size();
  std::vector<Cycler> cy, cy2;
  std::vector<ThroughputData> th(nc), th2(nc);
  for (int i = 0; i < nc; i++) { cy.emplace_back(su.get(), PFX[i]); cy2.emplace_back(twin.get(), "twin"); }
  std::vector<bool> failed(N, false); // a flush of this cell has failed at some time
  struct Mark { size_t ops; size_t cell; std::string file; std::string content; };
  std::vector<Mark> marks;
  bool anyfail = false;
  auto logs = [&](size_t i) {
    std::vector<Log> L;
    for (int f = 0; f < nc; f++) L.push_back(parse_log(sim::fs_read(cell_log_name(PFX[f], cells[i]))));
    return L;
  };
  for (size_t i = 0; i < N; i++) {
    auto p = probe(cells[i]);
    p->rec_rows = true;
    p->on_flush = [&, i, p](const std::string &pre, bool bad) {
      sim::AllocOff ao;
      if (bad) {
        failed[i] = true;
        anyfail = true;
        return;
      }
      // the flush said everything is written
      check_all("after a flush which reported no error", i, p->rows, p->rows.size(), logs(i), !failed[i]);
      std::string f = cell_log_name(pre, cells[i]);
      marks.push_back(Mark{ sim::fs_log().size(), i, f, sim::fs_read(f) });
    };
  }
  bool twin_ok = true;
  auto ops_end = s.lines.size();
  (void)ops_end;
  for (auto &l : s.lines) {
    if (l.kind == "prop" || l.kind == "pack" || l.kind == "sched" || l.kind == "cfg" || l.kind == "plan" || l.kind == "preempt") continue;
    if (l.kind == "fsfault") { arm_fs(l, cells); continue; }
    if (l.kind == "heal") { sim::fs_heal(); continue; }
    sim::set_label(l.text().c_str());
    int c;
    anyfail = false;
    const bool pure = l.kind == "store" || l.kind == "flush" || l.kind == "ustore" || l.kind == "uflush";
    std::vector<double> before;
    if (pure) before = snapshot(su.get());
    auto o = log_op(l, su.get(), cy, th, c);
    if (anyfail && !o.threw && !isStatusBad(o.st)) sim::violation("swallowed", "a flush failed during '" + l.text() + "' but the caller was told " + o.text());
    if (o.threw && !anyfail && pure) sim::violation("spurious", "'" + l.text() + "' failed although no flush of a cell failed: " + o.text());
    if (pure) {
      auto d = diff(before, snapshot(su.get()));
      if (!d.empty()) sim::violation("changed", "'" + l.text() + "' changed the unit: " + d);
    } else if (twin_ok) {
      // the same step on a twin which never stores anything in a faulty file
      int c2;
      sim::fs_heal_pause(true);
      auto o2 = log_op(l, twin.get(), cy2, th2, c2);
      sim::fs_heal_pause(false);
      if (o.threw) twin_ok = false; // the step ended early
      else {
        if (!(o == o2)) sim::violation("outcome", "'" + l.text() + "' gave " + o.text() + " with storage faults, " + o2.text() + " without");
        auto d = diff(snapshot(twin.get()), snapshot(su.get()));
        if (!d.empty()) sim::violation("changed", "storage faults changed the simulated unit: " + d);
      }
    }
    sim::observe(&o.st, 1);
  }
  // the faults are gone: a flush brings everything into the file
  sim::fs_heal();
  sim::set_label("flush after the faults are gone");
  for (int rep = 0; rep < 2; rep++) {
    auto o = call([&] { cy[0].writeData(); });
    if (o.threw) sim::violation("not_recovered", "a flush still fails after the faults are gone: " + o.text());
  }
  for (size_t i = 0; i < N; i++) check_all("after the faults were gone and everything was flushed", i, probe(cells[i])->rows, probe(cells[i])->rows.size(), logs(i), !failed[i]);
  if (sim::fs_open_handles() != 0) sim::violation("handle", sim::strf("%d files are still open after all flushes", sim::fs_open_handles()));
  std::string why;
  if (!sim::fs_history_ok(&why)) sim::violation("altered", why);
  // crash points: what had been flushed is intact whatever happened afterwards
  sim::Rng r(s.get("cfg").u("crash", 1));
  const size_t total = sim::fs_log().size();
  for (int k = 0; k < s.get("cfg").i("ncrash", 0) && total; k++) {
    size_t at = r.below(total + 1);
    long torn = r.chance(0.7) ? (long)r.below(400) : -1;
    sim::count_fault(sim::F_CRASH);
    if (torn >= 0) sim::count_fault(sim::F_TORN);
    std::map<std::string, std::string> img;
    for (auto &m : marks) {
      if (m.ops > at) continue;
      auto im = img[m.file] = sim::fs_crash_image(m.file, at, m.ops < at ? torn : -1);
      if (im.compare(0, m.content.size(), m.content) != 0) sim::violation("crash", sim::strf("a crash after %zu file operations destroys data of cell %zu flushed before", at, m.cell));
    }
    // restart from the crash image: the same experiment appends to the same files
    if (k == 0 && !img.empty()) {
      for (auto &[f, c] : img) sim::fs_add_file(f, c);
      auto su2 = build(n, bo);
      auto cells2 = leaves(su2.get());
      Cycler c2(su2.get(), PFX[0]);
      for (auto c : cells2) probe(c)->rec_rows = true;
      for (int q = 0; q < 3; q++) { call([&] { c2.storeData(); }); call([&] { su2->timeStep_CC(1, 2); }); }
      auto o = call([&] { c2.writeData(); });
      if (o.threw) sim::violation("crash", "after a crash the flush of the restarted experiment fails: " + o.text());
      for (size_t i = 0; i < N; i++) {
        auto f = cell_log_name(PFX[0], cells2[i]);
        if (!img.count(f)) continue;
        auto now = sim::fs_read(f);
        if (now.compare(0, img[f].size(), img[f]) != 0) sim::violation("crash", "the restarted experiment altered the log written before the crash");
        auto a = parse_log(img[f]), b = parse_log(now);
        auto &rows = probe(cells2[i])->rows;
        if (b.rows.size() < rows.size()) sim::violation("crash", "the restarted experiment lost data points");
        for (size_t q = 0; q < rows.size(); q++)
          if (!row_matches(b.rows[b.rows.size() - rows.size() + q], rows[q])) sim::violation("crash", sim::strf("data point %zu of the restarted experiment is not in the log of cell %zu", q, i));
      }
    }
  }
  uint64_t h = 0;
  for (size_t i = 0; i < N; i++)
    for (int f = 0; f < nc; f++) {
      auto c = sim::fs_read(cell_log_name(PFX[f], cells[i]));
      sim::observe(c);
      h = sim::fnvs(c, h);
    }
  for (auto c : cells) sim::sh->simtime = std::max(sim::sh->simtime, probe(c)->dtsum);
  sim::sh->statehash = h;
  sim::sh->nontrivial = sim::fs_faults_fired() > 0;
}
static RegProp r04("C04", gen04, run04);
