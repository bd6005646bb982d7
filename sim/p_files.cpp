// C06 faulty input files give an error or exact data, never a hang or garbage
#include "ops.hpp"
#include "procedures/determine_OCV.hpp"
#include <unistd.h>
#include <sys/wait.h>
using namespace world;

static const char *CURVES[] = { "Kokam_OCV_C.csv", "Kokam_OCV_NMC.csv", "Kokam_entropic_C.csv", "Kokam_entropic_cell.csv", "LGChem_OCV_C.csv", "OCVfit_cell.csv", "OCVfit_cathode.csv", "OCVfit_anode.csv", "Characterisation_1C_CC_discharge.csv", "Characterisation_0.2C_CC_discharge.csv" };
static const char *TABLES[] = { "profiles/drive_cycles/HWFET.csv", "profiles/drive_cycles/NYCC.csv", "Cheb_Q.csv", "Kokam_OCV_C.csv", "OCVfit_sim.csv", "Characterisation_2C_CC_discharge.csv", "profiles/drive_cycles/ArtemisM_scaled.csv" };
static const char *MATS[] = { "Cheb_Q.csv", "Cheb_Cn.csv", "Cheb_Vp.csv", "Cheb_An.csv", "Cheb_input.csv" };
static const char *SPMFILES[] = { "Kokam_OCV_C.csv", "Kokam_OCV_NMC.csv", "Kokam_entropic_C.csv", "Kokam_entropic_cell.csv", "Cheb_Nodes.csv", "Cheb_An.csv", "Cheb_Ap.csv", "Cheb_Bn.csv", "Cheb_Bp.csv", "Cheb_Cc.csv", "Cheb_Dn.csv", "Cheb_Dp.csv", "Cheb_input.csv", "Cheb_Cn.csv", "Cheb_Cp.csv", "Cheb_Vn.csv", "Cheb_Vp.csv", "Cheb_Q.csv" };
static const char *OCVFILES[] = { "OCVfit_cathode.csv", "OCVfit_anode.csv", "OCVfit_cell.csv" };

static void gen(sim::Rng &r, Scn &s, bool thorough)
{
  // files which are shorter than they should be, from the start
  if (r.chance(0.25)) {
    const int n = r.range(1, 2);
    for (int i = 0; i < n; i++) s.add("trunc").set("file", r.chance(0.6) ? SPMFILES[r.below(18)] : CURVES[r.below(10)]).set("at", r.chance(0.3) ? 0.0 : r.unit()).set("cr", r.chance(0.3) ? 1 : 0);
  }
  const int n = r.range(1, thorough ? 10 : 6);
  for (int i = 0; i < n; i++) {
    const int k = (int)r.below(10);
    std::string f;
    if (k < 4) {
      s.add("cell").set("sei", r.range(0, 3)).set("kind", r.chance(0.3) ? 1 : 0);
      f = SPMFILES[r.below(18)];
    } else if (k < 6) {
      f = CURVES[r.below(10)];
      s.add("curve").set("file", f).set("ty", r.chance(0.5) ? "vv" : "ss").set("n", r.chance(0.5) ? 0 : r.chance(0.2) ? 5000 : r.range(1, 30));
    } else if (k < 7) {
      f = TABLES[r.below(thorough ? 7 : 6)];
      s.add("table").set("file", f).set("n", r.chance(0.5) ? 0 : r.range(1, 40));
    } else if (k < 9) {
      f = MATS[r.below(5)];
      s.add("mat").set("file", f);
    } else {
      s.add("ocv");
      f = OCVFILES[r.below(3)];
    }
    if (r.chance(0.75)) {
      const char *kinds[] = { "missing", "open", "eio", "eio", "eio", "short", "eintr", "empty" };
      Line &l = s.add("rfault");
      const std::string w = kinds[r.below(8)];
      l.set("kind", w).set("match", r.chance(0.8) ? f : r.chance(0.5) ? "Cheb" : ".csv").set("nth", r.chance(0.6) ? 0 : r.range(0, 4));
      l.set("count", w == "eio" || w == "empty" ? -1 : w == "short" ? (r.chance(0.5) ? -1 : r.range(1, 5)) : r.chance(0.5) ? 1 : r.chance(0.5) ? r.range(2, 6) : -1).set("arg", r.chance(0.3) ? (int64_t)0 : (int64_t)r.below(r.chance(0.5) ? 60 : 1500));
      if (w == "eintr") l.set("count", r.range(1, 8));
      std::swap(s.lines[s.lines.size() - 1], s.lines[s.lines.size() - 2]); // armed before the operation
    }
    if (r.chance(0.25)) s.add("heal");
  }
}

static std::string data_path(const std::string &f) { return std::string(ROOT) + "/data/" + f; }
struct Parsed {
  std::vector<double> x, y;                // complete rows of two columns
  std::vector<std::vector<double>> rows;   // all lines
  std::vector<double> all;
  bool irregular = false;
};
static Parsed parse(const std::string &t)
{
  Parsed p;
  size_t b = 0;
  while (b < t.size() && (signed char)t[b] < 45) b++;
  const char *c = t.c_str() + b;
  // pairs
  const char *q = c;
  for (;;) {
    char *e;
    double x = strtod(q, &e);
    if (e == q) break;
    q = e;
    while (isspace((unsigned char)*q)) q++;
    if (!*q) break;
    q++;
    double y = strtod(q, &e);
    if (e == q) break;
    q = e;
    p.x.push_back(x);
    p.y.push_back(y);
  }
  std::istringstream is(t.substr(b));
  std::string ln;
  while (std::getline(is, ln)) {
    std::vector<double> v;
    const char *q = ln.c_str();
    for (;;) {
      char *e;
      double x = strtod(q, &e);
      if (e == q) break;
      v.push_back(x);
      q = e;
      while (isspace((unsigned char)*q)) q++;
      if (!*q) break;
      q++;
    }
    if (!p.rows.empty() && p.rows[0].size() != v.size()) p.irregular = true;
    p.rows.push_back(v);
    p.all.insert(p.all.end(), v.begin(), v.end());
  }
  return p;
}

static bool same(const std::vector<double> &a, const std::vector<double> &b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), 8 * a.size())); }

// what a new cell does
static std::vector<double> try_cell(const Line &l)
{
  DEG_ID d;
  if (l.i("sei")) d.SEI_id.add_model((DEG_ID::data_t)l.i("sei"));
  std::unique_ptr<Cell_SPM> c;
  if (l.i("kind")) c = std::make_unique<Cell_SPM>();
  else
    c = std::make_unique<Cell_SPM>("cell", d, 1, 1, 1, 1);
  c->setBlockDegAndTherm(true);
  std::vector<double> v;
  auto add = [&] {
    v.push_back(c->V());
    v.push_back(c->getOCV());
    std::vector<double> s;
    c->getStates(s);
    v.insert(v.end(), s.begin(), s.end());
  };
  add();
  for (double I : { 8.0, -3.0 }) {
    v.push_back((double)c->setCurrent(I, false, false));
    c->timeStep_CC(2, 15);
    add();
  }
  return v;
}
template <size_t R, size_t C>
static std::vector<double> try_mat(const std::string &f)
{
  std::vector<double> v;
  if constexpr (C == 1) {
    std::array<double, R> a{};
    loadCSV_1col(PathVar::data / f, a);
    v.assign(a.begin(), a.end());
  } else {
    Matrix<double, R, C> m{};
    loadCSV_mat(PathVar::data / f, m);
    for (auto &r : m)
      for (double d : r) v.push_back(d);
  }
  return v;
}

struct Got {
  Out o;
  std::vector<double> v, w;
  long rows = -1, cols = -1;
};
static Got attempt(const Line &l)
{
  Got g;
  const auto f = l.str("file");
  const int n = (int)l.i("n");
  g.o = call([&] {
    if (l.kind == "cell") g.v = try_cell(l);
    if (l.kind == "curve") {
      if (l.str("ty") == "vv") {
        XYdata_vv c;
        if (n) loadCSV_2col(PathVar::data / f, c, n);
        else
          c.setCurve(PathVar::data / f);
        g.v = c.x;
        g.w = c.y;
      } else {
        std::span<double> x, y;
        if (n) loadCSV_2col(PathVar::data / f, x, y, n);
        else {
          XYdata_ss c;
          c.setCurve(PathVar::data / f);
          x = c.x;
          y = c.y;
        }
        g.v.assign(x.begin(), x.end());
        g.w.assign(y.begin(), y.end());
      }
    }
    if (l.kind == "table") {
      DynamicMatrix<double> m;
      loadCSV_Ncol(PathVar::data / f, m, n);
      g.v = m.data;
      g.rows = m.rows();
      g.cols = m.cols();
    }
    if (l.kind == "mat") {
      if (f == "Cheb_Q.csv") g.v = try_mat<2 * settings::nch + 3, 2 * settings::nch + 3>(f);
      if (f == "Cheb_Cn.csv") g.v = try_mat<settings::nch + 1, settings::nch>(f);
      if (f == "Cheb_Vp.csv") g.v = try_mat<settings::nch, settings::nch>(f);
      if (f == "Cheb_An.csv") g.v = try_mat<settings::nch, 1>(f);
      if (f == "Cheb_input.csv") g.v = try_mat<4, 1>(f);
    }
    if (l.kind == "ocv") {
      XYdata_vv p, n, c;
      readOCVinput(OCVFILES[0], OCVFILES[1], OCVFILES[2], p, n, c);
      for (auto q : { &p, &n, &c }) {
        g.v.insert(g.v.end(), q->x.begin(), q->x.end());
        g.w.insert(g.w.end(), q->y.begin(), q->y.end());
      }
    }
    return Status::Success;
  });
  return g;
}
static size_t mat_size(const std::string &f)
{
  const size_t n = settings::nch;
  return f == "Cheb_Q.csv" ? (2 * n + 3) * (2 * n + 3) : f == "Cheb_Cn.csv" ? (n + 1) * n : f == "Cheb_Vp.csv" ? n * n : f == "Cheb_An.csv" ? n : 4;
}

static void run(const Scn &s)
{
  // a cell with healthy files (in another process, so that nothing is cached here)
  std::map<std::string, std::vector<double>> ref;
  for (auto &l : s.lines)
    if (l.kind == "cell" && !ref.count(l.text())) {
      int fd[2];
      if (pipe(fd)) sim::harness_error("pipe");
      pid_t pid = fork();
      if (pid == 0) {
        auto g = attempt(l);
        if (g.o.threw) sim::violation("healthy", "a cell could not be created from healthy files: " + g.o.text());
        ssize_t k = write(fd[1], g.v.data(), 8 * g.v.size());
        _exit(k == (ssize_t)(8 * g.v.size()) ? 0 : 3);
      }
      close(fd[1]);
      std::string b;
      char buf[65536];
      for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) > 0;) b.append(buf, (size_t)k);
      close(fd[0]);
      int st = 0;
      waitpid(pid, &st, 0);
      if (sim::sh->res != sim::Res::None) _exit(0);
      if (st) sim::violation("crash", "creating a cell from healthy files crashed");
      auto &v = ref[l.text()];
      v.resize(b.size() / 8);
      memcpy(v.data(), b.data(), v.size() * 8);
    }
  std::map<std::string, std::string> text;
  bool spm_trunc = false, cheb_trunc = false;
  for (auto &l : s.lines)
    if (l.kind == "trunc") {
      const auto f = l.str("file");
      auto t = sim::fs_read(data_path(f));
      t.resize((size_t)(l.num("at") * t.size()));
      if (l.i("cr")) {
        std::string u;
        for (char c : t) {
          if (c == '\n' && (u.empty() || u.back() != '\r')) u += '\r';
          u += c;
        }
        t = u;
      }
      sim::fs_add_file(data_path(f), t);
      sim::count_fault(sim::F_TORN);
      for (auto q : SPMFILES)
        if (f == q) spm_trunc = true;
      if (f.find("Cheb") == 0) cheb_trunc = true;
    }
  auto check = [&](const Line &l, bool faulty, const std::string &when) {
    sim::set_label((l.text() + when).c_str());
    const uint64_t f0 = sim::fs_faults_fired();
    auto g = attempt(l);
    const bool fired = sim::fs_faults_fired() > f0;
    if (fired) sim::sh->nontrivial = 1;
    const auto how = "'" + l.text() + "'" + when + (fired ? ", a read failed inside," : "");
    if (sim::fs_open_handles()) sim::violation("handle", how + " left a file open");
    sim::observe(g.o.text());
    const auto f = l.str("file");
    if (l.kind == "cell") {
      if (g.o.threw) {
        if (!fired && !spm_trunc) sim::violation("failed", how + " failed with " + g.o.text() + " although every file could be read");
        return;
      }
      for (double d : g.v) sim::observe_d(d);
      if (spm_trunc) return;
      if (!same(g.v, ref[l.text()])) sim::violation("garbage", how + " gave a cell which is different from a cell of healthy files");
      return;
    }
    if (l.kind == "ocv") {
      std::vector<double> x, y;
      bool tr = false;
      for (auto q : OCVFILES) {
        auto p = parse(sim::fs_read(data_path(q)));
        x.insert(x.end(), p.x.begin(), p.x.end());
        y.insert(y.end(), p.y.begin(), p.y.end());
        for (auto &t : s.lines) tr |= t.kind == "trunc" && t.str("file") == q;
      }
      if (g.o.threw) {
        if (!fired && !tr) sim::violation("failed", how + " failed with " + g.o.text());
        return;
      }
      if (!same(g.v, x) || !same(g.w, y)) sim::violation("garbage", how + " gave curves which are not those of the files");
      return;
    }
    const auto p = parse(sim::fs_read(data_path(f)));
    const size_t n = (size_t)l.i("n");
    if (l.kind == "curve") {
      if (g.o.threw) {
        if (!fired && !p.x.empty()) sim::violation("failed", how + " failed with " + g.o.text());
        return;
      }
      auto x = p.x, y = p.y;
      if (n && n < x.size()) x.resize(n), y.resize(n);
      if (!same(g.v, x) || !same(g.w, y)) sim::violation("garbage", how + sim::strf(" gave a curve which is not the one in the file (%zu rows instead of %zu)", g.v.size(), x.size()));
    }
    if (l.kind == "table") {
      if (g.o.threw) {
        if (!fired && !p.rows.empty()) sim::violation("failed", how + " failed with " + g.o.text());
        return;
      }
      std::vector<double> v;
      size_t k = 0;
      for (auto &r : p.rows) {
        if (n && k >= n) break;
        v.insert(v.end(), r.begin(), r.end());
        k++;
      }
      if (!same(g.v, v)) sim::violation("garbage", how + sim::strf(" gave a table which is not the one in the file (%zu values instead of %zu)", g.v.size(), v.size()));
      if (!p.irregular && (g.cols != (long)k || g.rows * (long)k != (long)v.size())) sim::violation("garbage", how + sim::strf(" gave a table of %ld x %ld for %zu lines of %zu values", g.rows, g.cols, k, v.size()));
    }
    if (l.kind == "mat") {
      const size_t m = mat_size(f);
      if (g.o.threw) {
        if (!fired && p.all.size() >= m) sim::violation("failed", how + " failed with " + g.o.text());
        return;
      }
      auto v = p.all;
      if (v.size() < m) sim::violation("garbage", how + " gave a matrix although the file is too short");
      v.resize(m);
      if (!same(g.v, v)) sim::violation("garbage", how + " gave a matrix which is not the one in the file");
    }
    for (double d : g.v) sim::observe_d(d);
  };
  for (auto &l : s.lines) {
    if (l.kind == "rfault") {
      sim::FsFault f;
      const auto w = l.str("kind");
      f.kind = w == "missing" ? sim::F_MISSING : w == "open" ? sim::F_OPEN : w == "eio" ? sim::F_READ_EIO : w == "short" ? sim::F_READ_SHORT : w == "eintr" ? sim::F_READ_EINTR : sim::F_EMPTY;
      f.match = l.str("match");
      f.nth = (int)l.i("nth");
      f.count = (int)l.i("count", 1);
      f.arg = (long)l.i("arg");
      if (w == "empty") f.nth = 0; // else it is a shorter file
      sim::fs_arm(f);
    } else if (l.kind == "heal")
      sim::fs_heal();
    else if (l.kind == "cell" || l.kind == "curve" || l.kind == "table" || l.kind == "mat" || l.kind == "ocv")
      check(l, true, "");
  }
  sim::fs_heal();
  for (auto &l : s.lines)
    if (l.kind == "cell" || l.kind == "curve" || l.kind == "table" || l.kind == "mat" || l.kind == "ocv") check(l, false, " (when the files could be read again)");
  sim::sh->statehash = sim::sh->hash;
}
static RegProp r06("C06", gen, run);
