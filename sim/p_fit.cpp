// C18 fitting an OCV curve: the best candidate of every level, whatever the workers do, and never a silently wrong or lost result
#include "procedures/determine_OCV.cpp"
#include "world.hpp"
using namespace world;
#define NOTSAN __attribute__((no_sanitize("thread")))

static const char *FILES[] = { "OCVfit_cathode.csv", "OCVfit_anode.csv", "OCVfit_cell.csv" };
static const double CP = 51385, CN = 30555;

static void gen(sim::Rng &r, Scn &s, bool thorough)
{
  s.add("curves").set("seed", r.next() >> 1).set("np", r.range(2, 12)).set("nn", r.range(2, 12)).set("nc", r.chance(0.1) ? 1 : r.range(2, thorough ? 20 : 12)).set("noise", r.chance(0.3) ? 0.0 : r.real(0, 0.05)).set("cap", r.real(0.5, 20));
  const int n = r.range(1, thorough ? 4 : 2);
  for (int i = 0; i < n; i++) {
    if (r.chance(0.3)) {
      const char *kinds[] = { "missing", "open", "eio", "eio", "short", "eintr" };
      const std::string w = kinds[r.below(6)];
      s.add("rfault").set("kind", w).set("match", r.chance(0.7) ? FILES[r.below(3)] : ".csv").set("nth", r.range(0, 5)).set("count", w == "eio" ? -1 : w == "short" ? (r.chance(0.5) ? -1 : r.range(1, 5)) : r.range(1, 3)).set("arg", r.chance(0.3) ? (int64_t)0 : (int64_t)r.below(200));
    }
    if (r.chance(0.3)) {
      const char *kinds[] = { "open", "enospc", "eio", "short", "eintr", "close" };
      const std::string w = kinds[r.below(6)];
      const char *m[] = { "results", "_param", "OCVfit_parameters", "OCVfit_sim", "results" };
      s.add("wfault").set("kind", w).set("match", m[r.below(5)]).set("nth", r.range(0, 4)).set("count", w == "eintr" ? r.range(1, 6) : r.chance(0.5) ? -1 : 1).set("arg", (int64_t)r.below(120));
    }
    if (r.chance(0.3)) s.add("threadfault").set("at", r.range(0, 12)).set("n", r.chance(0.6) ? 1 : r.chance(0.5) ? r.range(2, 6) : -1);
    if (r.chance(0.12)) s.add("allocfault").set("at", r.range(0, 150));
    s.add("cores").set("n", r.chance(0.05) ? 0 : r.range(1, 9));
    if (r.chance(0.2)) s.add("est");
    else {
      Line &l = s.add("fit");
      int np, nn, a, b;
      do {
        np = r.range(1, 8), nn = r.range(1, 5), a = r.range(1, 5), b = r.range(1, 5);
      } while (np * nn * a * b > (thorough ? 400 : 160));
      l.set("seed", r.next() >> 1).set("h", r.range(1, thorough ? 4 : 3)).set("np", np).set("nn", nn).set("nsp", a).set("nsn", b).set("lim", r.chance(0.3) ? 1 : 0);
    }
    if (r.chance(0.4)) s.add("heal");
  }
}

struct Curve { std::vector<double> x, y; };
static NOTSAN double at(const Curve &c, double x, bool *out)
{
  const size_t n = c.x.size();
  if (x < c.x[0] || x > c.x[n - 1]) { *out = true; return 0; }
  for (size_t i = 1; i < n; i++)
    if (x <= c.x[i]) return c.y[i - 1] + (x - c.x[i - 1]) * (c.y[i] - c.y[i - 1]) / (c.x[i] - c.x[i - 1]);
  return c.y[n - 1];
}
// squared error of one candidate: discharge from the start fractions, 0 V once the discharge has ended or a fraction is outside its curve
static NOTSAN double cost(const Curve &P, const Curve &N, const Curve &C, double AMp, double AMn, double sp, double sn)
{
  const double Fa = PhyConst::F, Vend = C.y.back(), sp0 = sp, sn0 = sn;
  double e = 0;
  bool end = false;
  for (size_t i = 0; i < C.x.size(); i++) {
    double v = 0;
    if (!end) {
      const double q = C.x[i] * 3600.0;
      sp = sp0 + q / (Fa * AMp * CP);
      sn = sn0 - q / (Fa * AMn * CN);
      bool out = false;
      v = at(P, sp, &out) - at(N, sn, &out);
      if (out) v = 0;
      end = v <= Vend || sp < 0 || sp > 1 || sn < 0 || sn > 1;
    }
    e += (C.y[i] - v) * (C.y[i] - v);
  }
  return e;
}
// the discontinuities of the error (end of the discharge, end of a curve) may be decided by rounding: lowest and highest error of the neighbourhood
struct Range { double lo = 1e300, hi = -1e300; };
static NOTSAN Range costs(const Curve &P, const Curve &N, const Curve &C, const double *p)
{
  Range r;
  Curve D = C;
  for (int k = 0; k < 27; k++) {
    const double e = 1e-10;
    const double a = (k % 3 - 1) * e, b = (k / 3 % 3 - 1) * e, v = (k / 9 - 1) * e;
    D.y.back() = C.y.back() + v;
    const double c = cost(P, N, D, p[0], p[1], p[2] + a, p[3] + b);
    r.lo = std::min(r.lo, c);
    r.hi = std::max(r.hi, c);
  }
  return r;
}
static Curve read_curve(const char *f)
{
  Curve c;
  auto t = sim::fs_read(std::string(ROOT) + "/data/" + f);
  const char *q = t.c_str();
  char *e;
  for (;;) {
    double x = strtod(q, &e);
    if (e == q) break;
    double y = strtod(e + 1, &e);
    q = e;
    c.x.push_back(x), c.y.push_back(y);
  }
  return c;
}
static void make_curves(const Line &l)
{
  sim::Rng r(l.u("seed"));
  auto elec = [&](int n, double hi, double lo) {
    std::vector<double> x{ 0, 1 }, y{ hi, lo };
    for (int i = 2; i < n; i++) x.push_back(r.real(0.001, 0.999)), y.push_back(r.real(lo, hi));
    std::sort(x.begin(), x.end());
    std::sort(y.rbegin(), y.rend());
    Curve c;
    for (size_t i = 0; i < x.size(); i++)
      if (!i || x[i] - x[i - 1] > 1e-6) c.x.push_back(x[i]), c.y.push_back(y[i]);
    return c;
  };
  Curve P = elec((int)l.i("np"), r.real(4.2, 5), r.real(3, 3.6)), N = elec((int)l.i("nn"), r.real(0.5, 1.5), r.real(0.01, 0.2)), C;
  const double cap = l.num("cap"), g = cap * 3600 / PhyConst::F;
  const double AMp = g / CP * r.real(1, 2.5), AMn = g / CN * r.real(1, 2.5), sp = r.real(0.36, 0.42), sn = r.real(0.5, 0.6);
  double x = 0;
  const int n = (int)l.i("nc");
  for (int i = 0; i < n; i++) {
    bool o = false;
    const double v = at(P, std::min(1.0, sp + x * 3600 / PhyConst::F / AMp / CP), &o) - at(N, std::max(0.0, sn - x * 3600 / PhyConst::F / AMn / CN), &o);
    C.x.push_back(x), C.y.push_back(std::max(0.0, v + l.num("noise") * r.real(-1, 1)));
    x += cap * r.real(0.02, 1) * 2 / std::max(1, n);
  }
  const Curve *cs[] = { &P, &N, &C };
  for (int k = 0; k < 3; k++) {
    std::string t;
    for (size_t i = 0; i < cs[k]->x.size(); i++) t += sim::strf("%.9g,%.9g\n", cs[k]->x[i], cs[k]->y[i]);
    sim::fs_add_file(std::string(ROOT) + "/data/" + FILES[k], t);
  }
}
struct Space { double lo, hi; int n; double d() const { return n > 1 ? (hi - lo) / (n - 1) : 0; } double operator[](int i) const { return n > 1 ? lo + i * d() : hi; } };
struct Spaces { Space s[4]; };
static Spaces make_spaces(const Line &l, const Curve &C)
{
  sim::Rng r(l.u("seed"));
  Spaces q;
  const double g = C.x.back() > 0 ? C.x.back() * 3600 / PhyConst::F : 1e-1;
  for (int k = 0; k < 2; k++) {
    const int n = (int)l.i(k ? "nn" : "np");
    const double lo = g / (k ? CN : CP) * r.real(0.7, 2), w = n > 2 ? r.real(0.02, 0.25 * (n - 1)) : r.real(0.02, 0.1);
    q.s[k] = Space{ lo, lo * (1 + w), n };
  }
  for (int k = 2; k < 4; k++) {
    double a = r.unit(), b = r.unit();
    if (r.chance(0.5)) {
      a = k == 2 ? r.real(0.3, 0.4) : r.real(0.45, 0.55);
      b = a + r.real(0.01, 0.1);
    }
    if (l.i("lim") && r.chance(0.5)) a = 0;
    if (l.i("lim") && r.chance(0.5)) b = 1;
    if (a > b) std::swap(a, b);
    q.s[k] = Space{ a, b, (int)l.i(k == 2 ? "nsp" : "nsn") };
  }
  return q;
}
struct Fit { Out o; std::array<double, 4> par{}; double err = 0; };
static Fit do_fit(const Spaces &q, int h)
{
  auto f = [&](int k) { return slide::linspace_fix(q.s[k].lo, q.s[k].hi, q.s[k].n); };
  Fit g;
  g.o = call([&] {
    const auto [p, e] = slide::hierarchicalOCVfit(h, f(0), f(1), f(2), f(3), FILES[0], FILES[1], FILES[2], CP, CN);
    g.par = p;
    g.err = e;
    return Status::Success;
  });
  return g;
}
static std::string res_path(const std::string &f) { return std::string(ROOT) + "/results/" + f; }
static std::map<std::string, std::string> pairs(const std::string &t)
{
  std::map<std::string, std::string> m;
  std::istringstream is(t);
  std::string ln;
  while (std::getline(is, ln)) {
    auto c = ln.find(',');
    if (c != std::string::npos && !m.count(ln.substr(0, c))) m[ln.substr(0, c)] = ln.substr(c + 1);
  }
  return m;
}
static bool near6(const std::string &t, double v) { char *e; const double x = strtod(t.c_str(), &e); return e != t.c_str() && !*e && std::abs(x - v) <= 1e-5 * std::abs(v) + 1e-300; }
static void check_par_file(const std::string &how, const std::string &f, const std::array<double, 4> &p)
{
  auto t = sim::fs_read(res_path(f));
  auto m = pairs(t);
  const char *k[] = { "AMp", "AMn", "start pos", "start neg" };
  for (int i = 0; i < 4; i++)
    if (!m.count(k[i]) || !near6(m[k[i]], p[i])) sim::violation("result_file", how + " succeeded but " + f + " does not hold '" + k[i] + sim::strf("' = %.6g but '", p[i]) + m[k[i]] + "'");
}
static void remove_results(int h)
{
  for (int k = 0; k < h; k++) std::ofstream(res_path("OCVFit_" + std::to_string(k) + "_param.csv")).close();
  std::ofstream(res_path("OCVfit_parameters.csv")).close();
  std::ofstream(res_path("OCVfit_sim.csv")).close();
}

// the fit of every level (from the code itself, with one core, without faults) against all candidates of that level
static std::vector<Fit> reference(const std::string &how, Spaces q, int hmax, const Curve &P, const Curve &N, const Curve &C)
{
  std::vector<Fit> fits;
  const Spaces q0 = q;
  const char *nm[] = { "AMp", "AMn", "start pos", "start neg" };
  for (int h = 0; h < hmax; h++) {
    auto f = do_fit(q0, h + 1);
    if (f.o.threw) sim::violation("failed", how + " failed although nothing went wrong: " + f.o.text());
    fits.push_back(f);
    const double ulp = 1e-9;
    for (int k = 0; k < 4; k++) {
      bool in = false;
      const double tol = ulp * std::max(std::abs(q.s[k].hi), std::abs(q.s[k].lo));
      for (int i = 0; i < q.s[k].n; i++) in |= std::abs(q.s[k][i] - f.par[k]) <= tol;
      if (!in) sim::violation("not_candidate", how + sim::strf(": the fit of level %d has %s = %.9g, which is not one of the %d candidates from %.9g to %.9g", h, nm[k], f.par[k], q.s[k].n, q.s[k].lo, q.s[k].hi));
    }
    double best = 1e300;
    std::array<double, 4> bp{};
    for (int a = 0; a < q.s[0].n; a++)
      for (int b = 0; b < q.s[1].n; b++)
        for (int c = 0; c < q.s[2].n; c++)
          for (int d = 0; d < q.s[3].n; d++) {
            const double p[4] = { q.s[0][a], q.s[1][b], q.s[2][c], q.s[3][d] };
            const auto e = costs(P, N, C, p);
            if (e.hi < best) best = e.hi, bp = { p[0], p[1], p[2], p[3] };
          }
    const auto e = costs(P, N, C, f.par.data());
    if (!(e.lo <= best * (1 + 1e-7) + 1e-12)) sim::violation("not_best", how + sim::strf(": level %d gives AMp %.9g AMn %.9g sp %.9g sn %.9g with the squared error %.9g, but AMp %.9g AMn %.9g sp %.9g sn %.9g has %.9g", h, f.par[0], f.par[1], f.par[2], f.par[3], e.lo, bp[0], bp[1], bp[2], bp[3], best));
    const double m = (double)C.x.size(), lo = std::sqrt(e.lo / m), hi = std::sqrt(e.hi / m);
    if (!(f.err >= lo - 1e-7 * lo - 1e-8 && f.err <= hi + 1e-7 * hi + 1e-8)) sim::violation("error", how + sim::strf(": the reported error of level %d is %.9g, the error of these parameters is %.9g", h, f.err, hi));
    for (int k = 0; k < 4; k++) { // the region around it
      const double d = q.s[k].d();
      double lo2 = f.par[k] - d, hi2 = f.par[k] + d;
      if (k > 1) lo2 = std::max(lo2, 0.0), hi2 = std::min(hi2, 1.0);
      q.s[k].lo = lo2, q.s[k].hi = hi2;
    }
  }
  return fits;
}

static void check_est(const std::string &how, const Fit &f, const Curve &P, const Curve &N, const Curve &C)
{
  check_par_file(how, "OCVfit_parameters.csv", f.par);
  const double cap = C.x.back(), Vend = C.y.back();
  // the simulated curve: charge balance, voltage of the electrodes, start and end
  Curve st;
  std::vector<std::array<double, 6>> rows;
  {
    std::istringstream is(sim::fs_read(res_path("OCVfit_sim.csv")));
    std::string ln;
    while (std::getline(is, ln)) {
      std::array<double, 6> a{};
      int k = 0;
      std::istringstream l2(ln);
      std::string w;
      while (std::getline(l2, w, ',') && k < 6) {
        char *e;
        a[k++] = strtod(w.c_str(), &e);
        if (e == w.c_str() || *e) k = 9;
      }
      if (k != 6) sim::violation("sim_file", how + sim::strf(": row %zu of OCVfit_sim.csv is not six numbers: %s", rows.size(), ln.c_str()));
      rows.push_back(a);
    }
  }
  if (rows.empty()) sim::violation("sim_file", how + " succeeded but OCVfit_sim.csv is empty");
  const double qp = 3600 / (PhyConst::F * f.par[0] * CP), qn = 3600 / (PhyConst::F * f.par[1] * CN), dq = 0.1 * cap * 5 / 3600; // one step of five seconds
  for (size_t i = 0; i < rows.size(); i++) {
    auto &a = rows[i];
    auto bad = [&](const char *w, double g, double e) { sim::violation("sim_file", how + sim::strf(": row %zu of OCVfit_sim.csv has %s %.6g instead of %.6g", i, w, g, e)); };
    const double sp = f.par[2] + a[0] * qp, sn = f.par[3] - a[0] * qn;
    if (std::abs(a[4] - sp) > 2e-5) bad("the cathode fraction", a[4], sp);
    if (std::abs(a[2] - sn) > 2e-5) bad("the anode fraction", a[2], sn);
    if (std::abs(a[1] - (a[5] - a[3])) > 3e-5) bad("the voltage", a[1], a[5] - a[3]);
    if (i && i + 1 < rows.size() && a[1] <= Vend - 1e-4) bad("after the end voltage the voltage", a[1], Vend);
    if (i && std::abs(a[0] - rows[i - 1][0]) > 100.5 * dq + 2e-5 * cap) bad("the charge", a[0], rows[i - 1][0] + 100 * dq);
    if (i && a[0] <= rows[i - 1][0]) bad("the charge", a[0], rows[i - 1][0] + 100 * dq);
    // the voltage of an electrode belongs to this point or to the one of a step before
    for (int k = 0; k < 2; k++) {
      double lo = 1e300, hi = -1e300;
      for (double t : { 0.0, -1.2 }) {
        bool o = false;
        const double m = i ? t * dq : 0;
        const double x = k ? std::clamp(sn - m * qn, 0.0, 1.0) : std::clamp(sp + m * qp, 0.0, 1.0);
        for (double e : { -2e-5, 2e-5 }) {
          const double v = at(k ? N : P, std::clamp(x + e, 0.0, 1.0), &o);
          lo = std::min(lo, v), hi = std::max(hi, v);
        }
      }
      const double g = k ? a[3] : a[5];
      if (g < lo - 1e-4 || g > hi + 1e-4)
        if (!(g == 0 && i + 1 == rows.size())) bad(k ? "the anode voltage" : "the cathode voltage", g, lo);
    }
  }
  auto &z = rows.back();
  if (!(z[1] <= Vend + 1e-4 || z[4] >= 1 - 1e-4 || z[2] <= 1e-4)) sim::violation("sim_file", how + sim::strf(": the simulated discharge ends at %.6g V, fractions %.6g and %.6g, before the end voltage %.6g V", z[1], z[4], z[2], Vend));
  auto m = pairs(sim::fs_read(res_path("OCVfit_parameters.csv")));
  auto want = [&](const char *k, double v, double rel) {
    char *e;
    const double g = m.count(k) ? strtod(m[k].c_str(), &e) : NAN;
    if (!(std::abs(g - v) <= rel * std::abs(v) + 1e-9)) sim::violation("result_file", how + ": OCVfit_parameters.csv gives '" + k + "' = '" + m[k] + sim::strf("' instead of %.6g", v));
  };
  want("cathode thickness thickp", f.par[0] / (0.0982 * 0.5), 2e-5);
  want("anode thickness thickn", f.par[1] / (0.0982 * 0.5), 2e-5);
  want("cathode lithium fraction at 100% SOC", f.par[2], 2e-5);
  want("anode lithium fraction at 100% SOC", f.par[3], 2e-5);
  want("cathode lithium fraction at 0% SOC", z[4], 4e-5);
  want("cathode lithium fraction at 50% SOC", 0.5 * (z[4] + f.par[2]), 4e-5);
  if (std::abs(z[2]) > 1e-3) want("anode lithium fraction at 0% SOC", z[2], 4e-4), want("anode lithium fraction at 50% SOC", 0.5 * (z[2] + f.par[3]), 4e-5);
  want("capacity of the cell in Ah", cap, 2e-5);
  want("maximum voltage of the cell", C.y[0], 2e-5);
  want("minimum voltage of the cell", Vend, 2e-5);
  want("The error on the OCV curve with this fit is", f.err, 2e-5);
  want("maximum li-concentration in the cathode", CP, 1e-9);
  want("maximum li-concentration in the anode", CN, 1e-9);
}

static void run(const Scn &s)
{
  make_curves(s.get("curves"));
  const Curve P = read_curve(FILES[0]), N = read_curve(FILES[1]), C = read_curve(FILES[2]);
  struct Ref { Line l; std::vector<Fit> fits; Spaces q; };
  std::vector<Ref> refs;
  // what the fits are, without faults and with one worker
  sim::set_cores(1);
  for (auto &l : s.lines)
    if (l.kind == "fit" || l.kind == "est") {
      const auto how = "'" + l.text() + "'";
      sim::set_label(("reference of " + l.text()).c_str());
      Ref rf{ l, {}, {} };
      if (l.kind == "fit") {
        rf.q = make_spaces(l, C);
        rf.fits = reference(how, rf.q, (int)l.i("h"), P, N, C);
      } else if (C.x.back() > 0) {
        const double g = C.x.back() * 3600 / PhyConst::F;
        const int na = SLIDE_SIM_OCV_POINTS, ns = SLIDE_SIM_OCV_POINTS;
        rf.q.s[0] = Space{ g / CP, 2.5 * g / CP, na };
        rf.q.s[1] = Space{ g / CN, 2.5 * g / CN, na };
        rf.q.s[2] = Space{ 0.38, 0.4, ns };
        rf.q.s[3] = Space{ 0.55, 0.58, ns };
        rf.fits = reference(how, rf.q, 3, P, N, C);
      }
      refs.push_back(rf);
    }
  size_t k = 0;
  bool rf_armed = false;
  const uint64_t creates0 = sim::sh->creates;
  auto attempt = [&](const Ref &rf, const std::string &when) {
    const auto &l = rf.l;
    if (rf.fits.empty()) return; // no charge in the measured curve
    const auto how = "'" + l.text() + "'" + when;
    sim::set_label((l.text() + when).c_str());
    const int h = (int)rf.fits.size();
    {
      sim::fs_heal_pause(true);
      remove_results(h);
      sim::fs_heal_pause(false);
    }
    const uint64_t f0 = sim::fs_faults_fired(), t0 = sim::sh->fault_n[sim::F_THREAD];
    const bool a0 = sim::alloc_fired();
    Fit f;
    if (l.kind == "fit") f = do_fit(rf.q, h);
    else
      f.o = call([&] {
        slide::estimateOCVparameters();
        return Status::Success;
      });
    sim::AllocOff ao;
    const bool fs = sim::fs_faults_fired() > f0, thr = sim::sh->fault_n[sim::F_THREAD] > t0, al = sim::alloc_fired() && !a0;
    if (fs || thr || al) sim::sh->nontrivial = 1;
    if (sim::live_threads() != 0) sim::violation("thread_left", sim::strf("%d worker thread(s) still exist when the fit returned", sim::live_threads()));
    if (sim::fs_open_handles()) sim::violation("handle", how + " left a file open");
    sim::observe(f.o.text());
    if (f.o.threw) {
      if (!fs && !al) sim::violation("failed", how + " failed" + (thr ? " (a worker thread could not be started)" : "") + ": " + f.o.text());
      return;
    }
    // without an error it is the best fit, and the files have it
    const auto &w = rf.fits.back();
    if (l.kind == "fit") {
      if (memcmp(f.par.data(), w.par.data(), sizeof f.par) || f.err != w.err)
        sim::violation("differs", how + sim::strf(" gives AMp %.9g AMn %.9g sp %.9g sn %.9g (error %.9g), with one worker and without faults it is AMp %.9g AMn %.9g sp %.9g sn %.9g (error %.9g)", f.par[0], f.par[1], f.par[2], f.par[3], f.err, w.par[0], w.par[1], w.par[2], w.par[3], w.err));
    } else {
      const bool silent = sim::fs_read(res_path("OCVfit_parameters.csv")).empty() && sim::fs_read(res_path("OCVfit_sim.csv")).empty();
      if (silent && ((fs && rf_armed) || al)) return; // input files which cannot be used: nothing is written (and the user is told on the error stream)
      check_est(how, w, P, N, C);
    }
    for (int j = 0; j < h; j++) check_par_file(how, "OCVFit_" + std::to_string(j) + "_param.csv", rf.fits[j].par);
    for (double d : w.par) sim::observe_d(d);
  };
  for (auto &l : s.lines) {
    if (l.kind == "rfault" || l.kind == "wfault") {
      sim::FsFault f;
      const auto w = l.str("kind");
      if (l.kind == "rfault") f.kind = w == "missing" ? sim::F_MISSING : w == "open" ? sim::F_OPEN : w == "eio" ? sim::F_READ_EIO : w == "short" ? sim::F_READ_SHORT : sim::F_READ_EINTR;
      else f.kind = w == "open" ? sim::F_OPEN : w == "enospc" ? sim::F_ENOSPC : w == "eio" ? sim::F_EIO_W : w == "short" ? sim::F_SHORTW : w == "eintr" ? sim::F_EINTR_W : sim::F_CLOSE;
      f.match = l.str("match");
      f.nth = (int)l.i("nth");
      f.count = (int)l.i("count", 1);
      f.arg = (long)l.i("arg");
      sim::fs_arm(f);
      rf_armed |= l.kind == "rfault";
    } else if (l.kind == "heal") {
      rf_armed = false;
      sim::fs_heal();
      sim::arm_thread_fault(-1, 0);
      sim::alloc_enable(false);
    } else if (l.kind == "threadfault") sim::arm_thread_fault(l.i("at"), (int)l.i("n", 1));
    else if (l.kind == "allocfault") {
      sim::alloc_enable(true);
      sim::alloc_arm(l.i("at"));
    } else if (l.kind == "cores") {
      sim::set_cores((int)l.i("n"));
      sim::count_fault(sim::F_CORES);
    } else if (l.kind == "fit" || l.kind == "est")
      attempt(refs[k++], "");
  }
  sim::fs_heal();
  sim::arm_thread_fault(-1, 0);
  sim::alloc_enable(false);
  for (auto &rf : refs) attempt(rf, " (after the faults)");
  if (sim::sh->creates > creates0 + refs.size()) sim::sh->nontrivial = 1;
  sim::sh->statehash = sim::sh->hash;
}
static RegProp r18("C18", gen, run);
