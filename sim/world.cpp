#include "world.hpp"
#include <fstream>
#include <filesystem>
#include <cstring>

std::vector<PropDef> &props()
{
  static std::vector<PropDef> v;
  return v;
}

namespace world {
const char *ROOT = "/simroot";

std::string Node::text() const
{
  std::string s(1, kind);
  s += "(";
  bool first = true;
  for (auto &[k, v] : at) {
    if (!first) s += ",";
    s += k + ":" + v;
    first = false;
  }
  s += ")";
  if (!ch.empty() || isModule() || kind == 'X') {
    s += "[";
    for (size_t i = 0; i < ch.size(); i++) s += (i ? "," : "") + ch[i].text();
    s += "]";
  }
  return s;
}
static Node parse_rec(const std::string &s, size_t &p)
{
  Node n;
  n.kind = s.at(p++);
  if (p < s.size() && s[p] == '(') {
    p++;
    while (s.at(p) != ')') {
      std::string k, v;
      while (s.at(p) != ':') k += s[p++];
      p++;
      while (s.at(p) != ',' && s.at(p) != ')') v += s[p++];
      if (s[p] == ',') p++;
      n.at[k] = v;
    }
    p++;
  }
  if (p < s.size() && s[p] == '[') {
    p++;
    while (s.at(p) != ']') {
      n.ch.push_back(parse_rec(s, p));
      if (s.at(p) == ',') p++;
    }
    p++;
  }
  return n;
}
Node parse_node(const std::string &s)
{
  size_t p = 0;
  return parse_rec(s, p);
}

DEG_ID parse_deg(const Node &n)
{
  DEG_ID d;
  auto digits = [&](const char *k, auto add) {
    auto it = n.at.find(k);
    if (it == n.at.end()) return;
    for (char c : it->second)
      if (c >= '1' && c <= '9') add((DEG_ID::data_t)(c - '0'));
  };
  digits("sei", [&](auto x) { d.SEI_id.add_model(x); });
  digits("cs", [&](auto x) { d.CS_id.add_model(x); });
  digits("lam", [&](auto x) { d.LAM_id.add_model(x); });
  d.SEI_porosity = (DEG_ID::data_t)n.num("por", 0);
  d.CS_diffusion = (DEG_ID::data_t)n.num("csd", 0);
  d.pl_id = (DEG_ID::data_t)n.num("pl", 0);
  return d;
}

template <class C, class... A>
static StorageUnit *mk(bool probes, int idx, A &&...a)
{
  if (!probes) return new C(std::forward<A>(a)...);
  auto p = new Probe<C>(std::forward<A>(a)...);
  p->idx = idx;
  return p;
}

static Deep_ptr<StorageUnit> build_rec(const Node &n, const BuildOpt &o, bool top, int &idx, const std::string &name)
{
  const double cap = n.num("cap", 16), soc = n.num("soc", 0.5), r = n.num("r", 2e-3);
  if (n.kind == 'B') {
    int i = idx++;
    return Deep_ptr<StorageUnit>(mk<Cell_ECM<0>>(o.probes, i, "c" + std::to_string(i) + o.tag, cap, soc, r, std::array<double, 0>{}, std::array<double, 0>{}));
  }
  if (n.kind == 'E') {
    int i = idx++;
    return Deep_ptr<StorageUnit>(mk<Cell_ECM<1>>(o.probes, i, "c" + std::to_string(i) + o.tag, cap, soc, r, std::array<double, 1>{ n.num("rp", 15.8e-3) }, std::array<double, 1>{ n.num("it", 1 / 600.0) }));
  }
  if (n.kind == 'F') {
    int i = idx++;
    return Deep_ptr<StorageUnit>(mk<Cell_ECM<2>>(o.probes, i, "c" + std::to_string(i) + o.tag, cap, soc, r, std::array<double, 2>{ n.num("rp", 15.8e-3), n.num("rq", 2.5e-3) }, std::array<double, 2>{ n.num("it", 1 / 600.0), n.num("iu", 1 / 100.0) }));
  }
  if (n.kind == 'K') {
    int i = idx++;
    auto deg = parse_deg(n);
    StorageUnit *p = o.hot ? o.hot("c" + std::to_string(i) + o.tag, deg, n.num("fc", 1), n.num("fr", 1), n.num("fs", 1), n.num("fl", 1)) : mk<Cell_SPM>(o.probes && o.spm_probes, i, "c" + std::to_string(i) + o.tag, deg, n.num("fc", 1), n.num("fr", 1), n.num("fs", 1), n.num("fl", 1));
    if (o.hot) dynamic_cast<ProbeBase *>(p)->idx = i;
    if (o.block) p->setBlockDegAndTherm(true);
    return Deep_ptr<StorageUnit>(p);
  }
  if (n.kind == 'X') {
    auto bat = std::make_unique<Battery>("bat" + name + o.tag);
    Node m = n.ch.at(0);
    if (!m.at.count("ct")) m.at["ct"] = "0";
    auto child = build_rec(m, o, false, idx, name + "0");
    auto mod = dynamic_cast<Module *>(child.get());
    if (!mod) sim::harness_error("battery needs a module");
    Deep_ptr<Module> mp(static_cast<Module *>(mod));
    // hand ownership over
    struct Rel { static StorageUnit *rel(Deep_ptr<StorageUnit> &d) { Deep_ptr<StorageUnit> *h = new Deep_ptr<StorageUnit>(std::move(d)); return h->get(); } };
    Rel::rel(child);
    bat->setModule(std::move(mp));
    bat->setSeriesandParallel((unsigned)n.num("ns", 1), (unsigned)n.num("np", 1));
    if (o.block) bat->setBlockDegAndTherm(true);
    return Deep_ptr<StorageUnit>(bat.release());
  }
  // modules
  std::vector<Deep_ptr<StorageUnit>> ch;
  for (size_t i = 0; i < n.ch.size(); i++) ch.push_back(build_rec(n.ch[i], o, false, idx, name + std::to_string(i)));
  const bool par = o.par >= 0 ? o.par : n.num("par", 0) > 0;
  int ct = (int)n.num("ct", top ? 1 : 0);
  const int cc = (int)n.num("cc", 1);
  std::unique_ptr<Module> m;
  if (n.kind == 'S') m = std::make_unique<Module_s>("s" + name + o.tag, settings::T_ENV, false, par, (int)n.leaves(), cc, ct);
  else
    m = std::make_unique<Module_p>("p" + name + o.tag, settings::T_ENV, false, par, (int)n.leaves(), cc, ct);
  m->setSUs(ch, false, false);
  if (n.at.count("rc")) {
    std::vector<double> rc;
    std::string t = n.at.at("rc");
    std::istringstream is(t);
    std::string x;
    while (std::getline(is, x, '/')) rc.push_back(strtod(x.c_str(), nullptr));
    while (rc.size() < m->getNSUs()) rc.push_back(rc.empty() ? 0 : rc.back());
    rc.resize(m->getNSUs());
    m->setRcontact(rc);
  }
  if (o.block) m->setBlockDegAndTherm(true);
  return Deep_ptr<StorageUnit>(m.release());
}

Deep_ptr<StorageUnit> build(const Node &n, const BuildOpt &o)
{
  int idx = 0;
  return build_rec(n, o, true, idx, "0");
}

static void leaves_rec(StorageUnit *su, std::vector<Cell *> &out)
{
  if (auto c = dynamic_cast<Cell *>(su)) out.push_back(c);
  else if (auto m = dynamic_cast<Module *>(su))
    for (auto &s : m->getSUs()) leaves_rec(s.get(), out);
  else if (auto b = dynamic_cast<Battery *>(su))
    leaves_rec(b->getCells(), out);
}
void leaves(StorageUnit *su, std::vector<Cell *> &out) { leaves_rec(su, out); }
std::vector<Cell *> leaves(StorageUnit *su)
{
  std::vector<Cell *> v;
  leaves_rec(su, v);
  return v;
}
ProbeBase *probe(Cell *c) { return dynamic_cast<ProbeBase *>(c); }
void all_nodes(StorageUnit *su, std::vector<StorageUnit *> &out)
{
  out.push_back(su);
  if (auto m = dynamic_cast<Module *>(su))
    for (auto &s : m->getSUs()) all_nodes(s.get(), out);
  else if (auto b = dynamic_cast<Battery *>(su))
    all_nodes(b->getCells(), out);
}

void arm_cell_faults(const Scn &s, StorageUnit *su)
{
  auto cs = leaves(su);
  for (auto l : s.all("cellfault")) {
    CellFault f;
    auto w = l->str("what");
    if (w == "step_throw") f.what = CellFault::StepThrow;
    else if (w == "step_throw_std") f.what = CellFault::StepThrowStd;
    else if (w == "step_throw_mid") f.what = CellFault::StepThrowMid;
    else if (w == "seti_bad") f.what = CellFault::SetIBad;
    else if (w == "seti_warn") f.what = CellFault::SetIWarn;
    else if (w == "seti_throw") f.what = CellFault::SetIThrow;
    else if (w == "v_zero") f.what = CellFault::VZero;
    else if (w == "v_throw") f.what = CellFault::VThrow;
    else if (w == "sets_bad") f.what = CellFault::SetStatesBad;
    else if (w == "sets_throw") f.what = CellFault::SetStatesThrow;
    else if (w == "store_throw") f.what = CellFault::StoreThrow;
    else
      sim::harness_error("unknown cell fault " + w);
    f.at = l->i("at");
    f.n = l->i("n", 1);
    f.code = (int)l->i("code", 2);
    size_t c = (size_t)l->i("cell") % cs.size();
    if (auto p = probe(cs[c])) p->faults.push_back(f);
  }
}
void set_armed(StorageUnit *su, bool a)
{
  for (auto c : leaves(su))
    if (auto p = probe(c)) p->armed = a;
}

// ---------------------------------------------------------------- generator
static std::string d2s(double x, const char *f = "%.4g") { return sim::strf(f, x); }
static Node gen_leaf(sim::Rng &r, const PackCfg &c, double soc0)
{
  Node n;
  int k = (int)r.below(c.spm ? 7 : 6);
  n.kind = k < 2 ? 'B' : k < 4 ? 'E' : k < 6 ? 'F' : 'K';
  if (c.kfrac > 0 && r.chance(c.kfrac)) n.kind = 'K';
  if (n.kind == 'K') {
    n.at["fc"] = d2s(r.real(0.95, 1.05));
    n.at["fr"] = d2s(r.real(0.9, 1.1));
    if (r.chance(0.5)) n.at["sei"] = std::to_string(r.range(1, 3));
    if (r.chance(0.3)) n.at["lam"] = std::to_string(r.range(1, 4));
    return n;
  }
  n.at["cap"] = c.var_cap ? d2s(r.real(10, 20)) : "16";
  double soc = soc0 + r.real(-c.spread, c.spread);
  n.at["soc"] = d2s(std::min(0.97, std::max(0.03, soc)));
  n.at["r"] = d2s(r.real(1e-3, 4e-3));
  if (n.kind != 'B') {
    n.at["rp"] = d2s(r.real(2e-3, 15e-3));
    n.at["it"] = d2s(1 / r.real(60, 900));
  }
  return n;
}
static Node gen_rec(sim::Rng &r, const PackCfg &c, int depth, int budget, double soc0, char parent)
{
  if (budget <= 1 || depth == 0) return gen_leaf(r, c, soc0);
  Node n;
  n.kind = r.chance(0.5) ? 'S' : 'P';
  if (parent && r.chance(0.6)) n.kind = parent == 'S' ? 'P' : 'S';
  int k = (int)r.range(2, std::min(budget, 5));
  n.at["par"] = r.chance(0.5) ? "1" : "0";
  if (parent) n.at["ct"] = r.chance(0.3) ? "2" : "0";
  n.at["cc"] = std::to_string(r.range(1, 5));
  if (c.rc && r.chance(0.7)) {
    std::string s;
    for (int i = 0; i < k; i++) s += (i ? "/" : "") + d2s(r.real(0, 1) < 0.2 ? 0 : r.real(1e-4, 1.5e-3));
    n.at["rc"] = s;
  }
  // children of a parallel module must have the same number of cells in series
  if (n.kind == 'P') {
    Node proto;
    bool mod = depth > 1 && budget / k >= 2 && r.chance(0.5);
    int ser = 1;
    if (mod) ser = (int)r.range(2, std::max(2, std::min(4, budget / k)));
    for (int i = 0; i < k; i++) {
      if (!mod) n.ch.push_back(gen_leaf(r, c, soc0));
      else {
        Node s;
        s.kind = 'S';
        s.at["par"] = r.chance(0.5) ? "1" : "0";
        if (c.rc && r.chance(0.5)) s.at["rc"] = d2s(r.real(1e-4, 1e-3));
        for (int j = 0; j < ser; j++) s.ch.push_back(gen_leaf(r, c, soc0));
        n.ch.push_back(s);
      }
    }
  } else
    for (int i = 0; i < k; i++) n.ch.push_back(gen_rec(r, c, r.chance(0.5) ? depth - 1 : 0, budget / k, soc0, 'S'));
  return n;
}
Node gen_pack(sim::Rng &r, const PackCfg &c)
{
  double soc0 = r.real(c.soc_lo, c.soc_hi);
  Node n;
  do n = gen_rec(r, c, c.maxdepth == 0 ? 0 : (int)r.range(c.leaf_only_ok && r.chance(0.15) ? 0 : 1, c.maxdepth), (int)r.range(2, c.maxcells), soc0, 0);
  while (!c.leaf_only_ok && !n.isModule());
  if (c.battery && n.isModule() && r.chance(0.3)) {
    Node x;
    x.kind = 'X';
    x.at["ns"] = std::to_string(r.range(1, 3));
    x.at["np"] = std::to_string(r.range(1, 3));
    n.at["ct"] = r.chance(0.5) ? "2" : "0";
    x.ch.push_back(n);
    return x;
  }
  return n;
}

// ---------------------------------------------------------------- snapshot
std::vector<double> snapshot(StorageUnit *su, bool withV)
{
  std::vector<double> v;
  std::vector<StorageUnit *> ns;
  all_nodes(su, ns);
  for (auto n : ns) {
    double x = 0;
    Out o;
    if (withV) o = call([&] { x = n->V(); }); // first: an SPM cell has its (lazily computed) voltage among its states
    if (auto c = dynamic_cast<Cell *>(n)) {
      auto s = c->viewStates();
      v.insert(v.end(), s.begin(), s.end());
    } else
      v.push_back(n->T());
    v.push_back(n->I());
    if (withV) v.push_back(o.threw ? -1 : x);
  }
  return v;
}
std::string diff(const std::vector<double> &a, const std::vector<double> &b, double rel)
{
  if (a.size() != b.size()) return sim::strf("different number of values (%zu, %zu)", a.size(), b.size());
  for (size_t i = 0; i < a.size(); i++) {
    if (rel == 0) {
      if (memcmp(&a[i], &b[i], 8) && !(a[i] == 0 && b[i] == 0)) return sim::strf("value %zu of %zu: %.17g instead of %.17g", i, a.size(), b[i], a[i]);
    } else {
      double s = std::max({ std::fabs(a[i]), std::fabs(b[i]), 1e-9 });
      if (!(std::fabs(a[i] - b[i]) <= rel * s)) return sim::strf("value %zu of %zu: %.12g instead of %.12g", i, a.size(), b[i], a[i]);
    }
  }
  return "";
}
uint64_t coarse(const std::vector<double> &v)
{
  uint64_t h = 1469598103934665603ull;
  for (double d : v) {
    int64_t q = std::isfinite(d) ? (int64_t)std::llround(std::max(-1e12, std::min(1e12, d * 1000))) : 7;
    h = sim::fnv(&q, 8, h);
  }
  return h;
}
std::string Out::text() const
{
  if (!threw) return std::string("status ") + std::to_string((int)st) + " (" + getStatusMessage(st) + ")";
  if (isint) return "exception " + std::to_string(code);
  return "exception " + (what.empty() ? "?" : what);
}

Out do_op(const Line &op, StorageUnit *su, Cycler &cyc, ThroughputData &th)
{
  const auto &k = op.kind;
  const double Ir = op.num("I"), vr = op.num("v"), tl = op.num("t"), dt = op.num("dt", 1);
  const int nd = (int)op.i("nd");
  // voltages are given as a fraction between the unit's Vmin and Vmax, currents as C-rate
  const double cap = su->Cap(), V = su->Vmin() + vr * (su->Vmax() - su->Vmin()), I = Ir * cap;
  if (k == "cc") return call([&] { return cyc.CC(I, V, tl, dt, nd, th); });
  if (k == "cv") return call([&] { return cyc.CV(V, op.num("il", 0.05) * cap, tl, dt, nd, th); });
  if (k == "cccv") return call([&] { return cyc.CCCV_with_tlim(I, V, op.num("il", 0.05) * cap, tl, dt, nd, th); });
  if (k == "rest") return call([&] { return cyc.rest(tl, dt, nd, th); });
  if (k == "seti") return call([&] { return su->setCurrent(I, op.i("chk", 1), false); });
  if (k == "setv") return call([&] { return su->setVoltage(V); });
  if (k == "step") return call([&] { su->timeStep_CC(dt, (int)op.i("n", 1)); return Status::Success; });
  if (k == "temp") {
    std::vector<StorageUnit *> nd;
    all_nodes(su, nd);
    auto u = nd[op.u("node") % nd.size()];
    return call([&] { u->setT(op.num("T")); return Status::Success; });
  }
  if (k == "store") return call([&] { cyc.storeData(); return Status::Success; });
  if (k == "flush") return call([&] { cyc.writeData(); return Status::Success; });
  sim::harness_error("unknown op " + k);
}

static std::map<std::string, std::string> &data_files()
{
  static std::map<std::string, std::string> m;
  return m;
}
void load_data_files(const std::string &repo)
{
  namespace fs = std::filesystem;
  for (auto &e : fs::recursive_directory_iterator(repo + "/data")) {
    if (!e.is_regular_file() || e.path().extension() != ".csv") continue;
    std::ifstream f(e.path(), std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    data_files()[fs::relative(e.path(), repo + "/data").string()] = ss.str();
  }
}
void install_data_files()
{
  for (auto &[k, v] : data_files()) sim::fs_add_file(std::string(ROOT) + "/data/" + k, v);
}
void warm_spm()
{
  Cell_SPM c;
  Model_SPM::makeModel();
}
std::string results_path(const std::string &f) { return std::string(ROOT) + "/results/" + f; }

// ---------------------------------------------------------------- logs
Log parse_log(const std::string &s)
{
  Log L;
  size_t p = 0;
  L.ends_clean = s.empty() || s.back() == '\n';
  while (p < s.size()) {
    auto e = s.find('\n', p);
    std::string ln = s.substr(p, e == std::string::npos ? std::string::npos : e - p);
    p = e == std::string::npos ? s.size() : e + 1;
    auto h = ln.find("States:");
    if (h != std::string::npos) {
      L.headers++;
      std::string before = ln.substr(0, h);
      if (!before.empty()) L.torn.push_back(before + "|States:");
      continue;
    }
    if (ln.find_first_not_of(" \r\t") == std::string::npos) continue;
    std::vector<double> v;
    bool ok = true;
    const char *c = ln.c_str();
    while (true) {
      char *q;
      double d = strtod(c, &q);
      if (q == c) { ok = false; break; }
      v.push_back(d);
      if (*q == 0 || *q == '\r') break;
      if (*q != ',') { ok = false; break; }
      c = q + 1;
    }
    if (ok && v.size() == 7) L.rows.push_back(v);
    else
      L.torn.push_back(ln);
  }
  return L;
}
static bool close6(double a, double b)
{ // a was printed with 6 significant digits
  return std::fabs(a - b) <= 1.01e-5 * std::max(std::fabs(a), std::fabs(b)) * 0.51 + 1e-12 || a == b;
}
bool row_matches(const std::vector<double> &r, const Row &x)
{
  return close6(r[0], x.I) && close6(r[1], x.V) && close6(r[2], x.SOC) && close6(r[3], x.T) && close6(r[4], x.time) && close6(r[5], x.Ah) && close6(r[6], x.Wh);
}
std::string cell_log_name(const std::string &prefix, Cell *c) { return results_path(prefix + "_" + c->getFullID() + "_cellData.csv"); }
} // namespace world
