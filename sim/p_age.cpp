// C16 ageing is irreversible, consistent, and can be switched off exactly
#include "ops.hpp"
#include "settings/constants.hpp"
using namespace world;

static void gen(sim::Rng &r, Scn &s, bool thorough)
{
  const int k = (int)r.below(10);
  const std::string mode = k < 5 ? "mono" : k < 7 ? "off" : k < 9 ? "add" : "time";
  PackCfg c;
  c.maxcells = mode == "add" || mode == "time" ? 1 : r.chance(0.5) ? 3 : thorough ? 10 : 6;
  c.spm = true;
  c.kfrac = mode == "add" || mode == "time" ? 1 : 0.9;
  c.battery = true;
  c.spread = 0;
  c.soc_lo = mode == "time" ? 0.1 : 0.5;
  c.soc_hi = mode == "time" ? 0.9 : 0.5;
  Node n = gen_pack(r, c);
  age_models(n, r, true);
  s.add("pack").set("spec", n.text());
  s.add("cfg").set("mode", mode).set("block", (int)r.chance(0.3)).set("dt", r.real(0.5, 5)).set("n", r.chance(mode == "time" ? 0 : 0.5) ? 1 : r.range(2, 200));
  if (mode == "time") return;
  if (mode == "add") {
    // two disjoint sets of models
    std::string a[2], l[2], q[2];
    for (char ch = '1'; ch <= '4'; ch++) { int w = (int)r.below(3); if (w < 2) a[w] += ch; }
    for (char ch = '1'; ch <= '4'; ch++) { int w = (int)r.below(3); if (w < 2) l[w] += ch; }
    for (char ch = '1'; ch <= '5'; ch++) { int w = (int)r.below(3); if (w < 2) q[w] += ch; }
    const int plw = (int)r.below(3), por = (int)r.below(2), csd = (int)r.below(2);
    for (int w = 0; w < 2; w++) {
      auto &x = s.add("models").set("por", por).set("csd", csd).set("pl", plw == w ? 1 : 0);
      x.set("sei", a[w].empty() ? "0" : a[w]).set("lam", l[w].empty() ? "0" : l[w]).set("cs", q[w].empty() ? "0" : q[w]);
    }
  }
  const int nops = (int)r.range(2, thorough ? 12 : 7);
  for (int i = 0; i < nops; i++) {
    const int m = (int)r.below(10);
    if (m < 5) gen_unit_ops(r, s, 1, 0, thorough);
    else if (m < 7) {
      s.add("seti").set("I", (r.chance(0.5) ? 1 : -1) * r.real(0.05, 1)).set("chk", 0).set("ph", 0);
      s.add("step").set("dt", r.real(0.5, 4)).set("n", r.range(1, thorough ? 1000 : 300)).set("ph", 0);
    } else if (m < 8) s.add("temp").set("node", (int64_t)r.below(20)).set("T", r.real(275, 321)).set("ph", 0);
    else if (mode == "mono" && m < 9) s.add("block").set("node", (int64_t)r.below(20)).set("on", r.range(0, 1)).set("ph", 0);
    else s.add("step").set("dt", r.chance(0.5) ? 0.0 : r.real(0, 0.1)).set("n", r.range(0, 2)).set("ph", 0);
  }
  if (mode == "mono" && r.chance(0.25)) {
    const char *w[] = { "step_throw", "step_throw_mid", "seti_bad" };
    s.add("cellfault").set("cell", (int64_t)r.below(n.leaves())).set("what", w[r.below(3)]).set("at", (int64_t)std::floor(std::pow(10, r.real(0, 2)) - 1)).set("n", r.range(1, 3)).set("code", 8);
  }
}

using SS = State_SPM;
static const struct Mon { size_t i; int dir; const char *name; } MON[] = {
  { SS::i_delta, 1, "the SEI thickness" }, { SS::i_LLI, 1, "the lost lithium" }, { SS::i_CS, 1, "the crack surface" }, { SS::i_delta_pl, 1, "the plated lithium" },
  { SS::i_thickp, -1, "the thickness of the positive electrode" }, { SS::i_thickn, -1, "the thickness of the negative electrode" },
  { SS::i_ep, -1, "the active material of the positive electrode" }, { SS::i_en, -1, "the active material of the negative electrode" },
  { SS::i_ap, -1, "the effective surface of the positive electrode" }, { SS::i_an, -1, "the effective surface of the negative electrode" },
  { SS::i_Dn, -1, "the diffusion constant of the negative electrode" },
  { SS::i_Dp, 0, "the diffusion constant of the positive electrode" }, { SS::i_rDCp, 0, "the resistance of the positive electrode" }, { SS::i_rDCn, 0, "the resistance of the negative electrode" }, { SS::i_rDCcc, 0, "the resistance of the current collectors" }
};
struct Leaf {
  Cell_SPM *c;
  ProbeBase *p;
  const Node *n;
  int idx;
  bool blocked;
  SS s0;
  Lithium li0;
  double q0;
  int64_t st0;
  double dt0;
};
static void leaf_nodes(const Node &n, std::vector<const Node *> &o)
{
  if (n.ch.empty()) o.push_back(&n);
  for (auto &c : n.ch) leaf_nodes(c, o);
}
static bool has(const Node &n, const char *k, char m = 0)
{
  auto it = n.at.find(k);
  if (it == n.at.end()) return false;
  if (m) return it->second.find(m) != std::string::npos;
  return it->second.find_first_of("123456789") != std::string::npos;
}

static void check(const std::string &op, Leaf &l)
{
  auto &st = l.c->getStateObj();
  auto bad = [&](const char *tag, const std::string &m) { sim::violation(tag, sim::strf("'%s', cell %d: ", op.c_str(), l.idx) + m); };
  // a state which is beyond the model (concentrations out of range) is C08's and C10's subject
  for (size_t i = 0; i < st.size(); i++)
    if (i != SS::i_V && !std::isfinite(st[i])) bad("finite", sim::strf("state %zu is %g", i, st[i]));
  const bool cs = has(*l.n, "cs"), sei = has(*l.n, "sei"), pl = has(*l.n, "pl");
  for (auto &m : MON) {
    const double a = l.s0[m.i], b = st[m.i];
    if (l.blocked && a != b) bad("blocked", sim::strf("%s changed from %.17g to %.17g although degradation is blocked", m.name, a, b));
    bool may = false;
    switch (m.i) {
    case SS::i_delta: may = sei; break;
    case SS::i_LLI: may = sei || pl; break;
    case SS::i_CS: may = cs; break;
    case SS::i_delta_pl: may = pl; break;
    case SS::i_thickp: case SS::i_thickn: may = has(*l.n, "lam", '1'); break;
    case SS::i_ep: may = has(*l.n, "lam", '2') || has(*l.n, "lam", '3'); break;
    case SS::i_ap: may = has(*l.n, "lam", '2') || has(*l.n, "lam", '3') || has(*l.n, "lam", '4'); break;
    case SS::i_en: may = has(*l.n, "lam", '2') || has(*l.n, "por"); break;
    case SS::i_an: may = has(*l.n, "lam", '2') || has(*l.n, "lam", '4') || has(*l.n, "por"); break;
    case SS::i_Dn: may = cs && has(*l.n, "csd"); break;
    }
    if (!may && a != b) bad("not_selected", sim::strf("%s changed from %.17g to %.17g although no degradation model for it is selected", m.name, a, b));
    // the pore model (Ashwin et al.) includes the reversible expansion of the particles
    if ((m.i == SS::i_en || m.i == SS::i_an) && has(*l.n, "por")) continue;
    if (m.dir > 0 && b < a) bad("reversed", sim::strf("%s decreased from %.17g to %.17g", m.name, a, b));
    if (m.dir < 0 && b > a) bad("reversed", sim::strf("%s increased from %.17g to %.17g", m.name, a, b));
  }
  for (auto i : { SS::i_delta, SS::i_thickp, SS::i_thickn, SS::i_ep, SS::i_en, SS::i_ap, SS::i_an, SS::i_CS, SS::i_Dp, SS::i_Dn, SS::i_rDCp, SS::i_rDCn, SS::i_rDCcc })
    if (!(st[i] > 0)) bad("physical", sim::strf("state %d is %g", (int)i, st[i]));
  if (st.LLI() < 0 || st.delta_pl() < 0) bad("physical", "negative lost lithium or plated lithium");
  // a cell must not reach a state which it refuses itself
  const bool within = st.SOC() >= 0 && st.SOC() <= 1 && st.T() >= l.c->Tmin() && st.T() <= l.c->Tmax() && l.c->V() != 0;
  if (within && !l.c->validStates(false)) bad("valid", sim::strf("the cell has aged into a state which it does not accept itself (a/e positive %.9g, negative %.9g)", st.ap() / st.ep(), st.an() / st.en()));
  // effective surface and volume fraction belong together (only LAM model 4 loses surface alone)
  const bool l4 = has(*l.n, "lam", '4');
  auto geo = [&](double a, double e, double a0, double e0, const char *w) {
    const double g = (a / e) / (a0 / e0) - 1;
    if (g > 1e-9 || (!l4 && g < -1e-9)) bad("geometry", sim::strf("the effective surface of the %s electrode no longer belongs to its volume fraction (relative change %.3g)", w, g));
  };
  geo(st.ap(), st.ep(), l.s0.ap(), l.s0.ep(), "positive");
  geo(st.an(), st.en(), l.s0.an(), l.s0.en(), "negative");
  // the lithium lost is the lithium found in the SEI layer (also on the cracks) and the plated layer
  const double nst = (double)(l.p->n_step - l.st0) + 1;
  if (!l.blocked) {
    auto &a = l.s0;
    const double F = PhyConst::F, el = l.c->getAnodeSurface() / (st.an() * st.thickn());
    const double S0 = a.an() * a.thickn(), S1 = st.an() * st.thickn();
    const double Slo = std::min(S0, S1) * (1 - 1e-3 * has(*l.n, "por")), Shi = std::max(S0, S1) * (1 + 1e-3 * has(*l.n, "por"));
    double m = 0;
    if (cs) m = (double)l.n->at.at("cs").size();
    const double dd = st.delta() - a.delta(), dp = st.delta_pl() - a.delta_pl(), dl = st.LLI() - a.LLI();
    const double qs = dd * F * 100e3 * el, qp = dp * F * 10e6 * el;
    const double lo = Slo * (qs * (1 + m * a.CS() / (Shi * el)) + qp), hi = Shi * (qs * (1 + m * st.CS() / (Slo * el)) + qp);
    const double tol = 1e-9 * hi + nst * (1e-15 * F * el * Shi * (1 + m) * (st.delta() * 100e3 + st.delta_pl() * 10e6) * (1 + m * st.CS() / (Slo * el)) + 1e-15 * st.LLI());
    if (dl < lo - tol || dl > hi + tol) bad("lithium", sim::strf("%.9g C of lithium were lost but the layers grew by %.9g to %.9g C", dl, lo, hi));
    // the lithium which is lost comes from the negative electrode, nothing else is created or lost
    const auto li = lithium(*l.c);
    if (li.geo == l.li0.geo && !l.p->f_broken && !l.p->f_Ichanged) {
      const double dq = l.p->f_q - l.q0, dlp = li.p - l.li0.p, dln = li.n - l.li0.n;
      const double t = 1e-9 * (std::fabs(dq) + li.p + li.n);
      if (!(std::fabs(dlp - dq) <= t)) bad("conservation", sim::strf("the positive electrode gained %.12g C of lithium, the current passed %.12g C", dlp, dq));
      if (!(std::fabs(dln + dq + dl) <= t)) bad("conservation", sim::strf("the negative electrode gained %.12g C of lithium, the current passed %.12g C and %.12g C were lost", dln, dq, dl));
    }
    if ((sei || pl) && a.LLI() == 0 && l.p->dtsum - l.dt0 > 0.1 && l.p->fired == 0 && !(dl > 0)) bad("unblocked", "a cell whose degradation is not blocked and which has been stepped did not age");
  }
}

static void run(const Scn &s)
{
  auto n = parse_node(s.get("pack").str("spec"));
  const auto &cf = s.get("cfg");
  const auto mode = cf.str("mode");
  BuildOpt bo;
  bo.par = 0;
  bo.block = cf.i("block", 1);
  if (mode == "off") bo.block = true;

  if (mode == "off") { // models blocked == no models
    Node n0 = n;
    std::function<void(Node &)> strip = [&](Node &x) {
      if (x.kind == 'K')
        for (auto k : { "sei", "lam", "cs", "pl", "por", "csd" }) x.at.erase(k);
      for (auto &c : x.ch) strip(c);
    };
    strip(n0);
    std::vector<std::vector<double>> rec[3];
    std::vector<Out> outs[3];
    for (int v = 0; v < 3; v++) { // models, blocked; no models, blocked; no models, not blocked
      BuildOpt b = bo;
      b.block = v < 2;
      auto su = build(v == 0 ? n : n0, b);
      Cycler cy(su.get(), "A");
      ThroughputData th{};
      for (auto &l : s.lines) {
        if (!l.has("ph")) continue;
        sim::set_label(l.text().c_str());
        auto o = do_op(l, su.get(), cy, th);
        auto sn = snapshot(su.get());
        for (double d : th) sn.push_back(d);
        const size_t k = rec[v].size();
        bool out = false;
        for (auto c : leaves(su.get())) out |= probe(c)->v_out;
        if (out && v == 2) break; // only unblocked cells check that their state is within the model
        if (v > 0) {
          const char *w = v == 1 ? "blocked degradation" : "no degradation model, not blocked,";
          const auto &ref = rec[0][k];
          if (!(outs[0][k] == o)) sim::violation("off_outcome", std::string(w) + (v == 1 ? " ends differently from having no degradation model: " : " ends differently from blocked degradation: ") + "'" + l.text() + "' " + outs[0][k].text() + " vs " + o.text());
          if (auto d = diff(ref, sn); !d.empty()) sim::violation("off", "'" + l.text() + "': with " + (v == 1 ? "no degradation model" : "no degradation model and without blocking") + " the unit behaves differently from blocked degradation: " + d);
        }
        rec[v].push_back(sn);
        outs[v].push_back(o);
      }
      if (v == 0) sim::sh->simtime += th.time();
    }
    sim::sh->nontrivial = 1;
    for (auto &x : rec[0])
      for (double d : x) sim::observe_d(d);
    sim::sh->statehash = coarse(rec[0].empty() ? std::vector<double>{} : rec[0].back());
    return;
  }

  if (mode == "time") { // ageing is a rate: at rest it is proportional to the time, however the time is divided into calls
    const Node *pn = &n;
    while (!pn->ch.empty()) pn = &pn->ch[0];
    const Node n = *pn;
    auto grow = [&](double dt, int nn, int calls) {
      BuildOpt b;
      b.block = false;
      auto su = build(n, b);
      auto c = dynamic_cast<Cell_SPM *>(leaves(su.get())[0]);
      const auto a = c->getStateObj();
      for (int i = 0; i < calls; i++) c->timeStep_CC(dt, nn);
      auto e = c->getStateObj();
      for (size_t i = 0; i < e.size(); i++) e[i] -= a[i];
      return e;
    };
    const double dt = std::min(4.0, cf.num("dt"));
    const int nn = (int)cf.i("n");
    const auto one = grow(dt, 1, 1), many = grow(dt, nn, 1), calls = grow(dt, 1, nn), half = grow(dt / 2, nn, 2);
    const std::pair<SS::Index, double> st[] = { { SS::i_delta, 1e-9 }, { SS::i_LLI, 0 }, { SS::i_delta_pl, 0 }, { SS::i_CS, 0 } };
    for (auto &[i, s0] : st) {
      if (i == SS::i_CS && (has(n, "cs", '1') || has(n, "cs", '2'))) continue; // the square root of the stress amplifies rounding errors
      const double ref = one[i] * nn, tol = 0.02 * std::fabs(ref) + nn * 1e-14 * s0 + 1e-22;
      auto is = [&](const char *w, double x) {
        if (!(std::fabs(x - ref) <= tol)) sim::violation("time", sim::strf("state %d of a resting cell changes by %.9g in one step of %g s, but by %.9g in %s", (int)i, one[i], dt, x, w));
      };
      is(sim::strf("one call with %d such steps", nn).c_str(), many[i]);
      is(sim::strf("%d calls of one such step", nn).c_str(), calls[i]);
      is(sim::strf("two calls of %d steps of half the length", nn).c_str(), half[i]);
    }
    for (double x : many) sim::observe_d(x);
    sim::sh->nontrivial = has(n, "sei") || has(n, "pl");
    sim::sh->simtime += 4 * dt * nn;
    sim::sh->statehash = coarse(std::vector<double>(many.begin(), many.end()));
    return;
  }
  if (mode == "add") { // models act independently of each other
    Node k = n;
    auto su = build(k, bo);
    Cycler cy(su.get(), "A");
    ThroughputData th{};
    for (auto &l : s.lines)
      if (l.has("ph")) {
        sim::set_label(l.text().c_str());
        do_op(l, su.get(), cy, th);
      }
    auto cell = dynamic_cast<Cell_SPM *>(leaves(su.get())[0]);
    if (!cell) return;
    auto st = cell->getStateObj();
    auto ms = s.all("models");
    std::vector<SS> d;
    auto one = [&](const std::string &sei, const std::string &lam, const std::string &cs, int pl, int por, int csd) {
      Node x = k;
      x.at["sei"] = sei; x.at["lam"] = lam; x.at["cs"] = cs; x.at["pl"] = std::to_string(pl); x.at["por"] = std::to_string(por); x.at["csd"] = std::to_string(csd);
      Cell_SPM c("x", parse_deg(x), x.num("fc", 1), x.num("fr", 1), 1, 1);
      auto v = st;
      c.setStateObj(v);
      auto o = call([&] { c.timeStep_CC(cf.num("dt"), (int)cf.i("n")); });
      auto e = c.getStateObj();
      SS r{};
      for (size_t i = 0; i < e.size(); i++) r[i] = o.threw ? NAN : e[i] - st[i];
      return r;
    };
    const auto &A = *ms.at(0), &B = *ms.at(1);
    auto cat = [](const std::string &a, const std::string &b) { return (a == "0" ? "" : a) + (b == "0" ? "" : b) + "0"; };
    const int por = (int)A.i("por"), csd = (int)A.i("csd");
    SS a = one(A.str("sei"), A.str("lam"), A.str("cs"), (int)A.i("pl"), por, csd), b = one(B.str("sei"), B.str("lam"), B.str("cs"), (int)B.i("pl"), por, csd);
    SS z = one("0", "0", "0", 0, por, csd);
    SS ab = one(cat(A.str("sei"), B.str("sei")), cat(A.str("lam"), B.str("lam")), cat(A.str("cs"), B.str("cs")), (int)(A.i("pl") + B.i("pl")), por, csd);
    if (!(a[SS::i_delta] == a[SS::i_delta]) || !(b[SS::i_delta] == b[SS::i_delta])) return;
    for (auto i : { SS::i_delta, SS::i_delta_pl, SS::i_thickp, SS::i_thickn, SS::i_ep, SS::i_en, SS::i_ap, SS::i_an, SS::i_CS }) {
      const double want = a[i] + b[i] - z[i], tol = 1e-9 * (std::fabs(a[i]) + std::fabs(b[i])) + 1e-14 * std::fabs(st[i]);
      if (!(std::fabs(ab[i] - want) <= tol)) sim::violation("add", sim::strf("state %d: two sets of degradation models change it by %.12g and %.12g, together by %.12g", (int)i, a[i] - z[i], b[i], ab[i]));
    }
    // crack models share the SEI growth: the lithium lost on the cracks adds up too
    const auto S = cat(A.str("sei"), B.str("sei"));
    const int pl = (int)(A.i("pl") + B.i("pl"));
    auto lli = [&](const std::string &cs) { return one(S, "0", cs, pl, por, csd); };
    auto CA = A.str("cs"), CB = B.str("cs"), CC = cat(CA, CB), CR = std::string(CC.rbegin(), CC.rend());
    const auto c0 = lli("0"), c1 = lli(CA), c2 = lli(CB), c12 = lli(CC), c21 = lli(CR);
    for (auto i : { SS::i_LLI, SS::i_CS, SS::i_delta }) {
      const double want = c1[i] + c2[i] - c0[i], tol = 1e-9 * (std::fabs(c1[i]) + std::fabs(c2[i])) + 1e-14 * std::fabs(st[i]);
      if (!(std::fabs(c12[i] - want) <= tol)) sim::violation("add_cracks", sim::strf("state %d: with the crack models %s and %s alone it changes by %.12g and %.12g (%.12g without), with both by %.12g", (int)i, CA.c_str(), CB.c_str(), c1[i], c2[i], c0[i], c12[i]));
      if (!(std::fabs(c21[i] - c12[i]) <= tol)) sim::violation("order", sim::strf("state %d: the order in which the crack models are listed matters: %.12g or %.12g", (int)i, c12[i], c21[i]));
    }
    // neither does the order of the others
    auto rev = [](std::string x) { return std::string(x.rbegin(), x.rend()); };
    const auto ba = one(rev(S), rev(cat(A.str("lam"), B.str("lam"))), CR, pl, por, csd);
    for (size_t i = 0; i < ab.size(); i++) {
      if (i == SS::i_V) continue;
      const double tol = 1e-9 * (std::fabs(ab[i]) + std::fabs(ba[i])) + 1e-14 * std::fabs(st[i]);
      if (!(std::fabs(ab[i] - ba[i]) <= tol)) sim::violation("order", sim::strf("state %zu: the order in which degradation models are listed matters: %.12g or %.12g", i, ab[i], ba[i]));
    }
    for (double x : ab) sim::observe_d(x);
    sim::sh->nontrivial = 1;
    sim::sh->simtime += th.time();
    std::vector<double> cv(ab.begin(), ab.end());
    sim::sh->statehash = coarse(cv);
    return;
  }

  auto su = build(n, bo);
  arm_cell_faults(s, su.get());
  std::vector<const Node *> ln;
  leaf_nodes(n, ln);
  std::vector<Leaf> L;
  auto cells = leaves(su.get());
  for (size_t i = 0; i < cells.size(); i++)
    if (auto c = dynamic_cast<Cell_SPM *>(cells[i])) {
      L.push_back(Leaf{ c, probe(cells[i]), ln[i], (int)i, bo.block });
      probe(cells[i])->rec_flow = true;
    }
  Cycler cy(su.get(), "A");
  ThroughputData th{};
  std::vector<StorageUnit *> nodes;
  all_nodes(su.get(), nodes);
  for (auto &l : s.lines) {
    if (!l.has("ph")) continue;
    sim::set_label(l.text().c_str());
    if (l.kind == "block") {
      auto u = nodes[l.u("node") % nodes.size()];
      u->setBlockDegAndTherm(l.i("on"));
      auto sub = leaves(u);
      for (auto &x : L)
        for (auto c : sub)
          if (c == x.c) x.blocked = l.i("on");
      continue;
    }
    for (auto &x : L) {
      x.s0 = x.c->getStateObj();
      x.li0 = lithium(*x.c);
      x.q0 = x.p->f_q;
      x.st0 = x.p->n_step;
      x.dt0 = x.p->dtsum;
    }
    auto o = do_op(l, su.get(), cy, th);
    sim::observe(o.text());
    for (auto &x : L) check(l.text(), x);
  }
  for (auto &x : L) {
    auto &st = x.c->getStateObj();
    if (x.p->dtsum > 0 && !x.blocked) sim::sh->nontrivial = 1;
    for (double d : st) sim::observe_d(d);
    sim::sh->statehash = sim::mix(sim::sh->statehash, coarse(std::vector<double>(st.begin(), st.end())));
    sim::sh->simtime = std::max(sim::sh->simtime, x.p->dtsum);
  }
}
static RegProp r16("C16", gen, run);
