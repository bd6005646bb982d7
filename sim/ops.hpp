// Random operations on a unit, shared by several scenarios.
#pragma once
#include "world.hpp"

namespace world {
inline void gen_unit_ops(sim::Rng &r, Scn &s, int n, int ph, bool thorough, double tmax = 0)
{
  if (tmax == 0) tmax = thorough ? 400 : 120;
  for (int i = 0; i < n; i++) {
    const int k = (int)r.below(17);
    const double dt = r.chance(0.3) ? r.real(0.3, 7) : (double)r.range(1, 5);
    const double t = r.chance(0.3) ? r.real(1, tmax) : (double)r.range(2, (int)tmax);
    const double I = (r.chance(0.5) ? 1 : -1) * (r.chance(0.1) ? r.real(1, 4) : r.real(0.05, 1.2));
    const int nd = r.chance(0.5) ? 0 : r.range(1, 6);
    Line *l;
    if (k < 4) l = &s.add("cc").set("I", I).set("v", r.chance(0.5) ? (I < 0 ? 0.95 : 0.05) : r.real(0.1, 0.9)).set("t", t).set("dt", dt).set("nd", nd);
    else if (k < 6) l = &s.add("cv").set("v", r.real(0.15, 0.9)).set("il", r.real(0.005, 0.3)).set("t", std::min(t, 80.0)).set("dt", dt).set("nd", nd);
    else if (k < 8) l = &s.add("cccv").set("I", I).set("v", r.real(0.15, 0.9)).set("il", r.real(0.005, 0.3)).set("t", t).set("dt", dt).set("nd", nd);
    else if (k < 10) l = &s.add("rest").set("t", t).set("dt", dt).set("nd", nd);
    else if (k < 12) l = &s.add("seti").set("I", I).set("chk", r.range(0, 1));
    else if (k < 13) l = &s.add("setv").set("v", r.real(0.1, 0.9));
    else if (k < 15) l = &s.add("step").set("dt", dt).set("n", r.range(1, 5));
    else if (k < 16) l = &s.add("temp").set("node", (int64_t)r.below(20)).set("T", r.real(285, 320));
    else l = &s.add(r.chance(0.7) ? "store" : "flush");
    l->set("ph", ph);
  }
}
// random degradation models; those whose stress history is not part of the states only if all
inline void age_models(Node &n, sim::Rng &r, bool all)
{
  if (n.kind == 'K') {
    for (auto k : { "sei", "lam", "cs", "pl", "por", "csd" }) n.at.erase(k);
    if (r.chance(0.7)) n.at["sei"] = r.chance(0.2) ? "12" : std::to_string(r.range(1, 4));
    if (r.chance(0.5)) n.at["lam"] = r.chance(0.2) ? "23" : std::to_string(r.range(all ? 1 : 2, 4));
    if (r.chance(0.5)) n.at["cs"] = std::to_string(r.range(all ? 1 : 3, 5));
    if (r.chance(0.3)) n.at["pl"] = "1";
    if (r.chance(0.3)) n.at["por"] = "1";
    if (r.chance(0.3)) n.at["csd"] = "1";
  }
  for (auto &c : n.ch) age_models(c, r, all);
}
} // namespace world
