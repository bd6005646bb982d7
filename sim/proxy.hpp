// A storage unit between a cycler and the real pack: records what the cycler does and what the pack was like.
#pragma once
#include "world.hpp"

namespace world {
struct Ev {
  enum K { SetI, SetV, Step } k;
  double a = 0;          // current or voltage or dt
  int n = 0;             // number of sub-steps
  bool threw = false;
  Status st = Status::Success;
  double I0 = 0, V0 = 0; // before
  double I1 = 0, V1 = 0; // after
  bool vok = true;       // voltages could be read
};

class ProxySU : public slide::StorageUnit
{
public:
  StorageUnit *u;
  bool arm = true; // injected failures are armed outside of the readings of this proxy
  std::vector<Ev> ev;
  std::function<void(const Ev &)> on_ev; // called after every event
  ProxySU(StorageUnit *p) : StorageUnit("proxy"), u(p) {}

  double readV(bool &ok)
  {
    double v = 0;
    set_armed(u, false);
    try {
      v = u->V();
    } catch (...) {
      ok = false;
    }
    set_armed(u, arm);
    if (!(v > 0)) ok = false;
    return v;
  }
  double readI() { return u->I(); }
  template <class F>
  auto rec(Ev e, F &&f)
  {
    sim::AllocOff *off = nullptr;
    e.I0 = readI();
    e.V0 = readV(e.vok);
    auto done = [&] {
      e.I1 = readI();
      e.V1 = readV(e.vok);
      sim::AllocOff ao;
      ev.push_back(e);
      if (getenv("SIM_VERBOSE")) fprintf(stderr, "EV %s %.9g x%d -> %s %d I %.9g -> %.9g V %.9g -> %.9g\n", e.k == Ev::SetI ? "seti" : e.k == Ev::SetV ? "setv" : "step", e.a, e.n, e.threw ? "threw" : "", (int)e.st, e.I0, e.I1, e.V0, e.V1);
      if (on_ev) on_ev(ev.back());
    };
    try {
      e.st = f();
    } catch (...) {
      e.threw = true;
      done();
      throw;
    }
    done();
    return e.st;
  }
  Status setCurrent(double I, bool c, bool p) SIM_NX(StorageUnit, setCurrent(0., true, true)) override { return rec(Ev{ Ev::SetI, I }, [&] { return u->setCurrent(I, c, p); }); }
  Status setVoltage(double V, bool c, bool p) SIM_NX(StorageUnit, setVoltage(0., true, true)) override { return rec(Ev{ Ev::SetV, V }, [&] { return u->setVoltage(V, c, p); }); }
  void timeStep_CC(double dt, int n) SIM_NX(StorageUnit, timeStep_CC(0., 1)) override { rec(Ev{ Ev::Step, dt, n }, [&] { u->timeStep_CC(dt, n); return Status::Success; }); }

  std::string getFullID() SIM_NX(StorageUnit, getFullID()) override { return u->getFullID(); }
  double Cap() const SIM_NX(StorageUnit, Cap()) override { return u->Cap(); }
  double I() const SIM_NX(StorageUnit, I()) override { return u->I(); }
  double getRtot() SIM_NX(StorageUnit, getRtot()) override { return u->getRtot(); }
  size_t getNcells() SIM_NX(StorageUnit, getNcells()) override { return u->getNcells(); }
  void getStates(getStates_t s) SIM_NX(StorageUnit, getStates(std::declval<getStates_t>())) override { u->getStates(s); }
  viewStates_t viewStates() SIM_NX(StorageUnit, viewStates()) override { return u->viewStates(); }
  void setBlockDegAndTherm(bool b) SIM_NX(StorageUnit, setBlockDegAndTherm(true)) override { u->setBlockDegAndTherm(b); }
  Status setStates(setStates_t s, bool c, bool p) SIM_NX(StorageUnit, setStates(std::declval<setStates_t>(), true, true)) override { return u->setStates(s, c, p); }
  void backupStates() SIM_NX(StorageUnit, backupStates()) override { u->backupStates(); }
  void restoreStates() SIM_NX(StorageUnit, restoreStates()) override { u->restoreStates(); }
  double getOCV() SIM_NX(StorageUnit, getOCV()) override { return u->getOCV(); }
  int v_bad = 0;        // readings of the voltage without a result since the last one with a result
  size_t v_bad_ev = 0;  // the number of events when the first of them was made
  double V() SIM_NX(StorageUnit, V()) override
  {
    const double v = u->V();
    if (v > 0) v_bad = 0;
    else if (v_bad++ == 0) v_bad_ev = ev.size();
    return v;
  }
  Status checkVoltage(double &v, bool p) noexcept override { return u->checkVoltage(v, p); }
  double getVhigh() SIM_NX(StorageUnit, getVhigh()) override { return u->getVhigh(); }
  double getVlow() SIM_NX(StorageUnit, getVlow()) override { return u->getVlow(); }
  double Vmin() const SIM_NX(StorageUnit, Vmin()) override { return u->Vmin(); }
  double VMIN() const SIM_NX(StorageUnit, VMIN()) override { return u->VMIN(); }
  double Vmax() const SIM_NX(StorageUnit, Vmax()) override { return u->Vmax(); }
  double VMAX() const SIM_NX(StorageUnit, VMAX()) override { return u->VMAX(); }
  double T() SIM_NX(StorageUnit, T()) override { return u->T(); }
  double getThotSpot() SIM_NX(StorageUnit, getThotSpot()) override { return u->getThotSpot(); }
  double getThermalSurface() SIM_NX(StorageUnit, getThermalSurface()) override { return u->getThermalSurface(); }
  double thermalModel(int n, double T[], double K[], double A[], double t) SIM_NX(StorageUnit, thermalModel(1, std::declval<double *>(), std::declval<double *>(), std::declval<double *>(), 0.)) override { return u->thermalModel(n, T, K, A, t); }
  void setT(double T) SIM_NX(StorageUnit, setT(0.)) override { u->setT(T); }
  bool validStates(bool p) SIM_NX(StorageUnit, validStates(true)) override { return u->validStates(p); }
  StorageUnit *copy() override { return new ProxySU(u); }
  void storeData() SIM_NX(StorageUnit, storeData()) override { u->storeData(); }
  void writeData(const std::string &p) SIM_NX(StorageUnit, writeData(std::declval<const std::string &>())) override { u->writeData(p); }
};

// contact resistances as given in the scenario
inline std::vector<double> rcontacts(const Node &n)
{
  std::vector<double> rc(n.ch.size(), 0.0);
  auto it = n.at.find("rc");
  if (it == n.at.end()) return rc;
  std::istringstream is(it->second);
  std::string x;
  std::vector<double> v;
  while (std::getline(is, x, '/')) v.push_back(strtod(x.c_str(), nullptr));
  for (size_t i = 0; i < rc.size(); i++) rc[i] = v.empty() ? 0 : i < v.size() ? v[i] : v.back();
  return rc;
}
} // namespace world
