// Packs, probe cells and operations shared by all scenarios.
#pragma once
#include "core.hpp"
#include "scn.hpp"
#include "slide.hpp"
#include <cmath>
#include <memory>
#include <functional>
#include <stdexcept>

namespace world {
using namespace slide;

// ---------------------------------------------------------------- probes
struct CellFault {
  enum What { StepThrow, StepThrowStd, StepThrowMid, SetIBad, SetIThrow, VZero, VThrow, SetStatesBad, SetStatesThrow, StepAlloc, StoreThrow, SetIWarn } what;
  int64_t at = 0;  // 0-based index of the call of that kind
  int64_t n = 1;   // how many consecutive calls, -1 for ever
  int code = 2;
};
struct Row { double I, V, SOC, T, time, Ah, Wh; };
struct ProbeBase {
  int idx = -1;                       // leaf number
  std::vector<CellFault> faults;
  int64_t n_step = 0, n_setI = 0, n_V = 0, n_setS = 0, n_store = 0;
  bool armed = true;                  // faults only fire while armed
  int64_t fired = 0;
  // history
  // the cell refuses every current (state) other than the one it has now, after the first `left` changes
  bool refuse_i = false, refuse_s = false;
  int refuse_left = 0, refuse_code = 8;
  double refuse_I0 = 0;
  std::vector<double> refuse_st;
  bool rec_steps = false;
  std::vector<std::pair<double, int>> steps; // (dt, nstep) of every call
  int64_t stepped = 0;                // sum of nstep
  double dtsum = 0;
  int64_t entered = 0;                // calls of timeStep_CC entered (including failing ones)
  bool rec_flow = false;              // account the charge and energy of every time step of this cell
  double f_time = 0, f_q = 0, f_ah = 0, f_wh_lo = 0, f_wh_hi = 0; // since the start: s, signed As, |I|dt/3600, bounds of the energy
  bool f_broken = false;              // a time step of the real cell failed in the middle
  bool f_Ichanged = false;            // a constant-current step changed the current of the cell
  bool rec_rows = false;
  std::vector<Row> rows;              // every stored data point, in order
  std::function<void(const std::string &, bool)> on_flush; // after every flush of this cell: prefix, failed
  bool v_out = false;                 // the state of the cell has been outside its model (no voltage)
  bool store_changed = false;         // storing a data point changed the cell
  virtual ~ProbeBase() = default;
  bool hit(CellFault::What w, int64_t call, int *code = nullptr)
  {
    if (!armed) return false;
    for (auto &f : faults)
      if (f.what == w && call >= f.at && (f.n < 0 || call < f.at + f.n)) {
        fired++;
        if (code) *code = f.code;
        return true;
      }
    return false;
  }
};

struct Boom : std::runtime_error { Boom() : std::runtime_error("injected failure") {} };

// an override must not be looser than the function it replaces; where that one promises not to throw, no exception is injected
#define SIM_NX(T, call) noexcept(noexcept(std::declval<T &>().call))

template <class C>
class Probe : public C, public ProbeBase
{
public:
  using C::C;
  Probe(const C &c) : C(c) {}
  void real_step(double dt, int n)
  {
    if (!rec_flow) return C::timeStep_CC(dt, n);
    auto v = [&] { double x = 0; try { x = C::V(); } catch (...) {} return x; };
    const double I0 = this->I(), V0 = v();
    f_broken = true;
    C::timeStep_CC(dt, n);
    f_broken = false;
    const double V1 = v(), q = std::fabs(I0) * dt * n / 3600.0;
    if (this->I() != I0) f_Ichanged = true;
    f_time += dt * n;
    f_q += I0 * dt * n;
    f_ah += q;
    // the voltage need not change monotonically during one step
    const double m = std::fabs(V1 - V0) + 1e-3;
    const bool usual = V0 > 2.5 && V1 > 2.5 && V0 < 4.35 && V1 < 4.35 && std::fabs(V1 - V0) < 0.15 && std::fabs(I0) < 2 * this->Cap() && dt <= 10;
    f_wh_lo += q * (usual ? std::min(V0, V1) - m : 0);
    f_wh_hi += q * (usual ? std::max(V0, V1) + m : 100);
  }
  void timeStep_CC(double dt, int n) SIM_NX(C, timeStep_CC(0., 1)) override
  {
    const auto k = n_step++;
    entered++;
    int code = 2;
    if (!noexcept(std::declval<C &>().timeStep_CC(0., 1)) && hit(CellFault::StepThrow, k, &code)) { sim::count_fault(sim::F_CHILD_THROW); throw code; }
    if (!noexcept(std::declval<C &>().timeStep_CC(0., 1)) && hit(CellFault::StepThrowStd, k)) { sim::count_fault(sim::F_CHILD_NONINT); throw Boom(); }
    if (!noexcept(std::declval<C &>().timeStep_CC(0., 1)) && hit(CellFault::StepThrowMid, k, &code)) {
      real_step(dt, 1);
      sim::count_fault(sim::F_CHILD_THROW);
      throw code;
    }
    real_step(dt, n);
    stepped += n;
    dtsum += n * dt;
    sim::AllocOff off;
    if (rec_steps) steps.emplace_back(dt, n);
  }
  Status setCurrent(double I, bool checkV, bool print) SIM_NX(C, setCurrent(0., true, true)) override
  {
    const auto k = n_setI++;
    int code = 2;
    if (!noexcept(std::declval<C &>().setCurrent(0., true, true)) && hit(CellFault::SetIThrow, k, &code)) { sim::count_fault(sim::F_CHILD_THROW); throw code; }
    if (armed && refuse_i && I != refuse_I0 && refuse_left-- <= 0) {
      fired++;
      sim::count_fault(sim::F_CHILD_STATUS);
      return static_cast<Status>(refuse_code);
    }
    if (hit(CellFault::SetIBad, k, &code)) { sim::count_fault(sim::F_CHILD_STATUS); return static_cast<Status>(code); }
    if (hit(CellFault::SetIWarn, k, &code)) {
      sim::count_fault(sim::F_CHILD_STATUS);
      auto s = C::setCurrent(I, checkV, print);
      return isStatusBad(s) ? s : Status::Vmin_violation;
    }
    return C::setCurrent(I, checkV, print);
  }
  double V() SIM_NX(C, V()) override
  {
    const auto k = n_V++;
    int code = 2;
    if (!noexcept(std::declval<C &>().V()) && hit(CellFault::VThrow, k, &code)) { sim::count_fault(sim::F_V_FAIL); throw code; }
    if (hit(CellFault::VZero, k)) { sim::count_fault(sim::F_V_FAIL); return 0; }
    const double v = C::V();
    if (v == 0) v_out = true;
    return v;
  }
  Status setStates(std::span<double> &s, bool check, bool print) SIM_NX(C, setStates(std::declval<std::span<double> &>(), true, true)) override
  {
    const auto k = n_setS++;
    int code = 2;
    if (!noexcept(std::declval<C &>().setStates(std::declval<std::span<double> &>(), true, true)) && hit(CellFault::SetStatesThrow, k, &code)) { sim::count_fault(sim::F_CHILD_THROW); throw code; }
    if (armed && refuse_s && !std::equal(refuse_st.begin(), refuse_st.end(), s.begin()) && refuse_left-- <= 0) {
      fired++;
      sim::count_fault(sim::F_CHILD_STATUS);
      s = s.last(s.size() - this->viewStates().size());
      return static_cast<Status>(refuse_code);
    }
    if (hit(CellFault::SetStatesBad, k)) {
      sim::count_fault(sim::F_CHILD_STATUS);
      s = s.last(s.size() - this->viewStates().size());
      return Status::Invalid_states;
    }
    return C::setStates(s, check, print);
  }
  void storeData() SIM_NX(C, storeData()) override
  {
    const auto k = n_store++;
    int code = 2;
    if (!noexcept(std::declval<C &>().storeData()) && hit(CellFault::StoreThrow, k, &code)) { sim::count_fault(sim::F_CHILD_THROW); throw code; }
    std::vector<double> before;
    if (rec_rows) {
      sim::AllocOff off;
      try { C::V(); } catch (...) {} // (re)computes the stored voltage
      auto v = this->viewStates();
      before.assign(v.begin(), v.end());
    }
    C::storeData();
    if (rec_rows) {
      sim::AllocOff off;
      auto v = this->viewStates();
      for (size_t i = 0; i < v.size(); i++) store_changed |= !(before[i] == v[i]) && before[i] == before[i];
      auto th = this->getThroughputs();
      rows.push_back(Row{ this->I(), C::V(), this->SOC(), this->T(), th.time(), th.Ah(), th.Wh() });
    }
  }
  void writeData(const std::string &prefix) SIM_NX(C, writeData(std::declval<const std::string &>())) override
  {
    if (!on_flush) return C::writeData(prefix);
    try {
      C::writeData(prefix);
    } catch (...) {
      on_flush(prefix, true);
      throw;
    }
    on_flush(prefix, false);
  }
  Probe *copy() override { return new Probe(*this); }
};

// ---------------------------------------------------------------- pack spec
struct Node {
  char kind = 'B'; // B bucket, E ECM1, F ECM2, K SPM, S series, P parallel, X battery
  std::map<std::string, std::string> at;
  std::vector<Node> ch;
  double num(const char *k, double d) const
  {
    auto it = at.find(k);
    return it == at.end() ? d : strtod(it->second.c_str(), nullptr);
  }
  std::string text() const;
  int leaves() const
  {
    if (ch.empty()) return 1;
    int n = 0;
    for (auto &c : ch) n += c.leaves();
    return n;
  }
  bool isModule() const { return kind == 'S' || kind == 'P'; }
};
Node parse_node(const std::string &s);

struct BuildOpt {
  int par = -1;      // override of the multithreading flag of every module
  bool probes = true;
  bool spm_probes = true; // (the procedures treat exactly Cell_SPM in a special way)
  bool block = true; // block degradation and thermal
  std::string tag;   // appended to the names of all units
  std::function<Cell_SPM *(const std::string &, DEG_ID, double, double, double, double)> hot; // makes the SPM cells
};
Deep_ptr<StorageUnit> build(const Node &n, const BuildOpt &o);
void leaves(StorageUnit *su, std::vector<Cell *> &out);
std::vector<Cell *> leaves(StorageUnit *su);
ProbeBase *probe(Cell *c);
void all_nodes(StorageUnit *su, std::vector<StorageUnit *> &out); // pre-order, including su
void arm_cell_faults(const Scn &s, StorageUnit *su);
void set_armed(StorageUnit *su, bool a);

DEG_ID parse_deg(const Node &n);

// generators
struct PackCfg {
  int maxcells = 12;
  int maxdepth = 3;
  bool spm = false;        // allow SPM cells
  bool battery = false;
  bool rc = true;
  double spread = 0.05;    // SOC spread
  bool var_cap = true;
  double soc_lo = 0.2, soc_hi = 0.8;
  bool leaf_only_ok = true;
  double kfrac = 0;        // additional fraction of SPM cells
};
Node gen_pack(sim::Rng &r, const PackCfg &c);

// snapshot of everything observable of a unit
std::vector<double> snapshot(StorageUnit *su, bool withV = true);
std::string diff(const std::vector<double> &a, const std::vector<double> &b, double rel = 0);
// lithium in the electrodes of an SPM cell [C]: the mode with eigenvalue 0 is the mean concentration
struct Lithium { double p, n, geo; };
inline Lithium lithium(slide::Cell_SPM &c)
{
  auto M = slide::Model_SPM::makeModel();
  const auto ind = (size_t)M->Input[3];
  const double Rp = 8.5e-6, Rn = 1.25e-5, F = 96487;
  double up = 0, un = 0;
  for (size_t i = 0; i < slide::Model_SPM::nch; i++) {
    up += M->Vp[ind][i] * M->xch[i] * Rp;
    un += M->Vn[ind][i] * M->xch[i] * Rn;
  }
  auto &st = c.getStateObj();
  const double el = c.getAnodeSurface() / (st.an() * st.thickn());
  return { F * st.zp(ind) / up * st.ap() * Rp / 3 * st.thickp() * el, F * st.zn(ind) / un * st.an() * Rn / 3 * st.thickn() * el, st.ap() * st.thickp() + 3 * st.an() * st.thickn() };
}

uint64_t coarse(const std::vector<double> &v);

// ---------------------------------------------------------------- outcome of a call
struct Out {
  bool threw = false;
  bool isint = false;
  int code = 0;
  std::string what;
  Status st = Status::Success;
  std::string text() const;
  bool operator==(const Out &o) const { return threw == o.threw && isint == o.isint && code == o.code && (threw || st == o.st); }
};
template <class F>
Out call(F &&f)
{
  Out o;
  try {
    sim::AllocOn on;
    if constexpr (std::is_same_v<decltype(f()), Status>) o.st = f();
    else
      f();
  } catch (int e) {
    o.threw = o.isint = true;
    o.code = e;
  } catch (const std::exception &e) {
    o.threw = true;
    sim::AllocOff ao;
    o.what = e.what();
  } catch (...) {
    o.threw = true;
  }
  return o;
}
Out do_op(const Line &op, StorageUnit *su, Cycler &cyc, ThroughputData &th);

extern const char *ROOT;
void load_data_files(const std::string &repo); // from the real repository into the simulated file system
void warm_spm();                               // create one SPM cell (loads the static data)
std::string results_path(const std::string &file);

// the log of one cell, parsed
struct Log {
  std::vector<std::vector<double>> rows;  // complete rows in order (7 numbers)
  std::vector<std::string> torn;          // fragments that are not complete rows
  int headers = 0;
  bool ends_clean = true;
};
Log parse_log(const std::string &content);
bool row_matches(const std::vector<double> &r, const Row &x);
std::string cell_log_name(const std::string &prefix, Cell *c);

inline bool bad_exc_ok() { return true; }
} // namespace world
