// Deterministic simulation core: scheduler, race detector, file system, clock, allocation seams.
// Nothing in here knows about SLIDE.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <utility>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); } // inclusive
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * unit(); }
  bool chance(double p) { return unit() < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull + b + 0x1234567); return r.next(); }
inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
  auto c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
inline uint64_t fnvs(const std::string &s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

// ---------------------------------------------------------------- shared result block (child -> parent)
enum class Res : int { None = 0, Ok, Violation, Skip, HarnessError };
struct Switch { uint64_t step; int32_t to; int32_t pad; };
struct Shared {
  Res res;
  char tag[96];        // oracle tag of the violation
  char msg[1500];      // message
  uint64_t hash;       // hash of everything observed in the run (for replay equality)
  uint64_t statehash;  // coarse hash of the states reached
  uint64_t schedhash;  // hash of the schedule (all switches)
  uint64_t nontrivial; // property specific: the run exercised what it is about
  uint64_t steps, accesses, switches, preempts, threads, creates;
  double simtime;      // simulated battery seconds
  uint64_t simclock_ns;
  uint64_t fault_n[40];
  uint32_t nsw;        // recorded switches (may be truncated)
  uint32_t sw_trunc;
  Switch sw[60000];
};
extern Shared *sh;

// fault kinds (names in core.cpp)
enum Fault {
  F_OPEN, F_ENOSPC, F_EIO_W, F_SHORTW, F_EINTR_W, F_CLOSE, F_READ_EIO, F_READ_SHORT, F_READ_EINTR, F_EMPTY, F_MISSING, F_TORN,
  F_CRASH, F_ALLOC, F_THREAD, F_CHILD_THROW, F_CHILD_STATUS, F_CLOCK_JUMP, F_CORES, F_PREEMPT, F_MEMFILL, F_PRIOR, F_CHILD_NONINT, F_SLOW, F_UNWRITABLE, F_V_FAIL, F_COUNT
};
extern const char *fault_name[];
void count_fault(Fault f, uint64_t n = 1);

[[noreturn]] void violation(const std::string &tag, const std::string &msg);
[[noreturn]] void harness_error(const std::string &msg);
void observe(const void *p, size_t n);
void observe(const std::string &s);
void observe_d(double d);
std::string strf(const char *f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- scheduler
struct SchedCfg {
  bool explicit_plan = false;
  std::vector<Switch> plan;   // explicit mode
  uint64_t seed = 1;
  double mean_gap = 200;      // mean number of accesses between preemptions (random mode)
  uint64_t max_steps = 400000000ull;
  int cores = 4;
  bool races = true;
  int64_t fail_create_at = -1; // n-th thread creation (0-based) fails with EAGAIN
  int fail_create_n = 1;       // how many consecutive ones
};
void sched_begin(const SchedCfg &); // calling thread becomes simulated thread 0
void sched_end();
int live_threads();                 // created and not yet joined/finished, main excluded
int unfinished_threads();
void yield_point();
uint64_t sched_steps();
void set_cores(int n);              // number of cores the platform reports (also without sched)
void arm_thread_fault(int64_t at, int n);
bool race_seen(std::string *out);
void set_label(const char *l);      // what the run is doing, added to crash reports

// ---------------------------------------------------------------- clock
void clock_cfg(uint64_t seed, int mode); // 0 steady, 1 random jumps, 2 stalls, 3 backwards
// ---------------------------------------------------------------- randomness
void entropy_cfg(uint64_t seed);

// ---------------------------------------------------------------- allocation
void alloc_arm(int64_t nth);   // the nth operator new from now fails (0 = next); -1 off
void alloc_pause(bool);        // harness code must not be hit
bool alloc_fired();
uint64_t alloc_count();
struct AllocOff { AllocOff() { alloc_pause(true); } ~AllocOff() { alloc_pause(false); } };
void alloc_enable(bool);       // counting/faulting only while enabled
void alloc_fill(int v);        // fresh memory is filled with this byte (-1: left alone)
extern thread_local int t_alloc_pause;
struct AllocOn { // the code under test runs in this scope
  int old = t_alloc_pause;
  AllocOn() { t_alloc_pause = 0; }
  ~AllocOn() { t_alloc_pause = old; }
};

// ---------------------------------------------------------------- file system
struct FsFault {
  Fault kind;
  std::string match;   // substring of the path
  int nth = 0;         // n-th matching operation from arming (0-based)
  int count = 1;       // how many consecutive operations fail; -1 = until healed
  long arg = 0;        // e.g. number of bytes that still get through
};
void fs_begin(const std::string &root);        // all files are simulated from here on
void fs_add_file(const std::string &path, const std::string &content);
bool fs_exists(const std::string &path);
std::string fs_read(const std::string &path);
std::vector<std::string> fs_list();
void fs_arm(const FsFault &);
void fs_heal();
void fs_heal_pause(bool); // armed faults do not fire (and do not count) while paused
uint64_t fs_faults_fired();
uint64_t fs_ops();
struct FsOp { int kind; int file; uint64_t off, len; bool faulted; }; // kind 0 open 1 write 2 close 3 truncate
const std::vector<FsOp> &fs_log();
bool fs_history_ok(std::string *why);          // no write ever altered earlier content (append-only for app files)
int fs_open_handles();
void fs_reset_files();
std::string fs_crash_image(const std::string &path, size_t nops, long torn); // content if crashed after nops log entries
int fs_file_id(const std::string &path);

void rss_limit();
void dirty_stack(unsigned char v);
} // namespace sim
