// Deterministic simulation core (compiled without instrumentation).
#include "core.hpp"
#include <pthread.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <csignal>
#include <ucontext.h>
#include <new>
#include <atomic>
#include <random>
#include <iostream>
#include <exception>
#include <typeinfo>
#include <unordered_map>
#include <set>
#include <algorithm>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sched.h>
#include <malloc.h>
#include <cxxabi.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <linux/futex.h>

namespace sim {

Shared *sh = nullptr;
thread_local int t_alloc_pause = 0;
static thread_local int t_core = 0; // >0: inside the simulator itself
struct Core { Core() { ++t_core; ++t_alloc_pause; } ~Core() { --t_core; --t_alloc_pause; } };

const char *fault_name[] = { "open_fails", "disk_full", "write_eio", "short_write", "write_eintr", "close_fails", "read_eio", "read_short", "read_eintr", "file_empty", "file_missing", "torn_write",
  "crash", "alloc_fails", "thread_create_fails", "child_throws", "child_bad_status", "clock_jump", "core_count_change", "preemption", "dirty_memory", "prior_experiment", "child_throws_nonint", "slow_thread", "unwritable_report", "child_voltage_fails", nullptr };

template <class F> static F real(const char *n)
{
  auto p = dlsym(RTLD_NEXT, n);
  if (!p) { fprintf(stderr, "sim: no %s\n", n); _exit(99); }
  return (F)p;
}
#define REAL(name) static auto real_##name = real<decltype(&::name)>(#name)

static long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
  long ret;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}

std::string strf(const char *f, ...)
{
  char b[3000];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

static char g_label[200];
void set_label(const char *l) { snprintf(g_label, sizeof g_label, "%s", l); }

static void fin_stats();
[[noreturn]] void violation(const std::string &tag, const std::string &msg)
{
  Core c;
  if (sh && sh->res == Res::None) {
    snprintf(sh->tag, sizeof sh->tag, "%s", tag.c_str());
    snprintf(sh->msg, sizeof sh->msg, "%s%s%s%s", msg.c_str(), g_label[0] ? " [during " : "", g_label, g_label[0] ? "]" : "");
    sh->res = Res::Violation;
    fin_stats();
  }
  _exit(3);
}
[[noreturn]] void harness_error(const std::string &msg)
{
  Core c;
  if (sh && sh->res == Res::None) {
    snprintf(sh->tag, sizeof sh->tag, "harness");
    snprintf(sh->msg, sizeof sh->msg, "%s [%s]", msg.c_str(), g_label);
    sh->res = Res::HarnessError;
  }
  _exit(4);
}
void count_fault(Fault f, uint64_t n)
{
  if (sh) sh->fault_n[f] += n;
}
void observe(const void *p, size_t n) { sh->hash = fnv(p, n, sh->hash); }
void observe(const std::string &s)
{
  uint64_t n = s.size();
  observe(&n, 8);
  observe(s.data(), s.size());
}
void observe_d(double d) { observe(&d, 8); }

// =====================================================================================
//                                       race detector
// =====================================================================================
constexpr int MAXT = 250;
struct VC {
  uint32_t c[MAXT];
  int n; // used length
  void clear() { n = 0; }
  void join(const VC &o)
  {
    while (n < o.n) c[n++] = 0;
    for (int i = 0; i < o.n; i++)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
  uint32_t get(int i) const { return i < n ? c[i] : 0; }
  void set(int i, uint32_t v)
  {
    while (n <= i) c[n++] = 0;
    c[i] = v;
  }
};
struct SCell { uint32_t clk; uint8_t tid, mask, flags, used; const void *pc; };
constexpr int NC = 6;
struct SPage { uint64_t gen; uint8_t rot[512]; SCell cell[512][NC]; };

enum St { S_FREE, S_RUN, S_BLOCK_MUTEX, S_BLOCK_JOIN, S_BLOCK_COND, S_BLOCK_FUTEX, S_BLOCK_RW, S_BLOCK_ONCE, S_SLEEP, S_FINISHED };
struct Th {
  St st;
  uint32_t gate;
  pthread_t pt;
  void *(*fn)(void *);
  void *arg;
  const void *wait;
  int waitn;
  bool detached, timed, timedout;
  VC vc, fin;
  const void *stk[64];
  int depth;
};
static Th *T;
static int g_nt = 0;   // slots in use (high-water)
static int g_cur = 0;
static int g_live = 0; // threads created and not joined (main excluded)
static bool g_on = false, g_mt = false, g_races = true;
static SchedCfg g_cfg;
static Rng g_rng(1);
static uint64_t g_step = 0, g_next_at = ~0ull, g_lastsw = 0, g_gen = 1, g_acc = 0;
static size_t g_plan_i = 0;
static int64_t g_create_no = 0, g_failc_at = -1, g_failc_n = 0;
static int g_cores = 4;
static std::string g_race;
static pthread_key_t g_key;
static thread_local int t_id = -1;

static std::unordered_map<uintptr_t, SPage *> *g_pages;
static uintptr_t g_lastpage = 0;
static SPage *g_lastsp = nullptr;
static std::unordered_map<uintptr_t, VC> *g_sync;
static VC g_fence;

uint64_t sched_steps() { return g_step; }
bool race_seen(std::string *o)
{
  if (g_race.empty()) return false;
  if (o) *o = g_race;
  return true;
}

static void fin_stats()
{
  if (!sh) return;
  sh->steps = g_step;
  sh->accesses = g_acc;
  sh->threads = sh->creates;
}

static uintptr_t ex_lo[4], ex_hi[4];
static bool exempt(uintptr_t a)
{
  for (int i = 0; i < 4; i++)
    if (a >= ex_lo[i] && a < ex_hi[i]) return true;
  return false;
}

static SPage *page_of(uintptr_t a, bool create)
{
  uintptr_t p = a >> 12;
  if (p == g_lastpage && g_lastsp) return g_lastsp;
  auto it = g_pages->find(p);
  SPage *sp;
  if (it == g_pages->end()) {
    if (!create) return nullptr;
    sp = (SPage *)mmap(nullptr, sizeof(SPage), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sp->gen = g_gen;
    (*g_pages)[p] = sp;
  } else
    sp = it->second;
  if (sp->gen != g_gen) {
    memset(sp->cell, 0, sizeof sp->cell);
    sp->gen = g_gen;
  }
  g_lastpage = p;
  g_lastsp = sp;
  return sp;
}

static void race_report(uintptr_t a, int size, bool w, const void *pc, const SCell &c)
{
  if (!g_race.empty()) return;
  std::string s = strf("data race on %d byte(s): %s by one thread at pc=%p conflicts with an unsynchronised %s by another at pc=%p", size, w ? "write" : "read", pc, (c.flags & 1) ? "write" : "read", c.pc);
  Th &t = T[g_cur];
  s += "; called from";
  for (int i = t.depth - 1, k = 0; i >= 0 && k < 5; i--, k++)
    if (i < 64) s += strf(" pc=%p", t.stk[i]);
  g_race = s;
  (void)a;
  violation("race", s);
}

static void shadow_access(uintptr_t a, size_t size, bool w, bool atomic, const void *pc)
{
  if (exempt(a)) return;
  VC &vc = T[g_cur].vc;
  uint32_t my = vc.get(g_cur);
  uint8_t fl = (w ? 1 : 0) | (atomic ? 2 : 0);
  uintptr_t end = a + size;
  for (uintptr_t g = a & ~7ull; g < end; g += 8) {
    unsigned lo = g < a ? (unsigned)(a - g) : 0, hi = g + 8 > end ? (unsigned)(end - g) : 8;
    uint8_t mask = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
    SPage *sp = page_of(g, true);
    unsigned gi = (g >> 3) & 511;
    SCell *cs = sp->cell[gi];
    int slot = -1;
    for (int i = 0; i < NC; i++) {
      SCell &c = cs[i];
      if (!c.used) { if (slot < 0) slot = i; continue; }
      if (c.tid == g_cur) {
        if (c.mask == mask && c.flags == fl) slot = i;
        continue;
      }
      if (!(c.mask & mask)) continue;
      if (!(w || (c.flags & 1))) continue;
      if (atomic && (c.flags & 2)) continue;
      if (c.clk > vc.get(c.tid)) race_report(a, (int)size, w, pc, c);
      else if (slot < 0 && w && c.mask == mask) slot = i; // ordered before: may be replaced
    }
    if (slot < 0) {
      for (int i = 0; i < NC && slot < 0; i++)
        if (cs[i].clk <= vc.get(cs[i].tid)) slot = i;
      if (slot < 0) slot = sp->rot[gi]++ % NC;
    }
    cs[slot] = SCell{ my, (uint8_t)g_cur, mask, fl, 1, pc };
  }
}
static void shadow_clear(uintptr_t a, size_t n)
{
  for (uintptr_t g = a & ~7ull; g < a + n;) {
    SPage *sp = page_of(g, false);
    uintptr_t pe = (g & ~4095ull) + 4096, e = std::min(pe, a + n);
    if (sp)
      for (uintptr_t x = g; x < e; x += 8) memset(sp->cell[(x >> 3) & 511], 0, sizeof(SCell) * NC);
    g = pe;
  }
}

static void tick_clock(int t) { T[t].vc.set(t, T[t].vc.get(t) + 1); }
static void acquire(const void *obj)
{
  if (!g_mt) return;
  auto it = g_sync->find((uintptr_t)obj);
  if (it != g_sync->end()) T[g_cur].vc.join(it->second);
}
static void release(const void *obj)
{
  if (!g_mt) return;
  (*g_sync)[(uintptr_t)obj].join(T[g_cur].vc);
  tick_clock(g_cur);
}
static void release_store(const void *obj)
{
  if (!g_mt) return;
  (*g_sync)[(uintptr_t)obj] = T[g_cur].vc;
  tick_clock(g_cur);
}

// =====================================================================================
//                                       scheduler
// =====================================================================================
static void gate_wait(Th &t)
{
  while (__atomic_load_n(&t.gate, __ATOMIC_ACQUIRE) == 0)
    raw_syscall(SYS_futex, (long)&t.gate, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&t.gate, 0, __ATOMIC_RELAXED);
}
static void gate_open(Th &t)
{
  __atomic_store_n(&t.gate, 1, __ATOMIC_RELEASE);
  raw_syscall(SYS_futex, (long)&t.gate, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static bool runnable(int i) { return T[i].st == S_RUN; }
static int count_runnable()
{
  int n = 0;
  for (int i = 0; i < g_nt; i++) n += runnable(i);
  return n;
}
static uint64_t gap()
{
  double u = g_rng.unit();
  double x = -__builtin_log(1.0 - u) * g_cfg.mean_gap;
  return 1 + (uint64_t)x;
}
static void arm_next()
{
  if (g_cfg.explicit_plan) {
    while (g_plan_i < g_cfg.plan.size() && g_cfg.plan[g_plan_i].step < g_step) g_plan_i++;
    g_next_at = g_plan_i < g_cfg.plan.size() ? g_cfg.plan[g_plan_i].step : ~0ull;
  } else
    g_next_at = g_mt ? g_step + gap() : ~0ull;
}
static void record(uint64_t step, int to, bool preempt)
{
  sh->switches++;
  if (preempt) sh->preempts++;
  uint64_t d[2] = { step, (uint64_t)to };
  sh->schedhash = fnv(d, 16, sh->schedhash ? sh->schedhash : 1469598103934665603ull);
  if (sh->nsw < sizeof(sh->sw) / sizeof(sh->sw[0])) sh->sw[sh->nsw++] = Switch{ step, to, preempt };
  else
    sh->sw_trunc = 1;
}

static void hand_to(int to, bool wait)
{
  int me = g_cur;
  if (to == me) return;
  g_cur = to;
  g_lastsw = g_step;
  gate_open(T[to]);
  if (wait) gate_wait(T[me]);
}

static int pick_random_runnable(int except)
{
  int n = 0, c[MAXT];
  for (int i = 0; i < g_nt; i++)
    if (runnable(i) && i != except) c[n++] = i;
  if (!n) return -1;
  return c[g_rng.below(n)];
}
static int default_runnable()
{
  for (int i = 0; i < g_nt; i++)
    if (runnable(i)) return i;
  return -1;
}

static void wake_timeouts()
{ // nothing can run: simulated time passes until the first timed wait expires
  for (int i = 0; i < g_nt; i++)
    if (T[i].st == S_SLEEP || (T[i].timed && T[i].st != S_RUN && T[i].st != S_FREE && T[i].st != S_FINISHED)) {
      T[i].timedout = true;
      T[i].st = S_RUN;
      return;
    }
}

// the current thread cannot continue (blocked or finished): choose another
static void must_switch(bool wait)
{
  if (count_runnable() == 0) wake_timeouts();
  if (count_runnable() == 0) {
    std::string s = "no thread can continue:";
    for (int i = 0; i < g_nt; i++)
      if (T[i].st != S_FREE && T[i].st != S_FINISHED) s += strf(" thread %d blocked (%d)", i, (int)T[i].st);
    violation("deadlock", s);
  }
  ++g_step;
  int to = -1;
  if (g_cfg.explicit_plan) {
    arm_next();
    if (g_plan_i < g_cfg.plan.size() && g_cfg.plan[g_plan_i].step == g_step && g_cfg.plan[g_plan_i].to < g_nt && runnable(g_cfg.plan[g_plan_i].to)) to = g_cfg.plan[g_plan_i++].to;
    if (to < 0) to = default_runnable();
  } else {
    to = pick_random_runnable(-1);
  }
  if (to != default_runnable()) record(g_step, to, false);
  arm_next();
  hand_to(to, wait);
}

static void preempt_here(bool forced_fair)
{
  int to = -1;
  if (g_cfg.explicit_plan && !forced_fair) {
    if (g_plan_i < g_cfg.plan.size() && g_cfg.plan[g_plan_i].step == g_step) {
      int t = g_cfg.plan[g_plan_i++].to;
      if (t < g_nt && t != g_cur && runnable(t)) to = t;
    }
  } else if (forced_fair) {
    for (int k = 1; k <= g_nt && to < 0; k++)
      if (runnable((g_cur + k) % g_nt) && (g_cur + k) % g_nt != g_cur) to = (g_cur + k) % g_nt;
  } else
    to = pick_random_runnable(g_cur);
  arm_next();
  if (to < 0) { g_lastsw = g_step; return; }
  if (!forced_fair) record(g_step, to, true);
  hand_to(to, true);
}

static inline void step_point()
{
  ++g_step;
  if (g_step >= g_next_at) {
    Core c;
    preempt_here(false);
  } else if (g_step - g_lastsw > 3000000) {
    Core c;
    preempt_here(true);
  }
  if (g_step > g_cfg.max_steps) {
    Core c;
    violation("hang", strf("no end after %llu scheduler steps", (unsigned long long)g_step));
  }
}
// sync operations are better places to preempt than ordinary accesses
static void sync_point()
{
  if (!g_on || !g_mt || t_id < 0) return;
  Core c;
  if (!g_cfg.explicit_plan && g_rng.chance(0.3)) g_next_at = g_step + 1;
  step_point();
}
void yield_point() { sync_point(); }

static inline void on_access(const void *a, size_t n, bool w, bool at, const void *pc)
{
  if (!g_mt || t_core || t_id < 0) return;
  ++g_acc;
  step_point();
  if (g_races) {
    Core c;
    shadow_access((uintptr_t)a, n, w, at, pc);
  }
}

static void block(St s, const void *obj, bool timed = false)
{
  Th &t = T[g_cur];
  t.st = s;
  t.wait = obj;
  t.timed = timed;
  t.timedout = false;
  must_switch(true);
  t.timed = false;
}
static int wake(St s, const void *obj, int n)
{
  int k = 0;
  for (int i = 0; i < g_nt && k < n; i++)
    if (T[i].st == s && T[i].wait == obj) { T[i].st = S_RUN; k++; }
  return k;
}

static void thread_gone(int slot)
{
  T[slot].st = S_FREE;
  while (g_nt > 1 && T[g_nt - 1].st == S_FREE) g_nt--;
  g_live--;
  if (g_live == 0) {
    g_mt = false;
    g_next_at = ~0ull;
    g_gen++;
    g_lastsp = nullptr;
    g_sync->clear();
    g_fence.clear();
  }
}
static void thread_end(void *p)
{
  Core c;
  Th *t = (Th *)p;
  int me = int(t - T);
  t->fin = t->vc;
  t->st = S_FINISHED;
  wake(S_BLOCK_JOIN, t, MAXT);
  bool det = t->detached;
  if (det) {
    thread_gone(me);
    if (!g_mt) g_next_at = ~0ull;
  }
  t_id = -1;
  // the thread does not wait: it really exits
  if (det && !g_mt) {
    g_cur = me; // only main left
    if (!runnable(0)) { wake_timeouts(); if (!runnable(0)) violation("deadlock", "main thread blocked for ever"); }
    g_cur = 0;
    g_lastsw = g_step;
    gate_open(T[0]);
    return;
  }
  must_switch(false);
}
static void *trampoline(void *p)
{
  Th *t = (Th *)p;
  gate_wait(*t);
  t_id = int(t - T);
  pthread_setspecific(g_key, t);
  static char *alt[MAXT]; // to report a stack overflow
  char *&a = alt[t_id];
  if (!a) a = (char *)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  stack_t ss{};
  ss.ss_sp = a;
  ss.ss_size = 65536;
  sigaltstack(&ss, nullptr);
  return t->fn(t->arg);
}

int live_threads() { return g_live; }
int unfinished_threads()
{
  int n = 0;
  for (int i = 1; i < g_nt; i++) n += T[i].st != S_FREE && T[i].st != S_FINISHED;
  return n;
}
void set_cores(int n) { g_cores = n; }
void arm_thread_fault(int64_t at, int n)
{
  g_create_no = 0;
  g_failc_at = at;
  g_failc_n = n;
}

void sched_begin(const SchedCfg &c)
{
  Core cc;
  if (!T) {
    T = (Th *)mmap(nullptr, sizeof(Th) * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g_pages = new std::unordered_map<uintptr_t, SPage *>();
    g_sync = new std::unordered_map<uintptr_t, VC>();
    pthread_key_create(&g_key, thread_end);
    const void *ex[4] = { &std::cout, &std::cerr, &std::clog, &std::wcout };
    for (int i = 0; i < 4; i++) { ex_lo[i] = (uintptr_t)ex[i]; ex_hi[i] = ex_lo[i] + sizeof(std::cout); }
  }
  g_cfg = c;
  g_rng = Rng(c.seed);
  g_nt = 1;
  g_cur = 0;
  g_live = 0;
  T[0].st = S_RUN;
  T[0].vc.clear();
  T[0].vc.set(0, 1);
  T[0].depth = 0;
  g_step = 0;
  g_lastsw = 0;
  g_plan_i = 0;
  g_create_no = 0;
  g_failc_at = c.fail_create_at;
  g_failc_n = c.fail_create_n;
  g_cores = c.cores;
  g_races = c.races;
  g_race.clear();
  t_id = 0;
  g_on = true;
  g_mt = false;
  g_next_at = ~0ull;
}
void sched_end()
{
  fin_stats();
  g_on = false;
  g_mt = false;
}

// ---------------------------------------------------------------- crash handling
static void on_signal(int s, siginfo_t *si, void *uc)
{
  ++t_core;
  ++t_alloc_pause;
  const char *n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT"
                                           : s == SIGFPE ? "SIGFPE"
                                           : s == SIGBUS ? "SIGBUS"
                                           : s == SIGILL ? "SIGILL"
                                           : s == SIGXCPU ? "CPU limit"
                                                          : "signal";
  if (getenv("SIM_VERBOSE")) {
    auto &g = ((ucontext_t *)uc)->uc_mcontext.gregs;
    fprintf(stderr, "pc %p sp %p addr %p\n", (void *)g[REG_RIP], (void *)g[REG_RSP], si->si_addr);
    if (getenv("SIM_PAUSE")) syscall(SYS_pause);
  }
  if (sh && sh->res == Res::None) {
    snprintf(sh->tag, sizeof sh->tag, s == SIGXCPU ? "hang" : "crash");
    char at[80] = "";
    if (s == SIGSEGV || s == SIGBUS) {
      auto &g = ((ucontext_t *)uc)->uc_mcontext.gregs;
      snprintf(at, sizeof at, " at pc=%p%s", (void *)g[REG_RIP], std::labs((long)((char *)si->si_addr - (char *)g[REG_RSP])) < 65536 ? " (stack overflow?)" : "");
    }
    snprintf(sh->msg, sizeof sh->msg, "%s: process ended by %s%s [during %s]", s == SIGXCPU ? "no end in sight (CPU limit of one run used up)" : "crash", n, at, g_label);
    sh->res = Res::Violation;
    fin_stats();
  }
  _exit(3);
}
[[noreturn]] static void on_terminate()
{
  ++t_core;
  ++t_alloc_pause;
  std::string what = "no active exception";
  if (auto t = abi::__cxa_current_exception_type()) {
    int st;
    char *d = abi::__cxa_demangle(t->name(), 0, 0, &st);
    what = std::string("exception of type ") + (d ? d : t->name());
  }
  violation("terminate", "std::terminate was called: the whole process is lost (" + what + ")");
}
void rss_limit()
{
  static char alt[65536];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_SIGINFO;
  for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGXCPU }) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
  struct rlimit rl{ 40, 140 };
  setrlimit(RLIMIT_CPU, &rl);
  struct rlimit ra{ 6ull << 30, 6ull << 30 };
  setrlimit(RLIMIT_AS, &ra);
  struct rlimit rc{ 0, 0 };
  setrlimit(RLIMIT_CORE, &rc);
  mallopt(M_ARENA_MAX, 1);
}
__attribute__((noinline)) void dirty_stack(unsigned char v)
{
  volatile unsigned char buf[200000];
  for (size_t i = 0; i < sizeof buf; i++) buf[i] = v;
}

// =====================================================================================
//                                 clock and entropy
// =====================================================================================
static bool g_clk = false;
static int g_clkmode = 0;
static Rng g_clkrng(1);
static int64_t g_now = 1600000000ll * 1000000000ll, g_now0 = g_now;
void clock_cfg(uint64_t seed, int mode)
{
  g_clk = true;
  g_clkmode = mode;
  g_clkrng = Rng(mix(seed, 77));
  g_now = g_now0 = 1600000000ll * 1000000000ll + (int64_t)g_clkrng.below(1000000000000ull);
}
static int64_t now_ns(bool monotonic)
{
  int64_t d = 1000 + (int64_t)g_clkrng.below(5000);
  if (g_clkmode == 1 && g_clkrng.chance(0.05)) { d = (int64_t)g_clkrng.below(4000ull * 1000000000ull); count_fault(F_CLOCK_JUMP); }
  if (g_clkmode == 2 && g_clkrng.chance(0.9)) d = 0;
  if (g_clkmode == 3 && !monotonic && g_clkrng.chance(0.2)) { d = -(int64_t)g_clkrng.below(3600ull * 1000000000ull); count_fault(F_CLOCK_JUMP); }
  g_now += d;
  if (sh && g_now > g_now0) sh->simclock_ns = (uint64_t)(g_now - g_now0);
  return g_now;
}
static Rng g_ent(1);
static bool g_enton = false;
void entropy_cfg(uint64_t s) { g_ent = Rng(mix(s, 991)); g_enton = true; }

// =====================================================================================
//                                     allocation
// =====================================================================================
static bool g_al_on = false, g_al_fired = false;
static int64_t g_al_left = -1;
static uint64_t g_al_n = 0;
static int g_fill = -1;
void alloc_arm(int64_t n) { g_al_left = n; g_al_fired = false; }
void alloc_pause(bool b) { t_alloc_pause += b ? 1 : -1; }
bool alloc_fired() { return g_al_fired; }
uint64_t alloc_count() { return g_al_n; }
void alloc_enable(bool b) { g_al_on = b; g_al_n = 0; }
void alloc_fill(int v) { g_fill = v; }

static void *do_new(size_t n, size_t al)
{
  if (g_al_on && t_alloc_pause == 0) {
    g_al_n++;
    if (g_al_left >= 0 && g_al_left-- == 0) {
      g_al_fired = true;
      count_fault(F_ALLOC);
      return nullptr;
    }
  }
  if (!n) n = 1;
  void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n);
  if (p && g_fill >= 0) memset(p, g_fill, n);
  if (p && g_mt && t_core == 0 && t_id >= 0) {
    Core c;
    shadow_clear((uintptr_t)p, malloc_usable_size(p));
  }
  return p;
}
static void do_delete(void *p)
{
  if (!p) return;
  if (g_mt && t_core == 0 && t_id >= 0 && g_races) {
    size_t n = malloc_usable_size(p);
    if (n <= 8192) {
      Core c;
      shadow_access((uintptr_t)p, n, true, false, __builtin_return_address(0));
    }
  }
  if (g_fill >= 0) memset(p, (g_fill ^ 0x5a) & 255, malloc_usable_size(p));
  free(p);
}
} // namespace sim

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
// blocks handed out by malloc itself (exception objects, C library) carry no history either
static void *fresh(void *p)
{
  using namespace sim;
  if (p && g_mt && t_core == 0 && t_id >= 0) {
    Core c;
    shadow_clear((uintptr_t)p, malloc_usable_size(p));
  }
  return p;
}
void *malloc(size_t n) { return fresh(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return fresh(__libc_calloc(a, b)); }
void *realloc(void *q, size_t n)
{
  void *p = __libc_realloc(q, n);
  return p == q ? p : fresh(p);
}
}
void *operator new(size_t n)
{
  void *p = sim::do_new(n, 0);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim::do_new(n, 0); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::do_new(n, 0); }
void *operator new(size_t n, std::align_val_t a)
{
  void *p = sim::do_new(n, (size_t)a);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void *p) noexcept { sim::do_delete(p); }
void operator delete[](void *p) noexcept { sim::do_delete(p); }
void operator delete(void *p, size_t) noexcept { sim::do_delete(p); }
void operator delete[](void *p, size_t) noexcept { sim::do_delete(p); }
void operator delete(void *p, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::do_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::do_delete(p); }

using namespace sim;

std::random_device::result_type std::random_device::_M_getval()
{
  return (std::random_device::result_type)g_ent.next();
}

// =====================================================================================
//                              interposed libc / libstdc++
// =====================================================================================
static bool active() { return g_on && t_id >= 0; }

struct MuS { int owner = -1, count = 0; };
struct RwS { int writer = -1; std::multiset<int> readers; };
static std::unordered_map<const void *, MuS> &mus() { static auto *m = new std::unordered_map<const void *, MuS>; return *m; }
static std::unordered_map<const void *, RwS> &rws() { static auto *m = new std::unordered_map<const void *, RwS>; return *m; }
static std::unordered_map<const void *, int> &onces() { static auto *m = new std::unordered_map<const void *, int>; return *m; }

static void mu_lock(pthread_mutex_t *m)
{
  for (;;) {
    MuS &s = mus()[m];
    if (s.owner < 0) { s.owner = g_cur; s.count = 1; break; }
    if (s.owner == g_cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { s.count++; break; }
    block(S_BLOCK_MUTEX, m);
  }
  acquire(m);
}
static void mu_unlock(pthread_mutex_t *m)
{
  release(m);
  MuS &s = mus()[m];
  if (--s.count <= 0) {
    mus().erase(m);
    wake(S_BLOCK_MUTEX, m, MAXT);
  }
}

extern "C" {
static char *g_stack[MAXT];
int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) noexcept
{
  REAL(pthread_create);
  if (!active()) return real_pthread_create(pt, at, fn, arg);
  Core c;
  sh->creates++;
  int64_t no = g_create_no++;
  if (g_failc_at >= 0 && no >= g_failc_at && (g_failc_n < 0 || no < g_failc_at + g_failc_n)) {
    count_fault(F_THREAD);
    return EAGAIN;
  }
  int slot = -1;
  for (int i = 1; i < g_nt; i++)
    if (T[i].st == S_FREE) { slot = i; break; }
  if (slot < 0) {
    if (g_nt == MAXT) return EAGAIN;
    slot = g_nt++;
  }
  Th &t = T[slot];
  bool first = g_live == 0;
  if (first) {
    for (int i = 0; i < MAXT; i++) if (i != slot) T[i].vc.n = std::min(T[i].vc.n, MAXT);
    g_mt = true;
    g_lastsw = g_step;
    arm_next();
  }
  uint32_t old = t.vc.get(slot);
  if (T[g_cur].vc.get(slot) > old) old = T[g_cur].vc.get(slot);
  t.vc = T[g_cur].vc;
  t.vc.set(slot, old + 1);
  tick_clock(g_cur);
  t.fn = fn;
  t.arg = arg;
  t.gate = 0;
  t.depth = 0;
  t.wait = nullptr;
  t.timed = t.timedout = false;
  t.detached = false;
  t.st = S_RUN;
  g_live++;
  pthread_attr_t a2;
  pthread_attr_init(&a2);
  constexpr size_t SS = 8 << 20;
  if (!g_stack[slot]) g_stack[slot] = (char *)mmap(nullptr, SS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (g_races) { // a stack taken over from a finished thread carries no history (used from the top; 1 MB without any access ends it)
    const uintptr_t lo = (uintptr_t)g_stack[slot];
    for (uintptr_t g = lo + SS - 4096, miss = 0; g >= lo && miss < 256; g -= 4096)
      if (page_of(g, false)) { miss = 0; shadow_clear(g, 4096); }
      else miss++;
  }
  pthread_attr_setstack(&a2, g_stack[slot], SS);
  int rc = real_pthread_create(&t.pt, &a2, trampoline, &t);
  pthread_attr_destroy(&a2);
  if (rc) harness_error("real pthread_create failed");
  *pt = t.pt;
  if (at) {
    int ds = 0;
    pthread_attr_getdetachstate(at, &ds);
    if (ds == PTHREAD_CREATE_DETACHED) { t.detached = true; g_stack[slot] = nullptr; REAL(pthread_detach); real_pthread_detach(t.pt); }
  }
  sync_point();
  return 0;
}
static int slot_of(pthread_t p)
{
  for (int i = 1; i < g_nt; i++)
    if (T[i].st != S_FREE && !T[i].detached && pthread_equal(T[i].pt, p)) return i;
  return -1;
}
int pthread_join(pthread_t p, void **ret)
{
  REAL(pthread_join);
  int s;
  if (!active() || (s = slot_of(p)) < 0) return real_pthread_join(p, ret);
  Core c;
  sync_point();
  while (T[s].st != S_FINISHED) block(S_BLOCK_JOIN, &T[s]);
  int rc = real_pthread_join(p, ret);
  T[g_cur].vc.join(T[s].fin);
  thread_gone(s);
  return rc;
}
int pthread_detach(pthread_t p) noexcept
{
  REAL(pthread_detach);
  int s;
  if (!active() || (s = slot_of(p)) < 0) return real_pthread_detach(p);
  Core c;
  real_pthread_detach(p);
  T[s].detached = true;
  g_stack[s] = nullptr; // still in use when the slot is free again
  if (T[s].st == S_FINISHED) thread_gone(s);
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
  if (!active()) { REAL(pthread_mutex_lock); return real_pthread_mutex_lock(m); }
  Core c;
  sync_point();
  mu_lock(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept
{
  if (!active()) { REAL(pthread_mutex_trylock); return real_pthread_mutex_trylock(m); }
  Core c;
  sync_point();
  MuS &s = mus()[m];
  if (s.owner >= 0 && s.owner != g_cur) return EBUSY;
  if (s.owner == g_cur && (m->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE_NP) return EBUSY;
  mu_lock(m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
{
  if (!active()) { REAL(pthread_mutex_unlock); return real_pthread_mutex_unlock(m); }
  Core c;
  mu_unlock(m);
  sync_point();
  return 0;
}
static int cond_wait(pthread_cond_t *cv, pthread_mutex_t *m, bool timed)
{
  Core c;
  mu_unlock(m);
  block(S_BLOCK_COND, cv, timed);
  bool to = T[g_cur].timedout;
  acquire(cv);
  mu_lock(m);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *cv, pthread_mutex_t *m)
{
  if (!active()) { REAL(pthread_cond_wait); return real_pthread_cond_wait(cv, m); }
  return cond_wait(cv, m, false);
}
int pthread_cond_timedwait(pthread_cond_t *cv, pthread_mutex_t *m, const struct timespec *ts)
{
  if (!active()) { REAL(pthread_cond_timedwait); return real_pthread_cond_timedwait(cv, m, ts); }
  return cond_wait(cv, m, true);
}
int pthread_cond_clockwait(pthread_cond_t *cv, pthread_mutex_t *m, clockid_t k, const struct timespec *ts)
{
  if (!active()) { REAL(pthread_cond_clockwait); return real_pthread_cond_clockwait(cv, m, k, ts); }
  return cond_wait(cv, m, true);
}
int pthread_cond_signal(pthread_cond_t *cv) noexcept
{
  if (!active()) { REAL(pthread_cond_signal); return real_pthread_cond_signal(cv); }
  Core c;
  release(cv);
  wake(S_BLOCK_COND, cv, 1);
  sync_point();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *cv) noexcept
{
  if (!active()) { REAL(pthread_cond_broadcast); return real_pthread_cond_broadcast(cv); }
  Core c;
  release(cv);
  wake(S_BLOCK_COND, cv, MAXT);
  sync_point();
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept
{
  if (!active()) { REAL(pthread_rwlock_rdlock); return real_pthread_rwlock_rdlock(m); }
  Core c;
  sync_point();
  while (rws()[m].writer >= 0) block(S_BLOCK_RW, m);
  rws()[m].readers.insert(g_cur);
  acquire(m);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept
{
  if (!active()) { REAL(pthread_rwlock_wrlock); return real_pthread_rwlock_wrlock(m); }
  Core c;
  sync_point();
  while (rws()[m].writer >= 0 || !rws()[m].readers.empty()) block(S_BLOCK_RW, m);
  rws()[m].writer = g_cur;
  acquire(m);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) noexcept
{
  if (!active()) { REAL(pthread_rwlock_tryrdlock); return real_pthread_rwlock_tryrdlock(m); }
  Core c;
  if (rws()[m].writer >= 0) return EBUSY;
  rws()[m].readers.insert(g_cur);
  acquire(m);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) noexcept
{
  if (!active()) { REAL(pthread_rwlock_trywrlock); return real_pthread_rwlock_trywrlock(m); }
  Core c;
  if (rws()[m].writer >= 0 || !rws()[m].readers.empty()) return EBUSY;
  rws()[m].writer = g_cur;
  acquire(m);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept
{
  if (!active()) { REAL(pthread_rwlock_unlock); return real_pthread_rwlock_unlock(m); }
  Core c;
  release(m);
  RwS &s = rws()[m];
  if (s.writer == g_cur) s.writer = -1;
  else {
    auto it = s.readers.find(g_cur);
    if (it != s.readers.end()) s.readers.erase(it);
  }
  wake(S_BLOCK_RW, m, MAXT);
  sync_point();
  return 0;
}
int pthread_once(pthread_once_t *o, void (*f)(void))
{
  if (!active()) { REAL(pthread_once); return real_pthread_once(o, f); }
  {
    Core c;
    sync_point();
    while (onces().count(o)) block(S_BLOCK_ONCE, o);
    if (*o == 2) { acquire(o); return 0; }
    onces()[o] = g_cur;
  }
  try {
    f();
  } catch (...) {
    Core c;
    onces().erase(o);
    wake(S_BLOCK_ONCE, o, MAXT);
    throw;
  }
  Core c;
  *o = 2;
  release(o);
  onces().erase(o);
  wake(S_BLOCK_ONCE, o, MAXT);
  return 0;
}
int __cxa_guard_acquire(long long *g)
{
  auto b = (unsigned char *)g;
  if (!active()) {
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
    if (b[1]) { fprintf(stderr, "recursive init\n"); abort(); }
    b[1] = 1;
    return 1;
  }
  Core c;
  sync_point();
  while (b[1]) {
    if (onces().count(g) && onces()[g] == g_cur) violation("deadlock", "recursive static initialisation");
    block(S_BLOCK_ONCE, g);
  }
  if (b[0]) { acquire(g); return 0; }
  b[1] = 1;
  onces()[g] = g_cur;
  return 1;
}
static void guard_end(long long *g, bool ok)
{
  auto b = (unsigned char *)g;
  if (ok) __atomic_store_n(b, 1, __ATOMIC_RELEASE);
  b[1] = 0;
  if (!active()) return;
  Core c;
  release(g);
  onces().erase(g);
  wake(S_BLOCK_ONCE, g, MAXT);
  sync_point();
}
void __cxa_guard_release(long long *g) noexcept { guard_end(g, true); }
void __cxa_guard_abort(long long *g) noexcept { guard_end(g, false); }

int sched_yield(void) noexcept
{
  if (!active()) { REAL(sched_yield); return real_sched_yield(); }
  if (g_mt) {
    Core c;
    ++g_step;
    if (count_runnable() > 1) {
      int to = -1;
      if (g_cfg.explicit_plan) {
        for (int k = 1; k < g_nt && to < 0; k++) if (runnable((g_cur + k) % g_nt)) to = (g_cur + k) % g_nt;
      } else
        for (int k = 1; k < g_nt && to < 0; k++) if (runnable((g_cur + k) % g_nt)) to = (g_cur + k) % g_nt;
      if (to >= 0 && to != g_cur) hand_to(to, true);
    }
    if (g_step > g_cfg.max_steps) violation("hang", "threads spin for ever");
  }
  return 0;
}
static int64_t ts_ns(const struct timespec *t) { return t ? t->tv_sec * 1000000000ll + t->tv_nsec : 0; }
int nanosleep(const struct timespec *t, struct timespec *r)
{
  if (!active()) { REAL(nanosleep); return real_nanosleep(t, r); }
  g_now += ts_ns(t);
  sched_yield();
  return 0;
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec *t, struct timespec *r)
{
  if (!active()) { REAL(clock_nanosleep); return real_clock_nanosleep(k, fl, t, r); }
  if (fl) g_now = std::max<int64_t>(g_now, ts_ns(t));
  else g_now += ts_ns(t);
  sched_yield();
  return 0;
}
int usleep(useconds_t u)
{
  if (!active()) { REAL(usleep); return real_usleep(u); }
  g_now += u * 1000ll;
  sched_yield();
  return 0;
}
long syscall(long n, ...) noexcept
{
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (auto &x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && active()) {
    Core c;
    int op = (int)a[1] & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      sync_point();
      if (*(volatile int *)a[0] != (int)a[2]) { errno = EAGAIN; return -1; }
      block(S_BLOCK_FUTEX, (void *)a[0], a[3] != 0);
      if (T[g_cur].timedout) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      int k = wake(S_BLOCK_FUTEX, (void *)a[0], (int)std::min<long>(a[2], MAXT));
      sync_point();
      return k;
    }
  }
  long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
int get_nprocs(void) noexcept { return g_cores; }
int get_nprocs_conf(void) noexcept { return g_cores; }
long sysconf(int n) noexcept
{
  if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return g_cores;
  REAL(sysconf);
  return real_sysconf(n);
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) noexcept
{
  (void)p;
  memset(s, 0, n);
  for (int i = 0; i < g_cores && i < (int)n * 8; i++) CPU_SET_S(i, n, s);
  return 0;
}
int sched_getcpu(void) noexcept { return active() ? g_cur % std::max(1, g_cores) : 0; }

int clock_gettime(clockid_t k, struct timespec *t) noexcept
{
  if (!g_clk) {
    long r = raw_syscall(SYS_clock_gettime, k, (long)t, 0, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
  }
  int64_t x = now_ns(k == CLOCK_MONOTONIC);
  t->tv_sec = x / 1000000000ll;
  t->tv_nsec = x % 1000000000ll;
  return 0;
}
int gettimeofday(struct timeval *__restrict t, void *__restrict) noexcept
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  t->tv_sec = ts.tv_sec;
  t->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *p) noexcept
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (p) *p = ts.tv_sec;
  return ts.tv_sec;
}
clock_t clock(void) noexcept
{
  struct timespec ts;
  clock_gettime(g_clk ? CLOCK_REALTIME : CLOCK_PROCESS_CPUTIME_ID, &ts);
  return (clock_t)((ts.tv_sec % 100000000) * 1000000ll + ts.tv_nsec / 1000);
}
ssize_t getrandom(void *b, size_t n, unsigned f)
{
  if (!g_enton) return raw_syscall(SYS_getrandom, (long)b, (long)n, f, 0, 0, 0);
  auto c = (unsigned char *)b;
  for (size_t i = 0; i < n; i++) c[i] = (unsigned char)g_ent.next();
  return (ssize_t)n;
}
int getentropy(void *b, size_t n)
{
  getrandom(b, n, 0);
  return 0;
}
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) noexcept
{
  ++t_core;
  ++t_alloc_pause;
  const char *s = strrchr(f, '/');
  violation("assert", strf("assertion failed: %s at %s:%u (%s)", e, s ? s + 1 : f, l, fn));
}

// ---------------------------------------------------------------- tsan call-backs
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *pc)
{
  if (g_mt && t_id >= 0) {
    Th &t = T[t_id];
    if (t.depth < 64) t.stk[t.depth] = pc;
    t.depth++;
  }
}
void __tsan_func_exit()
{
  if (g_mt && t_id >= 0 && T[t_id].depth > 0) T[t_id].depth--;
}
void __tsan_vptr_update(void **p, void *v)
{
  if (*p != v) on_access(p, 8, true, false, PC);
}
void __tsan_vptr_read(void **p) { on_access(p, 8, false, false, PC); }
#define RW(n)                                                                  \
  void __tsan_read##n(void *p) { on_access(p, n, false, false, PC); }          \
  void __tsan_write##n(void *p) { on_access(p, n, true, false, PC); }          \
  void __tsan_unaligned_read##n(void *p) { on_access(p, n, false, false, PC); } \
  void __tsan_unaligned_write##n(void *p) { on_access(p, n, true, false, PC); } \
  void __tsan_volatile_read##n(void *p) { on_access(p, n, false, false, PC); }  \
  void __tsan_volatile_write##n(void *p) { on_access(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { on_access(p, n, false, false, PC); }
void __tsan_write_range(void *p, size_t n) { on_access(p, n, true, false, PC); }

static bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void at_pre(const void *a, size_t n, bool w, const void *pc)
{
  if (!g_mt || t_core || t_id < 0) return;
  sync_point();
  on_access(a, n, w, true, pc);
}
static void at_post(const void *a, bool w, bool rmw, int mo)
{
  if (!g_mt || t_core || t_id < 0) return;
  Core c;
  if ((!w || rmw) && is_acq(mo)) acquire(a);
  if (w && is_rel(mo)) { if (rmw) release(a); else release_store(a); }
}
#define AT(bits, type)                                                                                                       \
  type __tsan_atomic##bits##_load(const volatile type *a, int mo)                                                            \
  {                                                                                                                          \
    at_pre((const void *)a, bits / 8, false, PC);                                                                            \
    type v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                           \
    at_post((const void *)a, false, false, mo);                                                                              \
    return v;                                                                                                                \
  }                                                                                                                          \
  void __tsan_atomic##bits##_store(volatile type *a, type v, int mo)                                                         \
  {                                                                                                                          \
    at_pre((const void *)a, bits / 8, true, PC);                                                                             \
    at_post((const void *)a, true, false, mo);                                                                               \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                                \
  }                                                                                                                          \
  type __tsan_atomic##bits##_exchange(volatile type *a, type v, int mo)                                                      \
  {                                                                                                                          \
    at_pre((const void *)a, bits / 8, true, PC);                                                                             \
    at_post((const void *)a, true, true, mo);                                                                                \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                                      \
  }                                                                                                                          \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type *a, type *e, type d, int mo, int)                          \
  {                                                                                                                          \
    at_pre((const void *)a, bits / 8, true, PC);                                                                             \
    int r = __atomic_compare_exchange_n(a, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                 \
    at_post((const void *)a, r, true, mo);                                                                                   \
    return r;                                                                                                                \
  }                                                                                                                          \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type *a, type *e, type d, int mo, int f)                          \
  {                                                                                                                          \
    return __tsan_atomic##bits##_compare_exchange_strong(a, e, d, mo, f);                                                    \
  }                                                                                                                          \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type *a, type e, type d, int mo, int f)                           \
  {                                                                                                                          \
    __tsan_atomic##bits##_compare_exchange_strong(a, &e, d, mo, f);                                                          \
    return e;                                                                                                                \
  }
#define ATF(bits, type, op)                                              \
  type __tsan_atomic##bits##_fetch_##op(volatile type *a, type v, int mo) \
  {                                                                      \
    at_pre((const void *)a, bits / 8, true, PC);                         \
    at_post((const void *)a, true, true, mo);                            \
    return __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST);                  \
  }
#define ATALL(b, t) AT(b, t) ATF(b, t, add) ATF(b, t, sub) ATF(b, t, and) ATF(b, t, or) ATF(b, t, xor) ATF(b, t, nand)
ATALL(8, uint8_t) ATALL(16, uint16_t) ATALL(32, uint32_t) ATALL(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
  if (g_mt && t_id >= 0) {
    Core c;
    if (is_acq(mo)) T[g_cur].vc.join(g_fence);
    if (is_rel(mo)) { g_fence.join(T[g_cur].vc); tick_clock(g_cur); }
  }
}
void __tsan_atomic_signal_fence(int) {}

void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
#ifdef SIM_WRAP
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
  if (g_mt && !t_core && n) { on_access(s, n, false, false, PC); on_access(d, n, true, false, PC); }
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{
  if (g_mt && !t_core && n) { on_access(s, n, false, false, PC); on_access(d, n, true, false, PC); }
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int v, size_t n)
{
  if (g_mt && !t_core && n) on_access(d, n, true, false, PC);
  return __real_memset(d, v, n);
}
#endif
} // extern C

// =====================================================================================
//                                     file system
// =====================================================================================
namespace sim {
struct SFile { std::string path; int fd = -1; bool exists = false; std::string init; };
struct OpenF { int file; bool app, wr; };
static bool g_fs = false;
static std::string g_root;
static std::vector<SFile> &files() { static auto *v = new std::vector<SFile>; return *v; }
static std::map<int, OpenF> &opens() { static auto *v = new std::map<int, OpenF>; return *v; }
struct FaultSt { FsFault f; int seen; bool done; };
static std::vector<FaultSt> &faults() { static auto *v = new std::vector<FaultSt>; return *v; }
static std::vector<FsOp> &oplog() { static auto *v = new std::vector<FsOp>; return *v; }
static std::vector<std::string> &opdata() { static auto *v = new std::vector<std::string>; return *v; }
static std::string g_hist_bad;
static uint64_t g_fired = 0, g_nops = 0;

static bool sim_path(const char *p)
{
  if (!g_fs || t_core || !p || !*p) return false;
  for (const char *x : { "/dev/", "/proc/", "/sys/", "/etc/", "/usr/", "/lib" })
    if (!strncmp(p, x, strlen(x))) return false;
  return true;
}
static std::string norm(const char *p)
{
  std::vector<std::string> parts;
  std::string s = p, cur;
  bool abs = s[0] == '/';
  s += '/';
  for (char ch : s) {
    if (ch == '/') {
      if (cur == "..") { if (!parts.empty()) parts.pop_back(); }
      else if (!cur.empty() && cur != ".") parts.push_back(cur);
      cur.clear();
    } else
      cur += ch;
  }
  std::string r = abs ? "" : g_root + "/cwd";
  for (auto &x : parts) r += "/" + x;
  return r;
}
static int file_index(const std::string &p, bool create)
{
  auto &f = files();
  for (size_t i = 0; i < f.size(); i++)
    if (f[i].path == p) return (int)i;
  if (!create) return -1;
  SFile s;
  s.path = p;
  f.push_back(s);
  return (int)f.size() - 1;
}
static int backing(int i)
{
  auto &f = files()[i];
  if (f.fd < 0) {
    f.fd = memfd_create("sim", MFD_CLOEXEC);
    if (f.fd < 0) harness_error("memfd_create");
    int hi = fcntl(f.fd, F_DUPFD_CLOEXEC, 600);
    if (hi >= 0) { REAL(close); real_close(f.fd); f.fd = hi; }
    const char *d = f.init.data();
    size_t n = f.init.size();
    while (n) {
      long r = raw_syscall(SYS_write, f.fd, (long)d, (long)n, 0, 0, 0);
      if (r <= 0) harness_error("memfd write");
      d += r;
      n -= (size_t)r;
    }
  }
  return f.fd;
}
static size_t fsize(int i)
{
  struct stat st;
  if (raw_syscall(SYS_fstat, backing(i), (long)&st, 0, 0, 0, 0)) return 0;
  return (size_t)st.st_size;
}
// is there a fault for this operation on this file?
static bool g_fpause = false;
static bool hit(Fault k, const std::string &path, long *arg)
{
  if (g_fpause) return false;
  for (auto &s : faults()) {
    if (s.f.kind != k) continue;
    if (!s.f.match.empty() && path.find(s.f.match) == std::string::npos) continue;
    int n = s.seen++;
    if (n >= s.f.nth && (s.f.count < 0 || n < s.f.nth + s.f.count)) {
      if (arg) *arg = s.f.arg;
      g_fired++;
      count_fault(k);
      return true;
    }
  }
  return false;
}
void fs_begin(const std::string &root)
{
  Core c;
  g_root = root;
  g_fs = true;
}
void fs_add_file(const std::string &p, const std::string &content)
{
  Core c;
  int i = file_index(norm(p.c_str()), true);
  files()[i].exists = true;
  files()[i].init = content;
}
bool fs_exists(const std::string &p)
{
  Core c;
  int i = file_index(norm(p.c_str()), false);
  return i >= 0 && files()[i].exists;
}
std::string fs_read(const std::string &p)
{
  Core c;
  int i = file_index(norm(p.c_str()), false);
  if (i < 0 || !files()[i].exists) return "";
  size_t n = fsize(i);
  std::string s(n, 0);
  size_t o = 0;
  while (o < n) {
    long r = raw_syscall(SYS_pread64, backing(i), (long)(s.data() + o), (long)(n - o), (long)o, 0, 0);
    if (r <= 0) break;
    o += (size_t)r;
  }
  return s;
}
std::vector<std::string> fs_list()
{
  Core c;
  std::vector<std::string> r;
  for (auto &f : files())
    if (f.exists) r.push_back(f.path);
  std::sort(r.begin(), r.end());
  return r;
}
void fs_arm(const FsFault &f)
{
  Core c;
  faults().push_back(FaultSt{ f, 0, false });
}
void fs_heal_pause(bool p) { g_fpause = p; }
void fs_heal()
{
  Core c;
  faults().clear();
}
uint64_t fs_faults_fired() { return g_fired; }
uint64_t fs_ops() { return oplog().size(); }
const std::vector<FsOp> &fs_log() { return oplog(); }
bool fs_history_ok(std::string *w)
{
  if (g_hist_bad.empty()) return true;
  if (w) *w = g_hist_bad;
  return false;
}
int fs_open_handles() { return (int)opens().size(); }
int fs_file_id(const std::string &p) { Core c; return file_index(norm(p.c_str()), false); }
static void logop(int kind, int file, uint64_t off, uint64_t len, bool faulted, const void *d = nullptr)
{
  g_nops++;
  oplog().push_back(FsOp{ kind, file, off, len, faulted });
  opdata().push_back(d ? std::string((const char *)d, len) : std::string());
}
std::string fs_crash_image(const std::string &path, size_t nops, long torn)
{
  Core c;
  int id = file_index(norm(path.c_str()), false);
  if (id < 0) return "";
  std::string s = files()[id].init;
  for (size_t i = 0; i < nops && i < oplog().size(); i++) {
    auto &o = oplog()[i];
    if (o.file != id) continue;
    if (o.kind == 3) s.resize(o.off);
    if (o.kind == 1) {
      auto &d = opdata()[i];
      size_t n = d.size();
      if (i + 1 == nops && torn >= 0) n = std::min(n, (size_t)torn);
      if (s.size() < o.off + n) s.resize(o.off + n, 0);
      s.replace(o.off, n, d, 0, n);
    }
  }
  return s;
}
static bool dir_ok(const std::string &p)
{
  auto k = p.rfind('/');
  std::string d = k == std::string::npos ? "" : p.substr(0, k);
  return d == g_root || d == g_root + "/results" || d == g_root + "/data" || d == g_root + "/cwd" || d.rfind(g_root + "/data/", 0) == 0 || d.rfind(g_root + "/dirs/", 0) == 0;
}

// returns backing file index or -1 (errno set)
static int sim_open(const char *path, int flags)
{
  Core c;
  std::string p = norm(path);
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  if (!wr && hit(F_MISSING, p, nullptr)) { errno = ENOENT; return -1; }
  if (hit(F_OPEN, p, nullptr)) { errno = wr ? EACCES : EACCES; return -1; }
  int i = file_index(p, false);
  if (i < 0 || !files()[i].exists) {
    if (!(flags & O_CREAT) || !dir_ok(p)) { errno = ENOENT; return -1; }
    i = file_index(p, true);
    files()[i].exists = true;
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) {
    errno = EEXIST;
    return -1;
  }
  if (flags & O_TRUNC) {
    size_t n = fsize(i);
    if (n) {
      logop(3, i, 0, 0, false);
      if (g_hist_bad.empty()) g_hist_bad = "file " + p + " truncated on open";
    }
  }
  logop(0, i, 0, 0, false);
  return i;
}
static int reopen(int i, int flags)
{
  char b[64];
  snprintf(b, sizeof b, "/proc/self/fd/%d", backing(i));
  long r = raw_syscall(SYS_open, (long)b, flags & ~(O_CREAT | O_EXCL), 0, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return (int)r;
}

static FILE *sim_fopen(const char *path, const char *mode)
{
  bool plus = strchr(mode, '+');
  int fl = mode[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND);
  if (strchr(mode, 'x')) fl |= O_EXCL;
  Core c;
  --t_core;
  int i = sim_open(path, fl);
  ++t_core;
  if (i < 0) return nullptr;
  int fd = reopen(i, fl);
  if (fd < 0) return nullptr;
  FILE *f = fdopen(fd, mode);
  opens()[fd] = OpenF{ i, (fl & O_APPEND) != 0, (fl & O_ACCMODE) != O_RDONLY };
  return f;
}

// write through the seam; returns bytes written or -1
static ssize_t sim_write(int fd, const void *b, size_t n)
{
  Core c;
  auto of = opens()[fd];
  const std::string &p = files()[of.file].path;
  long arg = 0;
  size_t m = n;
  bool faulted = false;
  if (hit(F_EINTR_W, p, nullptr)) { errno = EINTR; return -1; }
  if (hit(F_EIO_W, p, &arg)) {
    if (arg <= 0) { logop(1, of.file, fsize(of.file), 0, true, ""); errno = EIO; return -1; }
    m = std::min<size_t>(m, (size_t)arg);
    faulted = true;
    // the device dies after arg more bytes
    for (auto &s : faults()) if (s.f.kind == F_EIO_W && s.f.arg > 0) s.f.arg = 0;
  }
  if (hit(F_ENOSPC, p, &arg)) {
    if (arg <= 0) { logop(1, of.file, fsize(of.file), 0, true, ""); errno = ENOSPC; return -1; }
    m = std::min<size_t>(m, (size_t)arg);
    faulted = true;
    for (auto &s : faults()) if (s.f.kind == F_ENOSPC && s.f.arg > 0) s.f.arg = 0;
  }
  if (hit(F_SHORTW, p, &arg)) { m = std::min<size_t>(m, std::max<long>(1, arg)); }
  size_t sz = fsize(of.file);
  uint64_t off = of.app ? sz : (uint64_t)raw_syscall(SYS_lseek, fd, 0, SEEK_CUR, 0, 0, 0);
  if (off < sz && g_hist_bad.empty()) g_hist_bad = "file " + p + ": earlier content overwritten";
  long r = raw_syscall(SYS_write, fd, (long)b, (long)m, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  logop(1, of.file, off, (uint64_t)r, faulted, b);
  return r;
}
void fs_reset_files()
{
  Core c;
  files().clear();
  opens().clear();
  oplog().clear();
  opdata().clear();
  faults().clear();
}
} // namespace sim

static bool simfd(int fd)
{
  if (!g_fs) return false;
  Core c;
  return opens().count(fd);
}

extern "C" {
FILE *fopen64(const char *p, const char *m)
{
  if (sim_path(p)) { yield_point(); return sim_fopen(p, m); }
  REAL(fopen64);
  return real_fopen64(p, m);
}
FILE *fopen(const char *p, const char *m)
{
  if (sim_path(p)) { yield_point(); return sim_fopen(p, m); }
  static auto rf = real<FILE *(*)(const char *, const char *)>("fopen");
  return rf(p, m);
}
static int do_open(const char *p, int fl)
{
  int i = sim_open(p, fl);
  if (i < 0) return -1;
  Core c;
  int fd = reopen(i, fl);
  if (fd >= 0) opens()[fd] = OpenF{ i, (fl & O_APPEND) != 0, (fl & O_ACCMODE) != O_RDONLY };
  return fd;
}
int open(const char *p, int fl, ...)
{
  va_list ap;
  va_start(ap, fl);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (sim_path(p)) return do_open(p, fl);
  long r = raw_syscall(SYS_open, (long)p, fl, mode, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return (int)r;
}
int open64(const char *p, int fl, ...)
{
  va_list ap;
  va_start(ap, fl);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (sim_path(p)) return do_open(p, fl);
  long r = raw_syscall(SYS_open, (long)p, fl, mode, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return (int)r;
}
ssize_t write(int fd, const void *b, size_t n)
{
  if (simfd(fd)) { yield_point(); return sim_write(fd, b, n); }
  long r = raw_syscall(SYS_write, fd, (long)b, (long)n, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int k)
{
  if (simfd(fd)) {
    yield_point();
    std::string all;
    {
      Core c;
      for (int i = 0; i < k; i++) all.append((const char *)v[i].iov_base, v[i].iov_len);
    }
    ssize_t r = sim_write(fd, all.data(), all.size());
    { Core c; std::string().swap(all); }
    return r;
  }
  long r = raw_syscall(SYS_writev, fd, (long)v, k, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}
ssize_t read(int fd, void *b, size_t n)
{
  if (simfd(fd)) {
    yield_point();
    Core c;
    auto of = opens()[fd];
    const std::string &p = files()[of.file].path;
    long arg = 0;
    if (hit(F_READ_EINTR, p, nullptr)) { errno = EINTR; return -1; }
    if (hit(F_READ_EIO, p, &arg)) {
      if (arg <= 0) { errno = EIO; return -1; }
      n = std::min<size_t>(n, (size_t)arg);
      for (auto &s : faults()) if (s.f.kind == F_READ_EIO) s.f.arg = 0;
    }
    if (hit(F_EMPTY, p, nullptr)) return 0;
    if (hit(F_READ_SHORT, p, &arg)) n = std::min<size_t>(n, std::max<long>(1, arg));
  }
  long r = raw_syscall(SYS_read, fd, (long)b, (long)n, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}
int fclose(FILE *f)
{
  REAL(fclose);
  int fd = fileno(f);
  if (fd >= 0 && simfd(fd)) {
    bool fail = false;
    {
      Core c;
      auto of = opens()[fd];
      fail = of.wr && hit(F_CLOSE, files()[of.file].path, nullptr);
      logop(2, of.file, 0, 0, fail);
      opens().erase(fd);
    }
    int r = real_fclose(f);
    if (fail) { errno = EIO; return EOF; }
    return r;
  }
  return real_fclose(f);
}
int close(int fd)
{
  if (simfd(fd)) {
    bool fail;
    {
      Core c;
      auto of = opens()[fd];
      fail = of.wr && hit(F_CLOSE, files()[of.file].path, nullptr);
      logop(2, of.file, 0, 0, fail);
      opens().erase(fd);
    }
    raw_syscall(SYS_close, fd, 0, 0, 0, 0, 0);
    if (fail) { errno = EIO; return -1; }
    return 0;
  }
  long r = raw_syscall(SYS_close, fd, 0, 0, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
int ftruncate64(int fd, off64_t n) noexcept
{
  if (simfd(fd)) {
    Core c;
    auto of = opens()[fd];
    if ((size_t)n < fsize(of.file)) {
      logop(3, of.file, (uint64_t)n, 0, false);
      if (g_hist_bad.empty()) g_hist_bad = "file " + files()[of.file].path + " truncated";
    }
  }
  long r = raw_syscall(SYS_ftruncate, fd, n, 0, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
int ftruncate(int fd, off_t n) noexcept { return ftruncate64(fd, n); }
int rename(const char *a, const char *b) noexcept
{
  if (sim_path(a)) {
    Core c;
    int i = file_index(norm(a), false);
    if (i < 0 || !files()[i].exists) { errno = ENOENT; return -1; }
    std::string nb = norm(b);
    int j = file_index(nb, false);
    if (j >= 0) { files()[j].exists = false; files()[j].path += "\x01old"; }
    files()[i].path = nb;
    return 0;
  }
  REAL(rename);
  return real_rename(a, b);
}
int unlink(const char *a) noexcept
{
  if (sim_path(a)) {
    Core c;
    int i = file_index(norm(a), false);
    if (i < 0 || !files()[i].exists) { errno = ENOENT; return -1; }
    if (g_hist_bad.empty() && fsize(i)) g_hist_bad = "file " + files()[i].path + " deleted";
    files()[i].exists = false;
    files()[i].path += "\x01gone";
    return 0;
  }
  REAL(unlink);
  return real_unlink(a);
}
int remove(const char *a) noexcept
{
  if (sim_path(a)) return unlink(a);
  REAL(remove);
  return real_remove(a);
}
int mkdir(const char *a, mode_t m) noexcept
{
  if (sim_path(a)) return 0;
  REAL(mkdir);
  return real_mkdir(a, m);
}
int access(const char *a, int m) noexcept
{
  if (sim_path(a)) {
    Core c;
    int i = file_index(norm(a), false);
    if (i < 0 || !files()[i].exists) { errno = ENOENT; return -1; }
    return 0;
  }
  long r = raw_syscall(SYS_access, (long)a, m, 0, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
static int sim_stat(const char *a, struct stat *st)
{
  Core c;
  std::string p = norm(a);
  memset(st, 0, sizeof *st);
  if (p == g_root || p == g_root + "/results" || p == g_root + "/data" || p == g_root + "/cwd") { st->st_mode = S_IFDIR | 0755; return 0; }
  int i = file_index(p, false);
  if (i < 0 || !files()[i].exists) { errno = ENOENT; return -1; }
  st->st_mode = S_IFREG | 0644;
  st->st_size = (off_t)fsize(i);
  return 0;
}
int stat(const char *__restrict a, struct stat *__restrict st) noexcept
{
  if (sim_path(a)) return sim_stat(a, st);
  long r = raw_syscall(SYS_stat, (long)a, (long)st, 0, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
int lstat(const char *__restrict a, struct stat *__restrict st) noexcept
{
  if (sim_path(a)) return sim_stat(a, st);
  long r = raw_syscall(SYS_lstat, (long)a, (long)st, 0, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
} // extern C
