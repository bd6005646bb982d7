// Explore / replay / minimise driver (one worker process; every run in a forked child).
#include "scn.hpp"
#include "core.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <cstring>
#include <cmath>
#include <fstream>
#include <iostream>
#include <set>
#include <algorithm>

namespace world {
void load_data_files(const std::string &repo);
void install_data_files();
void warm_spm();
extern const char *ROOT;
}
using namespace sim;

static double now()
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
static const PropDef *P = nullptr;
static Shared *blk;
static bool g_warm = true;

struct Result {
  Res res;
  std::string tag, msg;
  uint64_t hash;
};

// one run in a child
static Result run_one(const Scn &s)
{
  memset((void *)blk, 0, offsetof(Shared, sw));
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    sh = blk;
    sh->hash = 1469598103934665603ull;
    int dn = open("/dev/null", O_WRONLY);
    if (!getenv("SIM_VERBOSE")) {
      dup2(dn, 1);
      dup2(dn, 2);
    }
    rss_limit();
    clock_cfg(1, 0);
    entropy_cfg(1);
    fs_begin(world::ROOT);
    world::install_data_files();
    SchedCfg sc;
    const Line &sl = s.get("sched");
    sc.seed = sl.u("seed", 1);
    sc.mean_gap = sl.num("gap", 300);
    sc.cores = (int)sl.i("cores", 4);
    sc.races = sl.i("races", 1);
    sc.explicit_plan = s.find("plan") != nullptr;
    if (sc.explicit_plan)
      for (auto l : s.all("preempt")) sc.plan.push_back(Switch{ l->u("step"), (int32_t)l->i("to"), 0 });
    sched_begin(sc);
    try {
      alloc_pause(true);
      P->run(s);
    } catch (int e) {
      violation("escaped", strf("error %d came out of an operation which cannot fail here", e));
    } catch (const std::exception &e) {
      violation("escaped", std::string("an exception came out of an operation which cannot fail here: ") + e.what());
    }
    sched_end();
    if (sh->res == Res::None) sh->res = Res::Ok;
    _exit(0);
  }
  int st = 0;
  double t0 = now();
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > 200) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      if (blk->res == Res::None) {
        blk->res = Res::HarnessError;
        strcpy(blk->tag, "harness");
        strcpy(blk->msg, "run did not end (wall clock)");
      }
      break;
    }
    struct timespec ts { 0, now() - t0 < 0.02 ? 100000 : 2000000 };
    nanosleep(&ts, nullptr);
  }
  if (blk->res == Res::None) {
    blk->res = Res::Violation;
    strcpy(blk->tag, "crash");
    snprintf(blk->msg, sizeof blk->msg, "process died (wait status 0x%x)", st);
  }
  return { blk->res, blk->tag, blk->msg, blk->hash };
}

static Scn with_plan(const Scn &s)
{ // turn the seeded schedule of the last run into an explicit one
  Scn o;
  for (auto &l : s.lines)
    if (l.kind != "plan" && l.kind != "preempt") o.lines.push_back(l);
  o.add("plan");
  for (uint32_t i = 0; i < blk->nsw; i++) o.add("preempt").set("step", blk->sw[i].step).set("to", (int64_t)blk->sw[i].to);
  return o;
}
static bool removable(const Line &l)
{
  static const std::set<std::string> keep{ "prop", "pack", "sched", "plan", "cfg" };
  return !keep.count(l.kind);
}
static int g_tries;
static double g_deadline;
static bool fails(const Scn &s, const std::string &tag)
{
  if (g_tries-- <= 0 || now() > g_deadline) return false;
  auto r = run_one(s);
  return r.res == Res::Violation && r.tag == tag;
}
static Scn minimise(Scn s, const std::string &tag)
{
  // ddmin over removable lines, preemptions first
  for (int pass = 0; pass < 2; pass++) {
    auto cand = [&](const Line &l) { return removable(l) && (pass == 0) == (l.kind == "preempt"); };
    size_t n = 0;
    for (auto &l : s.lines) n += cand(l);
    if (n == 0) continue;
    size_t chunk = n;
    while (chunk >= 1) {
      bool any = false;
      for (size_t start = 0;;) {
        std::vector<size_t> idx;
        for (size_t i = 0; i < s.lines.size(); i++)
          if (cand(s.lines[i])) idx.push_back(i);
        if (start >= idx.size()) break;
        size_t e = std::min(idx.size(), start + chunk);
        Scn t;
        std::set<size_t> rm(idx.begin() + start, idx.begin() + e);
        for (size_t i = 0; i < s.lines.size(); i++)
          if (!rm.count(i)) t.lines.push_back(s.lines[i]);
        if (fails(t, tag)) {
          s = t;
          any = true;
        } else
          start = e;
        if (now() > g_deadline) return s;
      }
      if (chunk == 1 && !any) break;
      chunk = chunk > 1 ? chunk / 2 : (any ? 1 : 0);
      if (!chunk) break;
    }
  }
  return s;
}
static std::string esc(const std::string &s)
{
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if ((unsigned char)c < 32) o += ' ';
    else o += c;
  }
  return o;
}
static std::string resolve(const std::string &m, const char *exe)
{
  // pc=0x... -> function (file:line)
  std::string out;
  size_t p = 0;
  for (;;) {
    auto k = m.find("pc=0x", p);
    if (k == std::string::npos) { out += m.substr(p); break; }
    out += m.substr(p, k - p);
    size_t e = k + 5;
    while (e < m.size() && isxdigit(m[e])) e++;
    unsigned long a = strtoul(m.substr(k + 3, e - k - 3).c_str(), nullptr, 16);
    std::string cmd = strf("addr2line -Cfs -e %s 0x%lx 2>/dev/null", exe, a - 1), r;
    if (FILE *f = popen(cmd.c_str(), "r")) {
      char b[600];
      while (fgets(b, sizeof b, f)) {
        b[strcspn(b, "\n")] = 0;
        std::string t = b;
        auto br = t.find('(');
        if (br != std::string::npos && br > 0 && r.empty()) t = t.substr(0, br);
        r += (r.empty() ? "" : " ") + t.substr(0, 120);
      }
      pclose(f);
    }
    out += r.empty() ? m.substr(k, e - k) : "{" + r + "}";
    p = e;
  }
  return out;
}

int main(int argc, char **argv)
{
  // fixed addresses: replays are then identical down to the addresses
  if (!getenv("SIM_REEXEC")) {
    setenv("SIM_REEXEC", "1", 1);
    if (personality(0xffffffff) >= 0 && personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  std::string prop, repo = "/repo", replay, outdir = ".", tier = "quick";
  uint64_t seed = 1;
  long start = 0, stride = 1, runs = 100;
  double cap = 60;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--prop") prop = nx();
    else if (a == "--repo") repo = nx();
    else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--start") start = atol(nx().c_str());
    else if (a == "--stride") stride = atol(nx().c_str());
    else if (a == "--runs") runs = atol(nx().c_str());
    else if (a == "--cap") cap = atof(nx().c_str());
    else if (a == "--replay") replay = nx();
    else if (a == "--out") outdir = nx();
    else if (a == "--tier") tier = nx();
  }
  std::string rtext;
  if (!replay.empty()) {
    std::ifstream f(replay);
    std::stringstream ss;
    ss << f.rdbuf();
    rtext = ss.str();
    Scn s = Scn::parse(rtext);
    if (auto l = s.find("prop")) prop = l->str("id");
  }
  for (auto &p : props())
    if (p.id == prop) P = &p;
  if (!P) { fprintf(stderr, "no property %s in this build\n", prop.c_str()); return 2; }
  world::load_data_files(repo);
  blk = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

  if (!replay.empty()) {
    Scn s = Scn::parse(rtext);
    auto r = run_one(s);
    auto m = resolve(r.msg, argv[0]);
    printf("{\"res\":%d,\"tag\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016lx\",\"sched\":\"%016lx\"}\n", (int)r.res, esc(r.tag).c_str(), esc(m).c_str(), r.hash, blk->schedhash);
    return r.res == Res::Violation ? 1 : r.res == Res::HarnessError ? 2 : 0;
  }

  double t0 = now();
  uint64_t n = 0, nontriv = 0, steps = 0, switches = 0, preempts = 0, threads = 0, accesses = 0, skips = 0;
  uint64_t dups = 0;
  double simtime = 0;
  std::set<uint64_t> states, scheds;
  uint64_t fn[40] = { 0 };
  std::vector<std::string> tags;
  std::set<std::string> seen;
  int rc = 0;
  std::ofstream vf(outdir + "/viol." + std::to_string(start) + ".json");
  std::vector<std::string> samples;
  for (long i = start; n < (uint64_t)runs; i += stride) {
    if (now() - t0 > cap) break;
    Rng g(mix(mix(seed, fnvs(prop)), (uint64_t)i));
    Scn s;
    s.add("prop").set("id", prop).set("run", (int64_t)i).set("seed", seed);
    P->gen(g, s, tier == "thorough");
    if (!s.find("sched")) s.add("sched").set("seed", mix(seed, i + 77)).set("gap", std::floor(std::pow(10, g.real(0.5, 4)))).set("cores", g.range(1, 8));
    auto r = run_one(s);
    n++;
    steps += blk->steps; switches += blk->switches; preempts += blk->preempts; threads += blk->creates; accesses += blk->accesses;
    simtime += blk->simtime;
    if (r.res == Res::Skip) skips++;
    if (blk->nontrivial) nontriv++;
    states.insert(blk->statehash);
    if (blk->switches) scheds.insert(blk->schedhash);
    for (int k = 0; k < 40; k++) fn[k] += blk->fault_n[k];
    if (samples.size() < 2 && blk->nontrivial) samples.push_back(s.text());
    if (r.res == Res::Ok && n % 40 == 1) { // the same seed again must be the same execution
      const auto h = r.hash, sch = blk->schedhash, sts = blk->steps;
      auto r2 = run_one(s);
      dups++;
      if (r2.res != r.res || r2.hash != h || blk->schedhash != sch || blk->steps != sts) {
        r.res = Res::HarnessError;
        r.msg = "not deterministic: the same seed gave two different executions " + r2.tag + " " + r2.msg;
      }
    }
    if (r.res == Res::HarnessError) {
      vf << "{\"harness\":1,\"run\":" << i << ",\"msg\":\"" << esc(resolve(r.msg, argv[0])) << "\"}\n";
      std::ofstream hf(outdir + "/harness." + std::to_string(i) + ".txt");
      hf << s.text();
      rc = 2;
      break;
    }
    if (r.res == Res::Violation) {
      if (seen.count(r.tag)) continue;
      seen.insert(r.tag);
      std::string msg = r.msg;
      bool trunc = blk->sw_trunc;
      Scn base = s, best = s;
      g_tries = 400;
      g_deadline = now() + 12;
      if (blk->nsw && !trunc) {
        Scn pl = with_plan(s);
        if (fails(pl, r.tag)) base = pl;
      }
      best = minimise(base, r.tag);
      auto f1 = run_one(best);
      msg = f1.res == Res::Violation && f1.tag == r.tag ? f1.msg : msg;
      auto f2 = run_one(best);
      bool repro = f1.res == Res::Violation && f1.tag == r.tag && f2.res == Res::Violation && f1.hash == f2.hash && f1.msg == f2.msg;
      std::string name = outdir + "/" + prop + "-" + std::to_string(i) + "-" + r.tag + ".scn";
      for (auto &c : name) if (c == ' ' || c == ':') c = '_';
      std::ofstream rf(name);
      std::string rm = resolve(msg, argv[0]);
      rf << "# property " << prop << " violated: " << r.tag << "\n# " << rm << "\n# seed " << seed << " run " << i << "; minimised from " << s.lines.size() << (base.lines.size() != s.lines.size() ? strf(" (+%zu schedule)", base.lines.size() - s.lines.size()) : "") << " to " << best.lines.size() << " lines; hash " << strf("%016lx", f1.hash) << "\n" << best.text();
      rf.close();
      vf << "{\"run\":" << i << ",\"tag\":\"" << esc(r.tag) << "\",\"msg\":\"" << esc(rm) << "\",\"replay\":\"" << esc(name) << "\",\"repro\":" << (repro ? 1 : 0) << ",\"hash\":\"" << strf("%016lx", f1.hash) << "\"}\n";
      vf.flush();
      rc = rc ? rc : 1;
      if (seen.size() >= 4) break;
    }
  }
  vf.close();
  std::ofstream st(outdir + "/stat." + std::to_string(start) + ".json");
  st << "{\"runs\":" << n << ",\"dups\":" << dups << ",\"nontrivial\":" << nontriv << ",\"skips\":" << skips << ",\"steps\":" << steps << ",\"accesses\":" << accesses << ",\"switches\":" << switches << ",\"preempts\":" << preempts << ",\"threads\":" << threads << ",\"simtime\":" << simtime << ",\"wall\":" << now() - t0 << ",\"faults\":{";
  bool first = true;
  for (int k = 0; k < F_COUNT; k++)
    if (fn[k]) { st << (first ? "" : ",") << "\"" << fault_name[k] << "\":" << fn[k]; first = false; }
  st << "},\"states\":[";
  first = true;
  for (auto h : states) { st << (first ? "" : ",") << "\"" << strf("%lx", h) << "\""; first = false; }
  st << "],\"scheds\":[";
  first = true;
  for (auto h : scheds) { st << (first ? "" : ",") << "\"" << strf("%lx", h) << "\""; first = false; }
  st << "],\"samples\":[";
  first = true;
  for (auto &h : samples) { st << (first ? "" : ",") << "\"" << esc(h) << "\""; first = false; }
  st << "]}\n";
  return rc;
}
