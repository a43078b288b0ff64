// The driver of a check: seeds -> plans -> forked runs, recording, gating, minimising, replay.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "check.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <pthread.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

using std::string;
using std::vector;
using sim::Rng;

int64_t Plan::get(const char* k, int64_t d) const { for (auto& x : p) if (x.first == k) return x.second; return d; }
void Plan::set(const char* k, int64_t v) { for (auto& x : p) if (x.first == k) { x.second = v; return; } p.emplace_back(k, v); }
const char* CheckDef::op_name(int k) const { return k >= 0 && k < n_ops ? op_names[k] : "op"; }

static vector<std::pair<string, bool>>& cnames() { static vector<std::pair<string, bool>> v; return v; }
static vector<string>& gnames() { static vector<string> v; return v; }
int counter(const char* n, bool f) {
  auto& v = cnames();
  for (size_t i = 0; i < v.size(); i++) if (v[i].first == n) return (int)i;
  v.emplace_back(n, f);
  if (v.size() > (size_t)NCNT) { fprintf(stderr, "too many counters\n"); abort(); }
  return (int)v.size() - 1;
}
int gauge(const char* n) { auto& v = gnames(); v.push_back(n); if (v.size() > 8) abort(); return (int)v.size() - 1; }
int g_c_rand_degraded = counter("degraded random draws", true);
int g_c_sched_preempt = counter("thread preemptions", true);
int g_c_short_team = counter("short worker teams", true);
int g_c_alloc_fail = counter("failed allocations", true);
int g_c_clock_jump = counter("wall clock jumps", true);

void Out::fail(const char* cls, const char* fmt, ...) {
  if (r->state == 2) return;
  snprintf(r->cls, sizeof r->cls, "%s", cls);
  va_list a; va_start(a, fmt); vsnprintf(r->msg, sizeof r->msg, fmt, a); va_end(a);
  for (char* c = r->msg; *c; c++) if (*c == '\n') *c = ' ';
  r->state = 2;
}
void Out::add(int c, uint64_t n) { r->cnt[c] += n; if (cnames()[c].second) r->faults += n; }
void Out::max(int g, double v) { if (!(v < 1e300)) v = 1e300; if (v > r->maxnum[g]) r->maxnum[g] = v; }
void Out::stats(const sim::Stats& s) {
  r->hash = sim::mix(r->hash, s.hash); r->sched_hash = sim::mix(r->sched_hash, s.sched_hash);
  r->steps += s.steps; r->switches += s.switches; r->preemptions += s.preemptions; r->regions += s.regions;
  r->workers += s.workers; r->sync_ops += s.sync_ops; r->short_teams += s.short_teams;
  r->sim_ns += s.sim_ns;
  if (s.max_threads > r->max_threads) r->max_threads = s.max_threads;
  add(g_c_sched_preempt, s.preemptions); add(g_c_short_team, s.short_teams);
}

// ------------------------------------------------------------------ scheduling and random parts of plans
void gen_sched(Plan& p, Rng& r, int tmax) {
  static const int pol[] = {sim::RANDOM, sim::RANDOM, sim::PCT, sim::STATIC_BIASED, sim::STATIC_BIASED, sim::STARVE, sim::ROUND_ROBIN};
  p.set("policy", r.chance(1, 24) ? (int)sim::SERIAL : pol[r.below(7)]);
  static const int means[] = {3, 10, 40, 150, 600, 3000, 20000, 100000};
  p.set("mean", means[r.below(8)]);
  p.set("pstatic", r.chance(1, 3) ? (r.chance(1, 2) ? 30 : 300) : 0);
  p.set("tmax", 1 + (int)r.below(tmax));
  p.set("tfix", r.chance(1, 2) ? (int)(1 + r.below(tmax)) : 0);
  p.set("nested", r.chance(1, 4)); p.set("vary", r.chance(1, 3));
  p.set("sched_seed", (int64_t)(r.next() >> 1));
  static const int ticks[] = {0, 1, 20, 500}; p.set("tick", ticks[r.below(4)]);   // simulated ns per event
}
sim::Config sched_of(const Plan& p) {
  sim::Config c;
  c.seed = (uint64_t)p.get("sched_seed", 1); c.policy = (int)p.get("policy", 0); c.mean = (uint64_t)p.get("mean", 1000);
  c.pstatic = (int)p.get("pstatic", 0); c.tmax = (int)p.get("tmax", 1); c.tfix = (int)p.get("tfix", 0);
  if (c.tfix > c.tmax) c.tmax = c.tfix;
  c.nested = p.get("nested", 0) != 0; c.vary = p.get("vary", 0) != 0; c.races = p.get("races", 0) != 0;
  c.max_steps = (uint64_t)p.get("max_steps", 400000000);
  c.replay = p.explicit_sched; c.sched = p.sched;
  sim::clock_tick((uint64_t)p.get("tick", 0));
  return c;
}
void gen_rand(Plan& p, Rng& r, uint64_t prefix) {
  p.set("rand_seed", (int64_t)(r.next() >> 1));
  p.set("rand_mode", r.chance(1, 3) ? (int)sim::R_UNIFORM : (int)r.below(sim::R_NMODE));
  p.set("rand_prefix", (int64_t)(prefix ? 1 + r.below(prefix) : 0));
}
sim::RandSpec rand_of(const Plan& p, int actor) {
  sim::RandSpec s; s.mode = (int)p.get("rand_mode", 0); s.seed = sim::mix((uint64_t)p.get("rand_seed", 1), actor);
  s.prefix = (uint64_t)p.get("rand_prefix", 0);
  return s;
}

// ------------------------------------------------------------------ forking
static int g_depth = 0;
int child_depth() { return g_depth; }
void* shared_alloc(size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return p;
}
static void quiet_child() {
  g_depth++;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (!getenv("SIM_VERBOSE")) {
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
  }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
}
// waits until the child has ended or used up `timeout` seconds of processor time (a loaded machine is no reason to give up)
static int wait_timeout(pid_t pid, double timeout) {   // -1: timed out and killed
  double begin = sim::real_time(), end = begin + timeout; int st = 0; int spin = 0; clockid_t clk; bool have = clock_getcpuclockid(pid, &clk) == 0;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) return st;
    if (r < 0 && errno != EINTR) return -2;
    if (sim::real_time() > end) {
      struct timespec t; double used = timeout;
      if (have && syscall(SYS_clock_gettime, clk, &t) == 0) used = t.tv_sec + t.tv_nsec * 1e-9;
      if (used >= timeout || sim::real_time() > begin + 5 * timeout) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return -1; }
      end = sim::real_time() + 1;
    }
    long us = spin < 50 ? 100 : 1000; spin++;
    struct timespec ts = {0, us * 1000}; syscall(SYS_nanosleep, &ts, nullptr);
  }
}
static const char* class_of(int st, char* buf, size_t n) {   // of an abnormal end; null: normal
  if (st == -1) return "hang";
  if (st == -2) return "lost";
  if (WIFSIGNALED(st)) { snprintf(buf, n, "crash-signal-%d", WTERMSIG(st)); return buf; }
  int rc = WEXITSTATUS(st);
  if (rc == 0) return nullptr;
  if (rc == 83) return "deadlock";
  if (rc == 84) return "step-budget-exceeded";
  snprintf(buf, n, "harness-exit-%d", rc);
  return buf;
}
bool in_child(const std::function<void()>& fn, string& cls, double timeout) {
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(85); }
  if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); quiet_child(); fn(); fflush(stdout); _exit(0); }
  char b[48]; const char* c = class_of(wait_timeout(pid, timeout), b, sizeof b);
  if (c) { cls = c; return false; }
  return true;
}

static sim::SchedSink g_sinkmem;   // one per worker process
static double g_timeout = 60;
static uint64_t plan_hash(const Plan& p) {
  uint64_t h = 1;
  for (auto& x : p.p) { for (char c : x.first) h = sim::mix(h, c); h = sim::mix(h, (uint64_t)x.second); }
  for (auto& o : p.ops) { h = sim::mix(h, o.kind * 64 + o.thr); for (auto v : o.a) h = sim::mix(h, (uint64_t)v); }
  return h;
}
// builds with address checks: where the report of a bad access goes
static RunRec* g_rec = nullptr;
extern "C" {
__attribute__((weak)) const char* __asan_get_report_description(); __attribute__((weak)) int __asan_get_report_access_type();
__attribute__((weak)) size_t __asan_get_report_access_size(); __attribute__((weak)) void* __asan_get_report_pc();
const char* __asan_default_options() { return "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:use_sigaltstack=0:alloc_dealloc_mismatch=0:detect_odr_violation=0:quarantine_size_mb=1:malloc_context_size=0:symbolize=0:allocator_may_return_null=1:max_redzone=16"; }
void __asan_on_error() {
  if (!g_rec || g_rec->state == 2) return;
  uint64_t op = sim::current_op();
  snprintf(g_rec->cls, sizeof g_rec->cls, "outside-memory");
  snprintf(g_rec->msg, sizeof g_rec->msg, "%s of %zu bytes: %s, at %p, during operation %llu", __asan_get_report_access_type() ? "write" : "read", __asan_get_report_access_size(), __asan_get_report_description(), __asan_get_report_pc(), (unsigned long long)op);
  g_rec->state = 2; _exit(0);
}
// an index outside its array, also where the neighbour is another member of the same object
struct UbPlace { const char* file; unsigned line, col; };
void __ubsan_handle_out_of_bounds_abort(UbPlace* at, void* index) {
  if (!g_rec || g_rec->state == 2) abort();
  snprintf(g_rec->cls, sizeof g_rec->cls, "outside-memory");
  snprintf(g_rec->msg, sizeof g_rec->msg, "index %ld outside its array at %s:%u, during operation %llu", (long)index, at->file, at->line, (unsigned long long)sim::current_op());
  g_rec->state = 2; _exit(0);
}
}
static void run_one(const Plan& p, RunRec* r, sim::SchedSink* sink) {
  memset(r, 0, sizeof *r);
  r->plan_hash = plan_hash(p); r->nops = p.ops.size();
  if (sink && sink->n) *sink->n = 0;
  double t0 = sim::real_time();
  string cls;
  bool ok = in_child([&] {
    if (sink) sim::set_sink(*sink);
    Out o; o.r = r; g_rec = r;
    the_check.exec(p, o);
    if (r->state != 2) r->state = 1;
  }, cls, g_timeout);
  r->secs = sim::real_time() - t0;
  if (!ok) {
    if (r->state == 2 && cls.compare(0, 12, "harness-exit")) return;   // a violation was already reported
    r->state = 2;
    snprintf(r->cls, sizeof r->cls, "%s", cls.c_str());
    snprintf(r->msg, sizeof r->msg, "the run ended abnormally: %s", cls.c_str());
  } else if (r->state == 0) { r->state = 2; snprintf(r->cls, sizeof r->cls, "harness-lost"); }
}

// ------------------------------------------------------------------ replay files
static string write_plan(const Plan& p, const RunRec& r, const char* flavour) {
  std::ostringstream o;
  o << "evalround-sim-replay 1\ncheck " << the_check.id << "\nflavour " << flavour << "\nclass " << r.cls << "\nmessage " << r.msg
    << "\nhash " << std::hex << r.hash << std::dec << "\nseed " << p.seed << "\n";
  for (auto& x : p.p) o << "param " << x.first << " " << x.second << "\n";
  for (auto& x : p.ops) {
    o << "op " << x.kind << " " << x.thr;
    for (auto v : x.a) o << " " << v;
    o << "   # " << the_check.op_name(x.kind) << " by caller " << x.thr << "\n";
  }
  o << "schedule " << (p.explicit_sched ? "explicit" : "seeded") << "\n";
  for (auto& s : p.sched) o << "switch " << s.step << " " << s.tid << "\n";
  o << "end\n";
  return o.str();
}
static bool read_plan(const string& path, Plan& p, string& cls) {
  std::ifstream f(path); string line; bool end = false;
  if (!f) return false;
  while (std::getline(f, line)) {
    std::istringstream s(line); string k; s >> k;
    if (k == "class") s >> cls;
    else if (k == "seed") s >> p.seed;
    else if (k == "param") { string n; int64_t v; s >> n >> v; p.set(n.c_str(), v); }
    else if (k == "op") { Op o; s >> o.kind >> o.thr; for (auto& v : o.a) s >> v; p.ops.push_back(o); }
    else if (k == "schedule") { string m; s >> m; p.explicit_sched = m == "explicit"; }
    else if (k == "switch") { sim::SchedEntry e; s >> e.step >> e.tid; p.sched.push_back(e); }
    else if (k == "end") end = true;
  }
  return end;
}

// ------------------------------------------------------------------ minimising
struct Mini {
  string cls; RunRec* r; sim::SchedSink sink; double end; int tries = 0;
  bool same(const Plan& p) {
    if (sim::real_time() > end) return false;
    tries++; run_one(p, r, nullptr);
    return r->state == 2 && cls == r->cls;
  }
  template <class V> void ddmin(Plan& p, V Plan::*mem) {
    size_t chunk = (p.*mem).size();
    while (chunk >= 1 && sim::real_time() < end) {
      bool any = false;
      for (size_t i = 0; i < (p.*mem).size() && sim::real_time() < end;) {
        Plan q = p; auto& v = q.*mem;
        size_t n = std::min(chunk, v.size() - i);
        v.erase(v.begin() + i, v.begin() + i + n);
        if (same(q)) { p = q; any = true; } else i += n;
      }
      if (!any || (p.*mem).empty()) { if (chunk == 1) break; chunk = (chunk + 1) / 2; if (chunk == 0) break; }
      else if (chunk > (p.*mem).size()) chunk = std::max<size_t>(1, (p.*mem).size());
      if (chunk == 1 && !any) break;
    }
  }
  void param(Plan& p, const char* k, int64_t v) {
    bool has = false; for (auto& x : p.p) if (x.first == k) has = true;
    if (!has || p.get(k) == v) return;
    Plan q = p; q.set(k, v); if (same(q)) p = q;
  }
  void go(Plan& p) {
    p.explicit_sched = false; p.sched.clear();
    if (p.ops.size() > 1) ddmin(p, &Plan::ops);
    param(p, "policy", sim::SERIAL);
    param(p, "rand_mode", sim::R_UNIFORM);
    param(p, "tmax", 1); param(p, "tfix", 0); param(p, "tfix", 2); param(p, "tmax", 2);
    param(p, "nested", 0); param(p, "vary", 0); param(p, "pstatic", 0); param(p, "garbage", 0); param(p, "history", 0);
    if (p.ops.size() > 1) ddmin(p, &Plan::ops);
    if (p.get("policy", 0) != sim::SERIAL && sim::real_time() < end) {
      run_one(p, r, &sink);                      // record the switches
      if (r->state == 2 && cls == r->cls && *sink.n < sink.cap) {
        Plan q = p; q.explicit_sched = true; q.sched.assign(sink.e, sink.e + *sink.n);
        if (same(q)) { p = q; if (p.sched.size() <= 20000) ddmin(p, &Plan::sched); }
      }
    }
  }
};

// ------------------------------------------------------------------ main
static string jstr(const string& s) {
  string o = "\"";
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; }
  return o + "\"";
}
struct Args { uint64_t seed = 1; int runs = 100, workers = 8, tier = 0; double time = 60, mintime = 25; string out, rdir = "/tmp", replay, flavour = "p", mode = "run"; long only = -1; };
static Args A;
static int driver_main() {
  if (A.mode == "replay") {
    Plan p; string cls;
    if (!read_plan(A.replay, p, cls)) { fprintf(stderr, "cannot read %s\n", A.replay.c_str()); return 2; }
    RunRec* r = (RunRec*)shared_alloc(2 * sizeof(RunRec));
    run_one(p, r, nullptr); run_one(p, r + 1, nullptr);
    printf("replay: class=%s recorded=%s hash=%llx/%llx %s\n", r->state == 2 ? r->cls : "none", cls.c_str(),
           (unsigned long long)r->hash, (unsigned long long)r[1].hash, r->state == 2 ? r->msg : "");
    bool det = r->hash == r[1].hash && r->state == r[1].state && !strcmp(r->cls, r[1].cls);
    if (!det) { printf("replay: NOT DETERMINISTIC\n"); return 3; }
    return r->state == 2 ? (cls == r->cls ? 1 : 4) : 0;
  }
  if (A.mode == "one") {   // run one plan by index, verbosely
    RunRec* r = (RunRec*)shared_alloc(sizeof(RunRec));
    Plan p = the_check.gen(sim::mix(A.seed, A.only), A.tier); p.seed = A.only;
    if (the_check.warmup) the_check.warmup();
    run_one(p, r, nullptr);
    printf("%s\nstate=%d class=%s msg=%s\nhash=%llx steps=%llu switches=%llu secs=%.3f\n", write_plan(p, *r, A.flavour.c_str()).c_str(), r->state,
           r->cls, r->msg, (unsigned long long)r->hash, (unsigned long long)r->steps, (unsigned long long)r->switches, r->secs);
    for (size_t i = 0; i < cnames().size(); i++) if (r->cnt[i]) printf("  %s: %llu\n", cnames()[i].first.c_str(), (unsigned long long)r->cnt[i]);
    for (size_t i = 0; i < gnames().size(); i++) printf("  max %s: %g\n", gnames()[i].c_str(), r->maxnum[i]);
    return 0;
  }
  double t0 = sim::real_time();
  RunRec* rec = (RunRec*)shared_alloc(sizeof(RunRec) * (size_t)A.runs);
  volatile int* ctl = (volatile int*)shared_alloc(4096);   // [0] next run, [1] stop
  vector<pid_t> pids;
  const uint64_t CAP = 200000;
  for (int w = 0; w < A.workers; w++) {
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); return 2; }
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      if (the_check.warmup) the_check.warmup();
      while (!ctl[1] && sim::real_time() - t0 < A.time) {
        int i = __sync_fetch_and_add((int*)&ctl[0], 1);
        if (i >= A.runs) break;
        Plan p = the_check.gen(sim::mix(A.seed, i), A.tier); p.seed = i;
        run_one(p, &rec[i], nullptr);
        if (rec[i].state == 2) ctl[1] = 1;
      }
      _exit(0);
    }
    pids.push_back(pid);
  }
  bool lost = false;
  for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (st != 0) lost = true; }
  double wall = sim::real_time() - t0;
  if (lost) { fprintf(stderr, "a worker process ended abnormally\n"); return 2; }

  // totals
  RunRec tot; memset(&tot, 0, sizeof tot); std::set<uint64_t> distinct, scheds, results; long done = 0, nontriv = 0; vector<int> viol;
  double maxsecs = 0;
  for (int i = 0; i < A.runs; i++) {
    RunRec& r = rec[i];
    if (!r.state) continue;
    done++;
    tot.steps += r.steps; tot.switches += r.switches; tot.preemptions += r.preemptions; tot.regions += r.regions; tot.workers += r.workers;
    tot.sync_ops += r.sync_ops; tot.short_teams += r.short_teams; tot.nops += r.nops; tot.faults += r.faults; tot.sim_ns += r.sim_ns;
    if (r.max_threads > tot.max_threads) tot.max_threads = r.max_threads;
    for (int c = 0; c < NCNT; c++) tot.cnt[c] += r.cnt[c];
    for (int c = 0; c < 8; c++) if (r.maxnum[c] > tot.maxnum[c]) tot.maxnum[c] = r.maxnum[c];
    scheds.insert(r.sched_hash); results.insert(r.hash);
    if (r.faults) { nontriv++; distinct.insert(sim::mix(r.plan_hash, r.hash)); }
    if (r.secs > maxsecs) maxsecs = r.secs;
    if (r.state == 2) viol.push_back(i);
  }
  RunRec* r2 = (RunRec*)shared_alloc(sizeof(RunRec) * 4);
  // determinism: every batch re-executes a sample of its runs and compares the event hashes
  long redo = 0, redobad = 0;
  if (viol.empty()) {
    int n = A.tier ? 40 : 6;
    if (the_check.warmup) the_check.warmup();
    for (int k = 0; k < n && k < done; k++) {
      int i = (int)(Rng(sim::mix(A.seed, 7777 + k)).below(A.runs));
      if (!rec[i].state || rec[i].secs > 5) continue;
      Plan p = the_check.gen(sim::mix(A.seed, i), A.tier); p.seed = i;
      run_one(p, r2, nullptr); redo++;
      if (r2->hash != rec[i].hash || r2->result_hash != rec[i].result_hash || r2->state != rec[i].state) {
        redobad++; fprintf(stderr, "run %d is not repeatable: %llx/%llx result %llx/%llx\n", i, (unsigned long long)r2->hash, (unsigned long long)rec[i].hash,
                           (unsigned long long)r2->result_hash, (unsigned long long)rec[i].result_hash);
      }
    }
  }
  int exit_code = 0; string replay, vcls, vmsg; long mini_tries = 0; size_t mini_ops = 0, mini_sched = 0;
  std::stable_sort(viol.begin(), viol.end(), [&](int a, int b) { return strcmp(rec[a].cls, "hang") != 0 && !strcmp(rec[b].cls, "hang"); });   // hangs take long to look at
  if (!viol.empty()) {
    exit_code = 2;
    sim::SchedSink sink; sink.cap = CAP; sink.n = (volatile uint64_t*)shared_alloc(4096); sink.e = (sim::SchedEntry*)shared_alloc(sizeof(sim::SchedEntry) * CAP);
    for (int i : viol) {
      if (!strncmp(rec[i].cls, "harness", 7)) { fprintf(stderr, "run %d: %s %s\n", i, rec[i].cls, rec[i].msg); continue; }
      Plan p = the_check.gen(sim::mix(A.seed, i), A.tier); p.seed = i;
      if (the_check.warmup) the_check.warmup();
      run_one(p, r2, nullptr);
      if (r2->state != 2 || strcmp(r2->cls, rec[i].cls) || r2->hash != rec[i].hash) {
        fprintf(stderr, "run %d: violation %s not repeatable (%s, %llx/%llx)\n", i, rec[i].cls, r2->cls, (unsigned long long)r2->hash, (unsigned long long)rec[i].hash);
        continue;
      }
      Mini m; m.cls = rec[i].cls; m.r = r2 + 1; m.sink = sink; m.end = sim::real_time() + A.mintime;
      Plan best = p; m.go(best);
      mini_tries = m.tries;
      run_one(best, r2, nullptr);
      if (r2->state != 2 || m.cls != r2->cls) { best = p; run_one(best, r2, nullptr); }
      if (r2->state != 2 || m.cls != r2->cls) { fprintf(stderr, "run %d: lost while minimising\n", i); continue; }
      replay = A.rdir + "/" + the_check.id + "-" + std::to_string(A.seed) + "-" + std::to_string(i) + ".replay";
      std::ofstream f(replay); f << write_plan(best, *r2, A.flavour.c_str()); f.close();
      vcls = r2->cls; vmsg = r2->msg; mini_ops = best.ops.size(); mini_sched = best.sched.size();
      exit_code = 1;
      break;
    }
  } else if (redobad) exit_code = 2;

  std::ostringstream o;
  o << "{\"check\":" << jstr(the_check.id) << ",\"flavour\":" << jstr(A.flavour) << ",\"seed\":" << A.seed << ",\"runs\":" << done << ",\"planned\":" << A.runs
    << ",\"wall\":" << wall << ",\"max_run_secs\":" << maxsecs << ",\"ops\":" << tot.nops << ",\"faults\":" << tot.faults << ",\"steps\":" << tot.steps << ",\"switches\":" << tot.switches
    << ",\"preemptions\":" << tot.preemptions << ",\"regions\":" << tot.regions << ",\"workers\":" << tot.workers << ",\"sync_ops\":" << tot.sync_ops
    << ",\"max_threads\":" << tot.max_threads << ",\"sim_ns\":" << tot.sim_ns << ",\"distinct_schedules\":" << scheds.size() << ",\"distinct_histories\":" << results.size()
    << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << distinct.size() << ",\"repeat_checked\":" << redo << ",\"repeat_bad\":" << redobad
    << ",\"rule\":" << jstr(the_check.rule) << ",\"counters\":{";
  bool first = true;
  for (size_t i = 0; i < cnames().size(); i++) { o << (first ? "" : ",") << jstr(cnames()[i].first) << ":" << tot.cnt[i]; first = false; }
  o << "},\"fault_kinds\":[";
  first = true;
  for (size_t i = 0; i < cnames().size(); i++) if (cnames()[i].second) { o << (first ? "" : ",") << jstr(cnames()[i].first); first = false; }
  o << "],\"maxima\":{";
  for (size_t i = 0; i < gnames().size(); i++) o << (i ? "," : "") << jstr(gnames()[i]) << ":" << tot.maxnum[i];
  o << "},\"samples\":[";
  int ns = 0;
  for (int i = 0; i < A.runs && ns < 4; i++) {
    if (!rec[i].state || !rec[i].faults) continue;
    Plan p = the_check.gen(sim::mix(A.seed, i), A.tier);
    o << (ns ? "," : "") << jstr("run " + std::to_string(i) + ": " + the_check.describe(p) + "; " + std::to_string(rec[i].steps) + " events, " +
                                 std::to_string(rec[i].switches) + " switches, " + std::to_string(rec[i].faults) + " faults"); ns++;
  }
  o << "],\"violations\":" << viol.size() << ",\"exit\":" << exit_code << ",\"replay\":" << jstr(replay) << ",\"class\":" << jstr(vcls) << ",\"message\":" << jstr(vmsg)
    << ",\"minimiser_runs\":" << mini_tries << ",\"replay_ops\":" << mini_ops << ",\"replay_switches\":" << mini_sched << "}\n";
  if (!A.out.empty()) { std::ofstream f(A.out); f << o.str(); } else printf("%s", o.str().c_str());
  return exit_code;
}
static int g_rc = 0;
static void* big(void*) { g_rc = driver_main(); return nullptr; }
int main(int argc, char** argv) {
  // same addresses in every process, where the kernel allows it
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  for (int i = 1; i < argc; i++) {
    string k = argv[i];
    auto val = [&]() { return string(i + 1 < argc ? argv[++i] : ""); };
    if (k == "--seed") A.seed = strtoull(val().c_str(), 0, 10); else if (k == "--runs") A.runs = atoi(val().c_str());
    else if (k == "--workers") A.workers = atoi(val().c_str()); else if (k == "--time") A.time = atof(val().c_str());
    else if (k == "--mintime") A.mintime = atof(val().c_str()); else if (k == "--tier") A.tier = val() == "thorough";
    else if (k == "--out") A.out = val(); else if (k == "--rdir") A.rdir = val(); else if (k == "--flavour") A.flavour = val();
    else if (k == "--replay") { A.replay = val(); A.mode = "replay"; } else if (k == "--one") { A.only = atol(val().c_str()); A.mode = "one"; }
    else if (k == "--timeout") g_timeout = atof(val().c_str());
    else { fprintf(stderr, "unknown argument %s\n", k.c_str()); return 2; }
  }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1024ull << 20);
  pthread_t t;
  if (pthread_create(&t, &at, big, nullptr)) { perror("pthread_create"); return 2; }
  pthread_join(t, nullptr);
  fflush(stdout);
  _exit(g_rc);
}
