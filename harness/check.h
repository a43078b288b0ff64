// What a check provides and what the driver gives it.
#pragma once
#include "../sim/sim.h"
#include <cstdint>
#include <functional>
#include <string>
#include <utility>
#include <vector>

struct Op {
  int kind = 0; int thr = 0; int64_t a[8] = {0, 0, 0, 0, 0, 0, 0, 0};
};
// Everything a run does: produced from one seed, or read from a replay file.
struct Plan {
  uint64_t seed = 0;
  std::vector<std::pair<std::string, int64_t>> p;
  std::vector<Op> ops;
  bool explicit_sched = false;
  std::vector<sim::SchedEntry> sched;
  int64_t get(const char* k, int64_t d = 0) const;
  void set(const char* k, int64_t v);
};

static const int NCNT = 96;
struct RunRec {        // lives in shared memory
  int state;           // 0 nothing yet, 1 finished, 2 violation
  char cls[64];
  char msg[600];
  uint64_t hash, sched_hash, plan_hash, result_hash;
  uint64_t steps, switches, preemptions, regions, workers, sync_ops, short_teams, sim_ns, max_threads;
  uint64_t nops, faults;
  uint64_t cnt[NCNT];
  double maxnum[8];
  double secs;
};
int counter(const char* name, bool is_fault = false);   // register at static initialisation
int gauge(const char* name);                             // a maximum over all runs

struct Out {
  RunRec* r = nullptr;
  void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  bool failed() const { return r->state == 2; }
  void add(int c, uint64_t n = 1);
  void max(int g, double v);
  void mix(uint64_t v) { r->result_hash = sim::mix(r->result_hash, v); }
  void stats(const sim::Stats& s);          // add the numbers of one simulation
};

struct CheckDef {
  const char* id;
  Plan (*gen)(uint64_t seed, int tier);       // tier 0 quick, 1 thorough
  void (*exec)(const Plan&, Out&);
  std::string (*describe)(const Plan&);       // one line for the evidence samples
  const char* op_name(int kind) const;
  const char** op_names; int n_ops;
  void (*warmup)();                            // may be null: run once in each worker before the runs
  const char* rule;
};
extern CheckDef the_check;

// scheduling part of a plan
void gen_sched(Plan& p, sim::Rng& r, int tmax);
sim::Config sched_of(const Plan& p);
void gen_rand(Plan& p, sim::Rng& r, uint64_t prefix);
sim::RandSpec rand_of(const Plan& p, int actor);
// runs fn in a forked child of this process (cold library statics); the child's verdict is
// returned: 0 finished, otherwise a class name is put in cls
bool in_child(const std::function<void()>& fn, std::string& cls, double timeout);
void* shared_alloc(size_t n);
int child_depth();
extern int g_c_rand_degraded, g_c_sched_preempt, g_c_short_team, g_c_alloc_fail, g_c_clock_jump;
