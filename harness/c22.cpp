// C22: every operation finishes.
// First each operation alone: one worker, uniform random values, its work (events) and draws counted. Then the same operations by
// several callers under other schedules, teams, memory contents, random streams degraded for a while, and failing allocations
// followed by another attempt; the work and the draws allowed are a multiple of what they took alone plus what the degraded
// stretch can cost. Deadlocks, and runs that use up the budget, are violations.
#include "common.h"
#include <algorithm>
#include <new>
static int c_ops = counter("operations that finished");
static int c_over = counter("runs with overlapping callers", true);
static int c_left = counter("operations repeated after a failed allocation", true);
static int g_work = gauge("events / events allowed");
static int g_draws = gauge("draws / draws allowed");
static const int MAXO = 10;
static Plan gen(uint64_t seed, int tier) {
  Plan p; Rng r(seed); auto ops = pick(GROUPS);
  int T = 1 + (int)r.below(4), n = 1 + (int)r.below(MAXO); int64_t cost = 0; bool over = T > 1 && r.chance(3, 4), one = r.chance(1, 4); int k0 = (int)r.below(ops.size());
  for (int i = 0; i < n; i++) {
    Op o; o.kind = one ? k0 : (int)r.below(ops.size()); o.thr = (int)r.below(T);
    if (i && cost + ops[o.kind]->cost > BUDGET) continue;
    cost += ops[o.kind]->cost;
    o.a[0] = (int64_t)(r.next() >> 1); o.a[1] = (int64_t)(r.next() >> 1); o.a[2] = r.chance(1, 8);
    if (!over && !o.a[2] && r.chance(1, 5)) o.a[3] = 1 + (int64_t)r.below(r.chance(1, 2) ? 4 : 40);
    p.ops.push_back(o);
  }
  p.set("over", over); gen_sched(p, r, T == 1 ? 20 : T == 2 ? 12 : 8); if (T > 1 || p.get("tmax") > 8) p.set("nested", 0); gen_rand(p, r, r.chance(1, 2) ? 100 : 3000);
  p.set("garbage", r.chance(7, 8) ? (int64_t)(r.next() >> 1) : 0);
  return p;
}
static void exec(const Plan& p, Out& o) {
  auto ops = pick(GROUPS); size_t n = p.ops.size(); int T = 1; for (auto& x : p.ops) T = std::max(T, x.thr + 1);
  struct Ref { uint64_t steps, draws; };
  Ref* ref = (Ref*)shared_alloc(sizeof(Ref) * n); std::vector<LibOp*> v(n); std::string cls;
  auto make = [&](size_t i) { v[i] = ops[p.ops[i].kind]->make(); Rng r = rng_of(p.ops[i]); v[i]->prepare(r); v[i]->prefill((uint64_t)p.ops[i].a[1]); };
  for (size_t i = 0; i < n; i++) {
    bool ok = in_child([&] {
      make(i); sim::RandSpec u; u.seed = (uint64_t)p.ops[i].a[0]; sim::set_rand(0, u);
      sim::Config c; c.races = false; c.tmax = 1; c.max_steps = 400000000ull;
      auto st = sim::run(c, [&] { v[i]->run(); });
      ref[i].steps = st.steps; ref[i].draws = sim::rand_draws(0);
    }, cls, 40);
    if (!ok) { o.fail(("alone-" + cls).c_str(), "%s alone did not finish: %s", ops[p.ops[i].kind]->name.c_str(), cls.c_str()); return; }
  }
  uint64_t pre = (uint64_t)p.get("rand_prefix"), work = 0; std::vector<uint64_t> allow(T, 2 * pre + 500);
  for (size_t i = 0; i < n; i++) { int k = p.ops[i].a[3] ? 2 : 1; work += k * ref[i].steps; allow[p.ops[i].thr] += 20 * k * (ref[i].draws + 50); }
  uint64_t budget = 8 * work + 2000 * pre * T + 6000000;
  for (size_t i = 0; i < n; i++) make(i);
  for (int t = 0; t < T; t++) sim::set_rand(t, rand_of(p, t));
  sim::alloc_garbage((uint64_t)p.get("garbage"));
  auto one = [&](size_t i) {
    const Op& x = p.ops[i]; sim::set_op(i);
    if (x.a[3]) {
      bool left = false; sim::alloc_reset(); sim::alloc_track(true); sim::alloc_fail_at({(uint64_t)x.a[3]});
      try { v[i]->run(); } catch (const std::bad_alloc&) { left = true; }
      sim::alloc_track(false); sim::alloc_fail_at({}); o.add(g_c_alloc_fail, sim::alloc_stats().fired);
      if (left) { o.add(c_left); v[i]->run(); }
    } else if (x.a[2]) in_region(*v[i]); else v[i]->run();
  };
  auto cfg = sched_of(p); cfg.races = false; cfg.max_steps = budget;
  auto st = sim::run(cfg, [&] {
    auto caller = [&](int t) { for (size_t i = 0; i < n; i++) if (p.ops[i].thr == t) one(i); };
    if (p.get("over")) {
      std::vector<int> tid; for (int t = 1; t < T; t++) tid.push_back(sim::spawn([&, t] { caller(t); }, t));
      caller(0); for (int t : tid) sim::join(t);
    } else for (size_t i = 0; i < n; i++) {
      if (p.ops[i].thr) { int id = sim::spawn([&, i] { one(i); }, p.ops[i].thr); sim::join(id); } else one(i);
    }
  });
  o.stats(st); o.add(c_ops, n); if (p.get("over")) o.add(c_over);
  o.max(g_work, (double)st.steps / budget);
  if (judge_sim(o, st, p, false)) return;
  for (int t = 0; t < T; t++) {
    o.add(g_c_rand_degraded, sim::rand_degraded(t)); o.max(g_draws, (double)sim::rand_draws(t) / allow[t]);
    if (sim::rand_draws(t) > allow[t]) { o.fail("too-many-draws", "caller %d drew %llu random values; at most %llu are allowed for its operations", t, (unsigned long long)sim::rand_draws(t), (unsigned long long)allow[t]); return; }
  }
  for (size_t i = 0; i < n; i++) o.mix(v[i]->out());
}
CheckDef the_check = {"C22", gen, exec, describe_ops, nullptr, 0, nullptr,
  "a run is a history of up to 10 operations by up to 4 callers, overlapping or not, with teams of up to 20 workers; faults are random streams degraded for a while, failing allocations (then another attempt), leftovers in memory, preemptions and short teams; non-trivial: at least one of them fired; distinct: by plan and executed event history"};
