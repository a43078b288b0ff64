// C21: operations stay inside their arguments and their own memory.
// A run is a history of operations by several callers, overlapping or one after another, over other leftovers, random
// streams, teams and schedules, some of them with failing allocations. Every object given to the library lies between zones
// that nobody may touch, and so does every heap block; in the builds with address checks (flavour a) every access of the
// library's code is looked at when it is made: arguments, heap (also after its release), stacks and globals.
#include "common.h"
#include <algorithm>
#include <new>
static int c_ops = counter("operations inside guarded memory");
static int c_over = counter("runs with overlapping callers", true);
static int c_garb = counter("operations over scribbled memory", true);
static int c_left = counter("operations left through a failed allocation", true);
static int c_checked = counter("runs with every access checked");
static const int MAXO = 10;
static Plan gen(uint64_t seed, int tier) {
  Plan p; Rng r(seed); auto ops = pick(GROUPS);
  int T = 1 + (int)r.below(3), n = 1 + (int)r.below(MAXO); int64_t cost = 0;
  bool over = T > 1 && r.chance(1, 2);
  for (int i = 0; i < n; i++) {
    Op o; o.kind = (int)r.below(ops.size()); o.thr = (int)r.below(T);
    if (!p.ops.empty() && r.chance(1, 4)) { o.kind = kin(ops, p.ops[r.below(p.ops.size())].kind, r); }
    if (i && cost + ops[o.kind]->cost > BUDGET) continue;
    cost += ops[o.kind]->cost;
    o.a[0] = (int64_t)(r.next() >> 1); o.a[1] = (int64_t)(r.next() >> 1); o.a[2] = r.chance(1, 8);
    if (!over && !o.a[2] && r.chance(1, 6)) o.a[3] = 1 + (int64_t)r.below(r.chance(1, 2) ? 4 : 60);   // this allocation of the operation fails
    p.ops.push_back(o);
  }
  p.set("over", over); gen_sched(p, r, 8); gen_rand(p, r, 300);
  p.set("garbage", r.chance(7, 8) ? (int64_t)(r.next() >> 1) : 0); p.set("max_steps", 4000000000ll);
  return p;
}
static void exec(const Plan& p, Out& o) {
  auto ops = pick(GROUPS); size_t n = p.ops.size(); int T = 1; for (auto& x : p.ops) T = std::max(T, x.thr + 1);
  std::vector<LibOp*> v(n); uint64_t g = (uint64_t)p.get("garbage"); std::vector<int> left(n, 0);
  for (size_t i = 0; i < n; i++) { v[i] = ops[p.ops[i].kind]->make(); Rng r = rng_of(p.ops[i]); v[i]->prepare(r); v[i]->prefill((uint64_t)p.ops[i].a[1]); }
  for (int t = 0; t < T; t++) sim::set_rand(t, rand_of(p, t));
  sim::alloc_garbage(g);
  auto one = [&](size_t i) {
    const Op& x = p.ops[i]; sim::set_op(i);
    if (g && p.get("over") == 0) { sim::scribble_stack(sim::mix(g, i), 200000); o.add(c_garb); }
    if (x.a[3]) {
      sim::alloc_reset(); sim::alloc_track(true); sim::alloc_fail_at({(uint64_t)x.a[3]});
      try { v[i]->run(); } catch (const std::bad_alloc&) { left[i] = 1; o.add(c_left); }
      sim::alloc_track(false); sim::alloc_fail_at({}); o.add(g_c_alloc_fail, sim::alloc_stats().fired);
    } else if (x.a[2]) in_region(*v[i]); else v[i]->run();
  };
  auto st = sim::run(sched_of(p), [&] {
    if (p.get("over")) {
      std::vector<int> tid; auto caller = [&](int t) { for (size_t i = 0; i < n; i++) if (p.ops[i].thr == t) one(i); };
      for (int t = 1; t < T; t++) tid.push_back(sim::spawn([&, t] { caller(t); }, t));
      caller(0); for (int t : tid) sim::join(t);
    } else for (size_t i = 0; i < n; i++) {
      if (p.ops[i].thr) { int id = sim::spawn([&, i] { one(i); }, p.ops[i].thr); sim::join(id); } else one(i);
    }
  });
  o.stats(st); o.add(c_ops, n); if (p.get("over")) o.add(c_over); if (sim::address_checks()) o.add(c_checked);
  for (int t = 0; t < T; t++) o.add(g_c_rand_degraded, sim::rand_degraded(t));
  if (judge_sim(o, st, p, false)) return;
  const char* bad = box_check();
  if (bad) { o.fail("wrote-outside", "something was written %s: %s", bad, ops[p.ops[0].kind]->name.c_str()); return; }
  if (sim::alloc_stats().overwritten) { o.fail("wrote-outside", "something was written behind a heap block"); return; }
  if (sim::alloc_stats().bad_free) { o.fail("bad-free", "a block was released that had not been allocated"); return; }
  for (size_t i = 0; i < n; i++) if (!left[i]) o.mix(v[i]->out());
}
CheckDef the_check = {"C21", gen, exec, describe_ops, nullptr, 0, nullptr,
  "a run is a history of up to 10 operations (several parameter sets) by up to 3 callers, overlapping or not, in guarded memory; faults are leftovers in heap, stacks and outputs, degraded random streams, failing allocations, overlapping callers, preemptions and short teams; non-trivial: at least one of them fired; distinct: by plan and executed event history"};
