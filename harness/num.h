// Generic numeric check: seeded operations under seeded random streams, teams, schedules,
// histories and memory contents, each judged by its own oracle.
#pragma once
#include "common.h"
#include <algorithm>
#ifndef NTHREADS
#define NTHREADS 1
#endif
static int g_ratio = gauge("largest error / allowed error");
static int c_ops = counter("operations judged");
static int c_burst = counter("calls in bursts of the same operation");
static int c_reuse = counter("operations over the addresses of the previous one", true);
static std::vector<const Factory*> num_ops() { static auto v = pick(GROUPS); return v; }
static Plan num_gen(uint64_t seed, int tier) {
  Plan p; Rng r(seed); auto ops = num_ops();
  int n = 1 + (int)r.below(MAXOPS); int64_t cost = 0; int T = r.chance(1, 3) ? 1 + (int)r.below(NTHREADS) : 1;
  for (int i = 0; i < n; i++) {
    Op o; o.kind = (int)r.below(ops.size());
    int like = i && r.chance(1, 2) ? (int)r.below(i) : -1;
    if (like >= 0) o.kind = r.chance(2, 3) ? p.ops[like].kind : kin(ops, p.ops[like].kind, r);
    if (i && cost + ops[o.kind]->cost > BUDGET) break;
    cost += ops[o.kind]->cost;
    o.thr = T > 1 ? (int)r.below(T) : 0; o.a[2] = r.chance(1, 8);   // caller thread; inside a region of its own
    o.a[0] = (int64_t)(r.next() >> 1); if (like >= 0 && r.chance(2, 3)) relate(o, p.ops[like], r);
    o.a[1] = (int64_t)(r.next() >> 1); o.a[3] = burst(ops[o.kind], r, BURSTS);
    p.ops.push_back(o);
  }
  gen_sched(p, r, 8); gen_rand(p, r, r.chance(1, 2) ? 64 : r.chance(1, 2) ? 1000 : 20000);
  p.set("garbage", r.chance(3, 4) ? (int64_t)(r.next() >> 1) : 0);
  p.set("reuse", T == 1 && r.chance(1, 2)); p.set("max_steps", 4000000000ll);
  return p;
}
static void num_exec(const Plan& p, Out& o) {
  auto ops = num_ops(); std::vector<LibOp*> v; std::vector<uint64_t> in;
  auto make = [&](const Op& x) {
    LibOp* l = ops[x.kind]->make(); Rng r = rng_of(x);
    l->prepare(r); l->prefill((uint64_t)x.a[1]); v.push_back(l); in.push_back(l->in());
  };
  bool reuse = p.get("reuse"), bad = false;   // every operation's objects lie where the previous one's were
  if (!reuse) for (auto& x : p.ops) make(x);
  auto judge = [&](size_t i) {
    std::string m = v[i]->verify(); o.max(g_ratio, v[i]->ratio); o.add(c_ops);
    if (!m.empty()) { o.fail("wrong-result", "operation %zu: %s", i, m.c_str()); return false; }
    if (v[i]->in() != in[i]) { o.fail("input-changed", "operation %zu (%s) changed an input", i, ops[p.ops[i].kind]->name.c_str()); return false; }
    o.mix(v[i]->out()); return true;
  };
  int T = 1; for (auto& x : p.ops) T = std::max(T, x.thr + 1);
  for (int t = 0; t < T; t++) sim::set_rand(t, rand_of(p, t));
  uint64_t g = (uint64_t)p.get("garbage");
  if (g) sim::alloc_garbage(g);
  auto caller = [&](int t) {
    for (size_t i = 0; i < p.ops.size() && !bad; i++) {
      if (p.ops[i].thr != t) continue;
      if (reuse) { sim::pause(true); box_reuse(); make(p.ops[i]); sim::pause(false); o.add(c_reuse); }
      sim::set_op(i);
      if (g) sim::scribble_stack(sim::mix(g, i), SCRIBBLE);
      for (int64_t k = 0; k < p.ops[i].a[3]; k++) { v[i]->run(); sim::pause(true); v[i]->prefill((uint64_t)(p.ops[i].a[1] + k)); o.add(c_burst); sim::pause(false); }
      if (p.ops[i].a[2]) in_region(*v[i]); else v[i]->run();
      if (reuse) { sim::pause(true); bad = !judge(i); sim::pause(false); }
    }
  };
  auto st = sim::run(sched_of(p), [&] {
    std::vector<int> tid;
    for (int t = 1; t < T; t++) tid.push_back(sim::spawn([&, t] { caller(t); }, t));
    caller(0);
    for (int t : tid) sim::join(t);
  });
  o.stats(st);
  for (int t = 0; t < T; t++) o.add(g_c_rand_degraded, sim::rand_degraded(t));
  if (judge_sim(o, st, p, false) || bad) return;
  if (!reuse) for (size_t i = 0; i < v.size(); i++) if (!judge(i)) return;
}
#define NUM_RULE "a run is a seeded sequence of operations (shape, inputs, key) executed by the real code under a seeded random stream (uniform or degraded: stuck, bursts, alternating, short period, stuck bits), worker-team size, schedule and contents of uninitialised memory; non-trivial: at least one degraded draw, preemption or short team fired; distinct: by plan and executed event history"
