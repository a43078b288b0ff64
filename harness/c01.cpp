// C01: ring products are exact under every worker team and schedule, and race-free.
#include "common.h"
static int c_cold = counter("products with first-use table construction");
static Plan gen(uint64_t seed, int tier) {
  Plan p; Rng r(seed);
  auto ops = pick(GROUPS);
  int n = 1 + (int)r.below(4);
  int64_t cost = 0;
  for (int i = 0; i < n; i++) {
    Op o; o.kind = (int)r.below(ops.size());
    if (i && r.chance(1, 3)) o.kind = p.ops[r.below(i)].kind;    // same parameters again: warm tables
    if (cost + ops[o.kind]->cost > BUDGET && i) break;
    cost += ops[o.kind]->cost;
    o.thr = r.chance(1, 5) ? 1 : 0;                              // inside a region of the caller's own
    o.a[0] = (int64_t)(r.next() >> 1); o.a[1] = (int64_t)(r.next() >> 1);
    p.ops.push_back(o);
  }
  gen_sched(p, r, 13);
  p.set("races", 1); p.set("garbage", (int64_t)(r.next() >> 1));
  return p;
}
static void exec(const Plan& p, Out& o) {
  auto ops = pick(GROUPS);
  std::vector<LibOp*> v; std::vector<uint64_t> in;
  for (auto& x : p.ops) {
    LibOp* l = ops[x.kind]->make(); Rng r((uint64_t)x.a[0]);
    l->prepare(r); l->prefill((uint64_t)x.a[1]); v.push_back(l); in.push_back(l->in());
  }
  if (p.get("garbage")) sim::alloc_garbage((uint64_t)p.get("garbage"));
  auto st = sim::run(sched_of(p), [&] {
    for (size_t i = 0; i < v.size(); i++) {
      sim::set_op(i);
      if (p.ops[i].thr) in_region(*v[i]); else v[i]->run();
    }
  });
  o.stats(st);
  if (judge_sim(o, st, p, true)) return;
  for (size_t i = 0; i < v.size(); i++) {
    std::string m = v[i]->verify();
    if (!m.empty()) { o.fail("wrong-product", "operation %zu: %s", i, m.c_str()); return; }
    if (v[i]->in() != in[i]) { o.fail("operand-changed", "operation %zu (%s) changed an operand", i, ops[p.ops[i].kind]->name.c_str()); return; }
    o.mix(v[i]->out());
  }
}
CheckDef the_check = {"C01", gen, exec, describe_ops, nullptr, 0, nullptr,
  "a run is 1-4 ring products (ring x ring, ternary x ring) of seeded shapes and operand styles under a seeded worker-team size, chunk-to-worker interleaving and preemption schedule; non-trivial: at least one preemption between workers or a team smaller than requested; distinct: by plan and executed event history"};
