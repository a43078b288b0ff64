// C12: results depend only on arguments and random draws.
// Each operation is first run alone: in a process of its own with cold library statics, one worker, no
// history. Then all of them run one after another in one process, in a seeded order with repetitions, each
// by some caller thread, with other worker teams and schedules, over other leftovers in heap, stack and
// output objects, at other (jumping or stuck) clocks. Results, inputs and the number of draws must be equal.
#include "common.h"
#include <algorithm>
#ifndef SCRIBBLE
#define SCRIBBLE 400000
#endif
static int c_cmp = counter("operations compared with their isolated run");
static int c_rep = counter("operations repeated within a history");
static int c_garb = counter("operations over scribbled memory", true);
static int c_other = counter("operations by another thread", true);
static int c_burst = counter("calls in bursts of the same operation");
static int c_reuse = counter("operations over the addresses of the previous one", true);
static const int MAXO = 8, MAXH = 20;
static Plan gen(uint64_t seed, int tier) {
  Plan p; Rng r(seed); auto ops = pick(GROUPS);
  int n = 1 + (int)r.below(MAXO); int64_t cost = 0; int T = 1 + (int)r.below(3); int style = (int)r.below(4);
  std::vector<int> fam;   // one family (2) or two of one group (3) with different parameters: caches keyed too coarsely
  if (style >= 2) {
    const Factory* a = ops[r.below(ops.size())]; const Factory* b = a;
    if (style == 3) do b = ops[r.below(ops.size())]; while (b->group != a->group);
    for (size_t i = 0; i < ops.size(); i++) if (family(ops[i]) == family(a) || family(ops[i]) == family(b)) fam.push_back((int)i);
  }
  for (int i = 0; i < n; i++) {
    Op o; o.kind = style >= 2 ? fam[r.below(fam.size())] : (int)r.below(ops.size());
    int like = !p.ops.empty() && r.chance(1, 2) ? (int)r.below(p.ops.size()) : -1;
    if (like >= 0) o.kind = r.chance(1, 2) ? p.ops[like].kind : kin(ops, p.ops[like].kind, r);
    if (i && cost + 2 * ops[o.kind]->cost > BUDGET) continue;
    cost += 2 * ops[o.kind]->cost;
    int rep = 1 + (r.chance(1, 2) ? (int)r.below(3) : 0);
    o.a[0] = (int64_t)(r.next() >> 1);   // inputs
    if (like >= 0 && r.chance(3, 4)) { relate(o, p.ops[like], r); if (o.kind != p.ops[like].kind && r.chance(1, 2)) o.a[6] = o.a[7] = 0; }
    for (int k = 0; k < rep; k++) {      // kind, a[0], a[6] and a[7] identify the operation: repetitions share them
      Op q = o; q.thr = (int)r.below(T); q.a[1] = (int64_t)(r.next() >> 1); q.a[2] = r.chance(1, 6); q.a[3] = r.below(4); q.a[4] = (int64_t)(r.next() >> 20); q.a[5] = burst(ops[o.kind], r, BURSTS);
      p.ops.push_back(q);
    }
  }
  for (size_t i = p.ops.size(); i > 1; i--) std::swap(p.ops[i - 1], p.ops[r.below(i)]);
  if (p.ops.size() > (size_t)MAXH) p.ops.resize(MAXH);
  gen_sched(p, r, 8); gen_rand(p, r, 300);
  p.set("garbage", r.chance(7, 8) ? (int64_t)(r.next() >> 1) : 0); p.set("clock", (int64_t)r.below(4));
  p.set("reuse", r.chance(1, 2)); p.set("max_steps", 4000000000ll);
  return p;
}
static void exec(const Plan& p, Out& o) {
  auto ops = pick(GROUPS); size_t n = p.ops.size(); int T = 1; for (auto& x : p.ops) T = std::max(T, x.thr + 1);
  struct Ref { uint64_t out, in, draws; };
  Ref* ref = (Ref*)shared_alloc(sizeof(Ref) * n);
  auto spec = [&](const Op& x) { sim::RandSpec s = rand_of(p, 0); s.seed = sim::mix(s.seed, (uint64_t)x.a[0]); return s; };
  std::vector<int> first(n, -1);
  for (size_t i = 0; i < n; i++) { for (size_t j = 0; j <= i; j++) if (p.ops[j].kind == p.ops[i].kind && p.ops[j].a[0] == p.ops[i].a[0] && p.ops[j].a[6] == p.ops[i].a[6] && p.ops[j].a[7] == p.ops[i].a[7]) { first[i] = (int)j; break; } }
  sim::clock_reset(1000000000ull, 0);
  for (size_t i = 0; i < n; i++) {
    if (first[i] != (int)i) continue;
    std::string cls;
    bool ok = in_child([&] {
      LibOp* l = ops[p.ops[i].kind]->make(); Rng r = rng_of(p.ops[i]); l->prepare(r); l->prefill(1);
      ref[i].in = l->in(); sim::set_rand(0, spec(p.ops[i]));
      sim::Config c; c.races = false; c.max_steps = 4000000000ull;
      sim::run(c, [&] { l->run(); });
      ref[i].out = l->out(); ref[i].draws = sim::rand_draws(0);
    }, cls, 60);
    if (!ok) { o.fail(("alone-" + cls).c_str(), "%s alone ended abnormally: %s", ops[p.ops[i].kind]->name.c_str(), cls.c_str()); return; }
  }
  std::vector<LibOp*> v(n);
  auto make = [&](size_t i) { v[i] = ops[p.ops[i].kind]->make(); Rng r = rng_of(p.ops[i]); v[i]->prepare(r); v[i]->prefill((uint64_t)p.ops[i].a[1]); };
  bool reuse = p.get("reuse"); std::vector<uint64_t> hin(n), hout(n); std::vector<std::string> err(n);   // reuse: every operation's objects lie where the previous one's were
  if (!reuse) for (size_t i = 0; i < n; i++) make(i);
  auto look = [&](size_t i) { hin[i] = v[i]->in(); hout[i] = v[i]->out(); if (hout[i] != ref[first[i]].out) err[i] = v[i]->verify(); };
  std::vector<uint64_t> draws(n); uint64_t g = (uint64_t)p.get("garbage"); int ck = (int)p.get("clock");
  sim::alloc_garbage(g);
  if (ck == 1) sim::clock_reset(77, -5000000000000ll); if (ck == 2) sim::clock_reset(1ull << 60, 1ll << 61);
  auto st = sim::run(sched_of(p), [&] {
    std::function<void()> job; int who = 0; std::vector<int> tid;   // the other callers, started when first needed
    for (int t = 1; t < T; t++) tid.push_back(sim::spawn([&, t] { for (;;) { sim::wait_until([&] { return who == t || who < 0; }); if (who < 0) return; job(); who = 0; sim::notify(); } }, 0));
    for (size_t i = 0; i < n; i++) {
      const Op& x = p.ops[i];
      if (reuse) { sim::pause(true); box_reuse(); make(i); sim::pause(false); o.add(c_reuse); }
      sim::set_op(i);
      if (x.a[5]) { sim::set_rand(0, rand_of(p, 0)); for (int64_t k = 0; k < x.a[5]; k++) { v[i]->run(); sim::pause(true); v[i]->prefill((uint64_t)(x.a[1] + k)); o.add(c_burst); sim::pause(false); } }
      sim::set_rand(0, spec(x));
      if (x.a[3] == 1) sim::clock_advance((uint64_t)x.a[4]); if (x.a[3] == 2) { sim::clock_jump_wall((x.a[4] & 1) ? x.a[4] : -x.a[4]); o.add(g_c_clock_jump); }
      auto body = [&] { sim::set_actor(0); if (g) sim::scribble_stack(sim::mix(g, i), SCRIBBLE); if (x.a[2]) in_region(*v[i]); else v[i]->run(); };
      if (x.thr) { o.add(c_other); job = body; who = x.thr; sim::notify(); sim::wait_until([&] { return who == 0; }); } else body();
      draws[i] = sim::rand_draws(0); o.add(g_c_rand_degraded, sim::rand_degraded(0));
      if (g) o.add(c_garb);
      if (reuse) { sim::pause(true); look(i); sim::pause(false); }
    }
    who = -1; sim::notify(); for (int t : tid) sim::join(t);
  });
  o.stats(st);
  if (judge_sim(o, st, p, false)) return;
  for (size_t i = 0; i < n; i++) {
    if (!reuse) look(i);
    const char* nm = ops[p.ops[i].kind]->name.c_str(); Ref& f = ref[first[i]]; o.add(c_cmp); if (first[i] != (int)i) o.add(c_rep);
    if (hin[i] != f.in) { o.fail("input-changed", "operation %zu (%s) changed an input", i, nm); return; }
    if (draws[i] != f.draws) { o.fail("draws-differ", "operation %zu (%s) drew %llu random values, in isolation %llu", i, nm, (unsigned long long)draws[i], (unsigned long long)f.draws); return; }
    if (hout[i] != f.out) { const std::string& e = err[i]; o.fail("depends-on-history-or-memory", "operation %zu (%s) differs from its result in isolation%s%s", i, nm, e.empty() ? "" : "; ", e.c_str()); return; }
    o.mix(hout[i]);
  }
}
CheckDef the_check = {"C12", gen, exec, describe_ops, nullptr, 0, nullptr,
  "a run is a history of up to 20 operations (several parameter sets, repetitions) by up to 3 caller threads in one process, each compared with its isolated run in a fresh process; faults are other leftovers in heap, stacks and outputs, jumping clocks, other threads, teams and schedules; non-trivial: at least one of them fired; distinct: by plan and executed event history"};
