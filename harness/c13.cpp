// C13: long-running use does not grow memory.
// In "churn" histories every call is made by a caller thread of its own, which ends afterwards.
// Warm-up: every caller thread runs every operation of the run once. After that, live heap blocks and bytes
// must not grow with the operations of a seeded history.
#include "common.h"
#include <algorithm>
static int c_meas = counter("operations after warm-up whose heap balance was checked");
static int c_alloc = counter("library allocations");
static int c_overl = counter("histories with overlapping callers");
static int c_burst = counter("calls in bursts of the same operation");
static int c_churn = counter("calls by caller threads that ended afterwards");
static int c_again = counter("operations repeated because the heap had grown");
static const int MAXO = 5, PASSES = 8;   // a leak grows in every one of the passes; scratch that threads keep does not
static Plan gen(uint64_t seed, int tier) {
  Plan p; Rng r(seed); auto ops = pick(GROUPS); int n = 1 + (int)r.below(MAXO), T = 1 + (int)r.below(3); bool churn = r.chance(1, 4); if (churn) T = 1; int64_t cost = 0; std::vector<int> kinds;
  for (int i = 0; i < n; i++) { int k = (int)r.below(ops.size()); if (i && cost + ops[k]->cost > BUDGET / 4 / T) continue; cost += ops[k]->cost; kinds.push_back(k); }
  bool lone = r.chance(1, 3);   // no worker threads: whatever grows with new arguments is not a worker's scratch
  for (int t = 0; t < T; t++) for (int k : kinds) for (int w = 0; w < 2; w++) { Op o; o.kind = k; o.thr = t; o.a[0] = (int64_t)(r.next() >> 1); o.a[1] = (int64_t)(r.next() >> 1); o.a[2] = w; o.a[5] = 1; p.ops.push_back(o); }
  int m = 2 + (int)r.below(churn ? 7 : r.chance(lone ? 3 : 1, 8) ? 80 : 14); cost = 0;
  for (int i = 0; i < m; i++) {
    Op o; o.kind = kinds[r.below(kinds.size())]; if (i > 1 && cost + ops[o.kind]->cost > BUDGET) break; cost += ops[o.kind]->cost;
    o.thr = (int)r.below(T); o.a[0] = (int64_t)(r.next() >> 1); o.a[1] = (int64_t)(r.next() >> 1); o.a[2] = r.chance(1, 8); o.a[3] = burst(ops[o.kind], r, BURSTS); p.ops.push_back(o);
  }
  gen_sched(p, r, churn ? 2 : 8); if (lone) { p.set("tmax", 1); p.set("tfix", 1); } gen_rand(p, r, 300); p.set("overlap", !churn && r.chance(1, 3)); p.set("churn", churn); p.set("garbage", (int64_t)(r.next() >> 1)); p.set("max_steps", 4000000000ll);
  return p;
}
static void exec(const Plan& p, Out& o) {
  auto ops = pick(GROUPS); size_t n = p.ops.size(); int T = 1; for (auto& x : p.ops) T = std::max(T, x.thr + 1);
  std::vector<LibOp*> v(n);
  for (size_t i = 0; i < n; i++) { v[i] = ops[p.ops[i].kind]->make(); Rng r((uint64_t)p.ops[i].a[0]); v[i]->prepare(r); v[i]->prefill((uint64_t)p.ops[i].a[1]); }
  for (int t = 0; t < T; t++) sim::set_rand(t, rand_of(p, t));
  sim::alloc_garbage((uint64_t)p.get("garbage")); bool overlap = p.get("overlap"), churn = p.get("churn") && T == 1; int ended = 0;
  const size_t NONE = ~(size_t)0; int tmax = sched_of(p).tmax; size_t bad = NONE; bool cache = false; sim::AllocStats base{}, worst{};
  auto runop = [&](size_t i) { sim::set_op(i); sim::alloc_track(true); for (int64_t k = 0; k < p.ops[i].a[3]; k++) { v[i]->run(); o.add(c_burst); } if (p.ops[i].a[2]) in_region(*v[i]); else v[i]->run(); sim::alloc_track(false); };
  // caller threads live as long as the run; the main thread hands out turns
  std::vector<std::vector<size_t>> queue(T); std::vector<int> excused(ops.size());
  auto more = [](const sim::AllocStats& a, const sim::AllocStats& b) { return a.live_blocks > b.live_blocks || a.live_bytes > b.live_bytes; };
  auto st = sim::run(sched_of(p), [&] {
    bool stop = false; std::vector<int> tid; std::vector<size_t> pos(T, 0);
    for (int t = 1; t < T; t++) tid.push_back(sim::spawn([&, t] {
      for (;;) { sim::wait_until([&] { return stop || pos[t] < queue[t].size(); }); if (pos[t] == queue[t].size()) return; runop(queue[t][pos[t]]); pos[t]++; sim::notify(); }
    }, t));
    auto give = [&](size_t i) {
      int t = p.ops[i].thr;
      if (churn) { if (++ended < 28) sim::join(sim::spawn([&, i] { runop(i); }, 0)); }
      else if (t == 0) runop(i); else { queue[t].push_back(i); sim::notify(); }
    };
    auto drain = [&] { sim::wait_until([&] { for (int t = 1; t < T; t++) if (pos[t] < queue[t].size()) return false; return true; }); };
    sim::full_teams(true);    // every worker there will be has worked
    for (size_t i = 0; i < n; i++) if (p.ops[i].a[5]) { give(i); drain(); }
    sim::full_teams(false);
    if (overlap) {   // the same history over and over: whatever depends on the data has been built in the first pass
      for (int k = 0; k < PASSES && bad == NONE; k++) {
        for (size_t i = 0; i < n; i++) if (!p.ops[i].a[5]) give(i);
        drain(); auto s = sim::alloc_stats();
        if (k && !more(s, base)) break;
        if (k == PASSES - 1) { bad = n - 1; worst = s; } else base = s;
      }
    } else {
      base = sim::alloc_stats();
      for (size_t i = 0; i < n && bad == NONE; i++) {
        if (p.ops[i].a[5]) continue;
        give(i); drain(); auto s = sim::alloc_stats();
        if (more(s, base)) {   // a table that these arguments were the first to need, or a leak? a leak happens again
          bool again = true;
          for (int k = 0; k < PASSES && again; k++) { give(i); drain(); auto s1 = sim::alloc_stats(); again = more(s1, s); s = s1; o.add(c_again); }
          if (again) { bad = i; worst = s; }
          else if (++excused[p.ops[i].kind] > (tmax == 1 ? 6 : 6 + 3 * tmax)) { bad = i; worst = s; cache = true; }   // workers may get scratch of their own late
        }
        if (bad == NONE) base = s;
      }
    }
    stop = true; sim::notify(); for (int t : tid) sim::join(t);
  });
  o.stats(st); o.add(c_alloc, sim::alloc_stats().count); if (overlap && T > 1) o.add(c_overl); if (churn) o.add(c_churn, ended);
  for (int t = 0; t < T; t++) o.add(g_c_rand_degraded, sim::rand_degraded(t));
  if (judge_sim(o, st, p, false)) return;
  for (auto& x : p.ops) if (!x.a[5]) o.add(c_meas);
  if (bad != NONE) { o.fail(cache ? "heap-grows-with-history" : "heap-grows", "%s operation %zu (%s) %llu heap blocks (%llu bytes) are live; before it was %llu (%llu)%s", overlap ? "overlapping callers, last" : "after", bad, ops[p.ops[bad].kind]->name.c_str(),
                        (unsigned long long)worst.live_blocks, (unsigned long long)worst.live_bytes, (unsigned long long)base.live_blocks, (unsigned long long)base.live_bytes,
                        cache ? ", after growing for many different arguments" : ", growing with every repetition"); return; }
  for (auto l : v) o.mix(l->out());
}
CheckDef the_check = {"C13", gen, exec, describe_ops, nullptr, 0, nullptr,
  "a run is a history of up to 80 operations by up to 3 caller threads after a warm-up in which each caller ran each operation once (or by callers that each make one call and end); live heap blocks and bytes are compared after every operation (or per pass of the same history, when callers overlap); non-trivial: at least one preemption, short team or degraded draw; distinct: by plan and executed event history"};
