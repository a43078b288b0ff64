// C03: a failed memory allocation is reported cleanly and is recoverable.
// The operations of a run are first executed in a process of their own with no failing allocation (cold
// library statics): outputs, numbers of allocations and live heap after each. Then, again with cold statics,
// seeded allocations fail: single ones, windows, all until the retry, repeated ones, with other operations in
// between, by one caller or by overlapping callers. Only std::bad_alloc may come out; the inputs stay as they
// were; the retry gives the result of the undisturbed run; nothing stays allocated that is not allocated there.
#include "common.h"
#include <algorithm>
#include <new>
static int c_single = counter("operations hit by one failing allocation", true);
static int c_window = counter("operations hit by a window of failing allocations", true);
static int c_all = counter("operations hit by exhausted memory", true);
static int c_over = counter("failures under overlapping callers", true);
static int c_rep = counter("bad_alloc reported to the caller");
static int c_surv = counter("operations completed in spite of a failed allocation");
static int c_retry = counter("results compared after a failure");
static int c_after = counter("undisturbed operations compared after a failure");
static const int MAXO = 5;
static Plan gen(uint64_t seed, int tier) {
  Plan p; Rng r(seed); auto ops = pick(GROUPS); auto al = pick(GROUPS, 1 << 30, OP_ALLOC);
  int n = 1 + (int)r.below(MAXO), T = r.chance(1, 3) ? 2 + (int)r.below(2) : 1; int64_t cost = 0;
  for (int i = 0; i < n; i++) {
    Op o;
    if (i && r.chance(1, 4)) { const Op& q = p.ops[r.below(p.ops.size())]; o.kind = q.kind; if (r.chance(1, 2)) o.a[0] = q.a[0]; }   // the same parameters again
    else if (r.chance(5, 6)) { const Factory* f = al[r.below(al.size())]; o.kind = (int)(std::find(ops.begin(), ops.end(), f) - ops.begin()); }
    else o.kind = (int)r.below(ops.size());
    if (i && cost + 4 * ops[o.kind]->cost > BUDGET) continue;
    cost += 4 * ops[o.kind]->cost;
    if (!o.a[0]) o.a[0] = (int64_t)(r.next() >> 1);
    o.a[1] = (int64_t)(r.next() >> 1); o.a[2] = r.chance(1, 5) ? 0 : 1 + (int64_t)r.below(4); o.a[3] = (int64_t)r.below(4); o.thr = (int)r.below(T); p.ops.push_back(o);
  }
  gen_sched(p, r, 6); gen_rand(p, r, 200); p.set("nfail", 1 + (int64_t)r.below(8)); p.set("burst", r.chance(1, 3) ? (int64_t)r.below(60) : 0);
  p.set("fseed", (int64_t)(r.next() >> 1)); p.set("garbage", (int64_t)(r.next() >> 1)); p.set("max_steps", 4000000000ll);
  return p;
}
struct Dry { uint64_t out, in, count, blocks, bytes; };
static void exec(const Plan& p, Out& o) {
  auto ops = pick(GROUPS); size_t n = p.ops.size(); int T = 1; for (auto& x : p.ops) T = std::max(T, x.thr + 1);
  Dry* dry = (Dry*)shared_alloc(sizeof(Dry) * (n + 1));
  std::vector<LibOp*> v(n);
  for (size_t i = 0; i < n; i++) { v[i] = ops[p.ops[i].kind]->make(); Rng r((uint64_t)p.ops[i].a[0]); v[i]->prepare(r); v[i]->prefill((uint64_t)p.ops[i].a[1]); }
  auto spec = [&](size_t i) { sim::RandSpec s = rand_of(p, 0); s.seed = sim::mix(s.seed, (uint64_t)p.ops[i].a[0]); return s; };
  sim::alloc_garbage((uint64_t)p.get("garbage"));
  sim::Config quiet; quiet.races = false; quiet.max_steps = 4000000000ull;
  // the callers: thread 0 hands out turns
  auto turns = [&](const std::function<void(size_t)>& body) {
    size_t job = 0; int who = 0; std::vector<int> tid;
    for (int t = 1; t < T; t++) tid.push_back(sim::spawn([&, t] { for (;;) { sim::wait_until([&] { return who == t || who < 0; }); if (who < 0) return; body(job); who = 0; sim::notify(); } }, t));
    for (size_t i = 0; i < n; i++) { int t = p.ops[i].thr; if (!t) body(i); else { job = i; who = t; sim::notify(); sim::wait_until([&] { return who == 0; }); } }
    who = -1; sim::notify(); for (int t : tid) sim::join(t);
  };
  std::string cls;
  bool ok = in_child([&] {
    sim::run(quiet, [&] { turns([&](size_t i) {
      int a = p.ops[i].thr; sim::set_op(i); sim::set_rand(a, spec(i)); uint64_t c0 = sim::alloc_stats().count;
      dry[i].in = v[i]->in(); sim::alloc_track(true); v[i]->run(); sim::alloc_track(false);
      auto s = sim::alloc_stats(); dry[i].out = v[i]->out(); dry[i].count = s.count - c0; dry[i].blocks = s.live_blocks; dry[i].bytes = s.live_bytes;
    }); });
  }, cls, 60);
  if (!ok) { o.fail(("undisturbed-" + cls).c_str(), "the operations without any failing allocation ended abnormally: %s", cls.c_str()); return; }
  uint64_t total = 0; for (size_t i = 0; i < n; i++) total += dry[i].count;

  bool overlap = T > 1, hit = false; std::string bad, badcls;
  // one attempt; true: it returned normally, false: it reported bad_alloc
  auto attempt = [&](size_t i) {
    int a = p.ops[i].thr; v[i]->prefill((uint64_t)p.ops[i].a[1]); sim::set_op(i); sim::set_rand(a, spec(i));
    bool done = false; const char* other = nullptr;
    sim::alloc_track(true);
    try { v[i]->run(); done = true; } catch (const std::bad_alloc&) {} catch (const std::exception&) { other = "another exception than std::bad_alloc"; } catch (...) { other = "an exception of another type"; }
    sim::alloc_track(false);
    if (other && bad.empty()) { badcls = "other-exception"; bad = std::string(ops[p.ops[i].kind]->name) + " reported " + other; }
    if (v[i]->in() != dry[i].in && bad.empty()) { badcls = "input-changed"; bad = std::string(ops[p.ops[i].kind]->name) + " changed an input while an allocation failed"; }
    if (!done) o.add(c_rep);
    return done;
  };
  auto compare = [&](size_t i, bool after) {
    if (v[i]->out() != dry[i].out && bad.empty()) { badcls = "wrong-result"; bad = std::string(ops[p.ops[i].kind]->name) + (after ? ": another result after a failed allocation than without it" : ": completed with another result than without the failed allocation"); }
    o.add(hit ? c_retry : c_after);
  };
  Rng fr((uint64_t)p.get("fseed"));
  sim::alloc_fail_at({}); sim::alloc_fail_from(0, 0);
  auto leakcheck = [&](size_t i) {
    auto s = sim::alloc_stats();
    if ((s.live_blocks > dry[i].blocks || s.live_bytes > dry[i].bytes) && bad.empty()) {
      badcls = "leak"; char b[300]; snprintf(b, sizeof b, "after %s %llu blocks (%llu bytes) are live; without the failed allocation %llu (%llu)", ops[p.ops[i].kind]->name.c_str(),
        (unsigned long long)s.live_blocks, (unsigned long long)s.live_bytes, (unsigned long long)dry[i].blocks, (unsigned long long)dry[i].bytes); bad = b;
    }
  };
  sim::Stats st;
  if (!overlap) {
    st = sim::run(sched_of(p), [&] {
      for (size_t i = 0; i < n && bad.empty(); i++) {
        const Op& x = p.ops[i]; uint64_t cnt = dry[i].count; Rng f(sim::mix((uint64_t)x.a[1], 5)); int tries = 1 + (int)x.a[3];
        for (int k = 0; k < tries && x.a[2] && cnt && bad.empty(); k++) {
          uint64_t base = sim::alloc_stats().count, at = base + 1 + (f.chance(1, 6) ? (f.chance(1, 2) ? 0 : cnt - 1) : f.below(cnt)), fired = sim::alloc_stats().fired;
          int mode = (int)x.a[2];
          if (mode == 1 || mode == 4) sim::alloc_fail_at({at});
          else if (mode == 2) sim::alloc_fail_from(at, 1 + f.below(40));
          else sim::alloc_fail_from(at, ~0ull >> 1);
          hit = false;
          bool done = attempt(i); uint64_t nf = sim::alloc_stats().fired - fired;
          sim::alloc_fail_at({}); sim::alloc_fail_from(0, 0);
          o.add(g_c_alloc_fail, nf);
          if (nf) { hit = true; o.add(mode == 2 ? c_window : mode == 3 ? c_all : c_single); }
          if (done) { if (nf) o.add(c_surv); compare(i, false); }
          else if (!nf && bad.empty()) { badcls = "bad-alloc-without-failure"; bad = ops[p.ops[i].kind]->name + " reported bad_alloc though no allocation failed"; }
        }
        if (!bad.empty()) break;
        if (!attempt(i)) { if (bad.empty()) { badcls = "no-recovery"; bad = ops[p.ops[i].kind]->name + " still reports bad_alloc when memory is available again"; } break; }
        compare(i, true); leakcheck(i);
      }
    });
  } else {
    std::vector<uint64_t> at; uint64_t nf = (uint64_t)p.get("nfail"), burst = (uint64_t)p.get("burst");
    for (uint64_t k = 0; k < nf && total; k++) at.push_back(1 + fr.below(total + total / 2 + 1));
    sim::alloc_fail_at(at); if (burst && total) sim::alloc_fail_from(1 + fr.below(total), burst);
    std::vector<int> fails(n); int cap = (int)(nf + burst) + 2;
    st = sim::run(sched_of(p), [&] {
      auto body = [&](int t) {
        for (size_t i = 0; i < n; i++) {
          if (p.ops[i].thr != t) continue;
          while (!attempt(i)) if (++fails[i] > cap || !bad.empty()) { if (bad.empty()) { badcls = "no-recovery"; bad = ops[p.ops[i].kind]->name + " reports bad_alloc more often than allocations fail"; } return; }
        }
      };
      std::vector<int> tid; for (int t = 1; t < T; t++) tid.push_back(sim::spawn([&, t] { body(t); }, t));
      body(0); for (int t : tid) sim::join(t);
    });
    uint64_t f = sim::alloc_stats().fired; hit = f > 0; o.add(g_c_alloc_fail, f); o.add(c_over, f);
    sim::alloc_fail_at({}); sim::alloc_fail_from(0, 0);
    if (!st.deadlock && !st.overrun && bad.empty()) {
      for (size_t i = 0; i < n; i++) compare(i, false);
      leakcheck(n - 1);
      if (bad.empty()) {   // and everything once more, by turns
        auto s2 = sim::run(quiet, [&] { turns([&](size_t i) { if (!attempt(i) && bad.empty()) { badcls = "no-recovery"; bad = ops[p.ops[i].kind]->name + " still reports bad_alloc when memory is available again"; } compare(i, true); }); });
        (void)s2; leakcheck(n - 1);
      }
    }
  }
  o.stats(st);
  if (judge_sim(o, st, p, false)) return;
  if (sim::alloc_stats().bad_free && bad.empty()) { badcls = "bad-free"; bad = "a block was freed that the library had not allocated"; }
  if (!bad.empty()) { o.fail(badcls.c_str(), "%s", bad.c_str()); return; }
  for (size_t i = 0; i < n; i++) o.mix(v[i]->out());
}
CheckDef the_check = {"C03", gen, exec, describe_ops, nullptr, 0, nullptr,
  "a run is up to 5 operations in a fresh process with cold library tables, up to 4 failing attempts each before the retry, by one caller or by up to 3 overlapping callers; compared with the same operations without failures in another fresh process; non-trivial: at least one allocation failed, or a schedule or random fault fired; distinct: by plan and executed event history"};
