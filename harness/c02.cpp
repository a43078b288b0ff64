// C02: concurrent callers get the results they would get alone.
// Phases of one run (all in processes whose library statics are cold):
//   alone        each operation, in its caller's order, with nothing overlapping (separate child process)
//   overlapping  the same operations with the same random streams, one thread per caller, seeded interleaving
//   aftermath    the same operations again, alone, in the process in which the overlap happened
#include "common.h"
#include <algorithm>
static int c_guard = counter("threads that waited for another one's first use");
static int c_over = counter("operations run overlapping");
static int c_after = counter("operations re-run after the overlap");
static int c_first = counter("same operation started by several callers at first use");
static int c_share = counter("operations whose inputs another caller was using too");
static const int MAXO = 12;
static Plan gen(uint64_t seed, int tier) {
  Plan p; Rng r(seed); auto ops = pick(GROUPS);
  int T = 2 + (int)(r.chance(1, 3) ? r.below(5) : r.below(2)); int n = T + (int)r.below(4); if (n > MAXO) n = MAXO;
  int style = (int)r.below(3);   // 0 mixed, 1 everybody starts with the same operation, 2 one family only
  std::vector<int> fam;
  if (style == 2) {
    std::string f = ops[r.below(ops.size())]->name; f = f.substr(0, f.find('<'));
    for (size_t i = 0; i < ops.size(); i++) if (!ops[i]->name.compare(0, f.size() + 1, f + "<")) fam.push_back((int)i);
  }
  int64_t cost = 0; int same = (int)r.below(ops.size());
  while (ops[same]->cost * T > BUDGET) same = (int)r.below(ops.size());
  for (int i = 0; i < n; i++) {
    Op o; o.thr = i < T ? i : (int)r.below(T);
    if (style == 1 && i < T) o.kind = same; else if (style == 2) o.kind = fam[r.below(fam.size())]; else o.kind = (int)r.below(ops.size());
    int twin = i && r.chance(1, 3) ? (int)r.below(p.ops.size()) : -1;   // the same operation on the very same inputs
    if (twin >= 0 && p.ops[twin].thr != o.thr) o.kind = p.ops[twin].kind; else twin = -1;
    if (i && cost + ops[o.kind]->cost > BUDGET) continue;
    cost += ops[o.kind]->cost;
    o.a[0] = (int64_t)(r.next() >> 1); o.a[1] = (int64_t)(r.next() >> 1); o.a[2] = r.chance(1, 10); if (twin >= 0) { o.a[0] = p.ops[twin].a[0]; o.a[3] = 1; }
    p.ops.push_back(o);
  }
  gen_sched(p, r, 6); gen_rand(p, r, 200);
  if (r.chance(1, 2)) p.set("pstatic", 64 + (int64_t)r.below(900));
  p.set("races", 1); p.set("garbage", (int64_t)(r.next() >> 1));
  p.set("max_steps", 4000000000ll);
  return p;
}
static void exec(const Plan& p, Out& o) {
  auto ops = pick(GROUPS); size_t n = p.ops.size();
  int T = 1; for (auto& x : p.ops) T = std::max(T, x.thr + 1);
  std::vector<LibOp*> v; int shared = 0;
  auto fresh = [&] {
    v.clear(); std::vector<size_t> at; shared = 0; box_track(true);
    for (auto& x : p.ops) { at.push_back(box_mark()); LibOp* l = ops[x.kind]->make(); Rng r((uint64_t)x.a[0]); l->prepare(r); l->prefill((uint64_t)x.a[1]); v.push_back(l); }
    at.push_back(box_mark());
    for (size_t j = 1; j < n; j++) if (p.ops[j].a[3]) for (size_t i = 0; i < j; i++)
      if (p.ops[i].kind == p.ops[j].kind && p.ops[i].a[0] == p.ops[j].a[0]) { if (at[i + 1] - at[i] == at[j + 1] - at[j] && box_share(*v[i], at[i], at[i + 1], at[j])) shared++; break; }
    for (int t = 0; t < T; t++) sim::set_rand(t, rand_of(p, t));
  };
  auto caller = [&](int t) {
    for (size_t i = 0; i < n; i++) if (p.ops[i].thr == t) { sim::set_op(i); if (p.ops[i].a[2]) in_region(*v[i]); else v[i]->run(); }
  };
  auto alone = [&] {
    sim::Config c = sched_of(p); c.policy = sim::SERIAL; c.replay = false; c.races = false;
    sim::run(c, [&] { for (int t = 0; t < T; t++) { sim::set_actor(t); caller(t); } });
  };
  struct Sh { uint64_t out[MAXO], draws[MAXO], in[MAXO]; char err[MAXO][200]; };
  Sh* sh = (Sh*)shared_alloc(sizeof(Sh)); std::string cls;
  sim::alloc_garbage((uint64_t)p.get("garbage"));
  bool ok = in_child([&] {
    fresh(); for (size_t i = 0; i < n; i++) sh->in[i] = v[i]->in();
    alone();
    for (size_t i = 0; i < n; i++) { sh->out[i] = v[i]->out(); snprintf(sh->err[i], 200, "%s", v[i]->verify().c_str()); }
    for (int t = 0; t < T; t++) sh->draws[t] = sim::rand_draws(t);
  }, cls, 60);
  if (!ok) { o.fail(("alone-" + cls).c_str(), "the operations run alone ended abnormally: %s", cls.c_str()); return; }
  auto compare = [&](const char* when) {
    for (size_t i = 0; i < n; i++) {
      std::string e = v[i]->verify();
      if (v[i]->out() != sh->out[i]) { o.fail("differs-from-alone", "%s: operation %zu (%s by caller %d) differs from its result alone%s%s", when, i, ops[p.ops[i].kind]->name.c_str(), p.ops[i].thr, e.empty() ? "" : "; ", e.c_str()); return false; }
      if (!e.empty() && !sh->err[i][0]) { o.fail("wrong-result", "%s: %s", when, e.c_str()); return false; }
      if (v[i]->in() != sh->in[i]) { o.fail("input-changed", "%s: operation %zu (%s) changed an input", when, i, ops[p.ops[i].kind]->name.c_str()); return false; }
    }
    for (int t = 0; t < T; t++) if (sim::rand_draws(t) != sh->draws[t]) { o.fail("draws-differ", "%s: caller %d drew %llu random values, alone %llu", when, t, (unsigned long long)sim::rand_draws(t), (unsigned long long)sh->draws[t]); return false; }
    return true;
  };
  fresh();
  auto st = sim::run(sched_of(p), [&] {
    std::vector<int> tid;
    for (int t = 1; t < T; t++) tid.push_back(sim::spawn([&, t] { caller(t); }, t));
    caller(0);
    for (int t : tid) sim::join(t);
  });
  o.stats(st); o.add(c_guard, st.guard_waits); o.add(c_over, n); o.add(c_share, shared);
  if (T > 1 && n >= 2 && p.ops[0].kind == p.ops[1].kind) o.add(c_first);
  for (int t = 0; t < T; t++) o.add(g_c_rand_degraded, sim::rand_degraded(t));
  if (judge_sim(o, st, p, true) || !compare("overlapping")) return;
  for (size_t i = 0; i < n; i++) o.mix(v[i]->out());
  fresh(); alone(); o.add(c_after, n);
  compare("after the overlap");
}
CheckDef the_check = {"C02", gen, exec, describe_ops, nullptr, 0, nullptr,
  "a run is 2-12 operations by 2-6 caller threads in a process with cold library statics, under a seeded interleaving, worker teams, random streams; compared with the same operations run alone in another process and re-run after the overlap; non-trivial: at least one preemption or short team; distinct: by plan and executed event history"};
