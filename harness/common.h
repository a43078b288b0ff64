// Shared by the check sources: operations by catalogue index, common judgements.
#pragma once
#include "check.h"
#include "op.h"
#include <cstdio>
#ifndef GROUPS
#define GROUPS "ring"
#endif
#include <algorithm>
#ifndef BURST
#define BURST 150
#endif
#ifndef BURSTS
#define BURSTS 300
#endif
#ifndef BUDGET
#define BUDGET 100
#endif
using sim::Rng;
// Related operations: one repeats the inputs of an earlier one, except for a stretch of the draws they are made from.
inline void relate(Op& o, const Op& q, Rng& r) {
  o.a[0] = q.a[0]; o.a[6] = r.chance(1, 4) ? 0 : (int64_t)r.below(1ull << r.below(12)); o.a[7] = r.chance(1, 2) ? (int64_t)1 << 40 : 1 + (int64_t)r.below(1ull << r.below(10));
}
// how often an operation is made in a row (bursts): histories long enough for whatever counts, fills up or wraps around
inline int64_t burst(const Factory* f, Rng& r, int64_t budget) {
  int64_t m = budget / (f->cost > 0 ? f->cost : 1); if (m < 20 || !r.chance(1, BURST)) return 0;
  return (int64_t)r.below(r.chance(1, 2) ? std::min<int64_t>(m, 300) : m);
}
inline std::string family(const Factory* f) { return f->name.substr(0, f->name.find('<')); }
inline int kin(const std::vector<const Factory*>& ops, int k, Rng& r) {   // another parameter set of the same operation
  std::vector<int> v; std::string f = family(ops[k]); for (size_t i = 0; i < ops.size(); i++) if (family(ops[i]) == f) v.push_back((int)i);
  return v[r.below(v.size())];
}
inline Rng rng_of(const Op& o) { Rng r((uint64_t)o.a[0]); if (o.a[7]) r.fork((uint64_t)o.a[6], (uint64_t)o.a[7]); return r; }
inline std::string describe_ops(const Plan& p) {
  auto ops = pick(GROUPS); std::string s;
  for (auto& o : p.ops) { if (!s.empty()) s += " | "; s += "[" + std::to_string(o.thr) + "] "; s += (size_t)o.kind < ops.size() ? ops[o.kind]->name : std::to_string(o.kind); }
  static const char* pol[] = {"serial", "random", "PCT", "static-biased", "starve", "round-robin"};
  s += "; " + std::string(pol[p.get("policy")]) + " schedule, mean " + std::to_string(p.get("mean")) + ", team " + std::to_string(p.get("tfix")) + "/" + std::to_string(p.get("tmax")) + (p.get("vary") ? ", asked for anew by each operation" : "");
  if (p.get("rand_mode", -1) >= 0) s += ", random stream mode " + std::to_string(p.get("rand_mode")) + " prefix " + std::to_string(p.get("rand_prefix"));
  return s;
}
// deadlock, runaway, race; true: a violation was reported
inline bool judge_sim(Out& o, const sim::Stats& st, const Plan& p, bool races) {
  if (st.deadlock) { o.fail("deadlock", "all simulated threads are blocked"); return true; }
  if (st.overrun) { o.fail("step-budget-exceeded", "no end after %llu events", (unsigned long long)st.steps); return true; }
  if (races && p.get("races") && st.race.found) { o.fail("data-race", "%s", st.race.what.c_str()); return true; }
  return false;
}
void in_region(LibOp& op);   // run it inside a parallel region of the caller's own (region.cpp)
