// C15: timers report elapsed monotonic time.
// Up to 4 threads create, stop and restart timers while simulated time advances (from nanoseconds to
// decades, or with every event) and the wall clock is set forwards and backwards. std::cout is captured.
// Oracle: the simulated monotonic clock before and after each call.
#include "common.h"
#include "timer.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include <iostream>
#include <sstream>
static int c_meas = counter("measurements checked");
static int c_jumped = counter("measurements with a wall clock jump inside", true);
static int c_overlap = counter("measurements overlapping another timer's", true);
static int c_adv = counter("clock advances", true);
static const int SLOTS = 4;
enum { NEW, STOP, ADVANCE, JUMP };
static Plan gen(uint64_t seed, int tier) {
  Plan p; Rng r(seed); int T = 1 + (int)r.below(4), n = 4 + (int)r.below(r.chance(1, 4) ? 120 : 30);
  int names = r.chance(1, 3) ? 1 + (int)r.below(5) : 0;
  for (int i = 0; i < n; i++) {
    Op o; o.thr = (int)r.below(T); int k = (int)r.below(10); o.kind = k < 3 ? NEW : k < 6 ? STOP : k < 8 ? ADVANCE : JUMP;
    o.a[0] = (int64_t)r.below(SLOTS); o.a[1] = (int64_t)r.below(8);
    switch (r.below(7)) {   // durations around the units a printed number could be cut at
      case 0: o.a[2] = (int64_t)r.below(3000000); break;
      case 1: o.a[2] = (int64_t)r.below(100) * 1000000; break;
      case 2: o.a[2] = (int64_t)r.below(100) * 1000000 + 999999; break;
      case 3: o.a[2] = (int64_t)r.below(100000) * 1000003; break;
      case 4: o.a[2] = (int64_t)(1 + r.below(60)) * 86400000000000ll + (int64_t)r.below(1000000000); break;
      case 5: o.a[2] = (int64_t)(1ull << (r.below(58))) - (int64_t)r.below(2); break;
      case 6: o.a[2] = (int64_t)r.below(4000) * 1000000000ll + (int64_t)r.below(1000000000); break;
    }
    if (names) { o.a[4] = r.chance(3, 4); if (o.a[4]) o.a[1] = r.chance(3, 4) ? names : 2 + names; }   // few names for many timers
    o.a[3] = (r.chance(1, 2) ? -1 : 1) * (int64_t)(r.next() >> (2 + r.below(40)));
    p.ops.push_back(o);
  }
  gen_sched(p, r, 1); p.set("steady", (int64_t)(r.chance(1, 4) ? 0 : r.next() >> (2 + r.below(40)))); p.set("wall", (int64_t)(r.next() >> 2));
  if (r.chance(1, 2)) p.set("tick", (int64_t)(1 + r.below(r.chance(1, 2) ? 1000 : 1000000)));
  return p;
}
struct Capture : std::streambuf {
  std::string s;
  int overflow(int c) override { if (c != EOF) s += (char)c; return c; }
  std::streamsize xsputn(const char* p, std::streamsize n) override { s.append(p, n); return n; }
};
struct Meas { std::string name; uint64_t c0, c1, s0, s1, j0, j1; bool overlapped; };
static void exec(const Plan& p, Out& o) {
  size_t n = p.ops.size(); int T = 1; for (auto& x : p.ops) T = std::max(T, x.thr + 1);
  struct Slot { void* t = nullptr; std::string name; uint64_t c0, c1, j0; int seq; };
  std::vector<std::vector<Slot>> slot(T, std::vector<Slot>(SLOTS)); std::vector<Meas> meas; std::vector<std::string> names;
  Capture cap; sim::clock_reset((uint64_t)p.get("steady"), p.get("wall"));
  std::streambuf* old = std::cout.rdbuf(&cap); int live = 0, serial = 0;
  auto st = sim::run(sched_of(p), [&] {
    auto body = [&](int t) {
      for (size_t i = 0; i < n; i++) {
        const Op& x = p.ops[i]; if (x.thr != t) continue;
        Slot& s = slot[t][x.a[0]];
        if (x.kind == NEW && !s.t) {
          static const char* sty[] = {"timer", "cts level", "a : b", "100%d", "x", "start", "a much longer name of a timer, more than one line of a terminal would comfortably hold", "evalqI[ms]"};
          s.name = sty[x.a[1]]; if (!x.a[4]) s.name += "#" + std::to_string(serial++); names.push_back(s.name); live++;
          s.c0 = sim::clock_now(); s.j0 = sim::clock_jumps(); s.t = timer_new(s.name); s.c1 = sim::clock_now();
        } else if (x.kind == STOP && s.t) {
          Meas m; m.name = s.name; m.c0 = s.c0; m.c1 = s.c1; m.j0 = s.j0; m.overlapped = live > 1;
          m.s0 = sim::clock_now(); timer_stop(s.t); m.s1 = sim::clock_now(); m.j1 = sim::clock_jumps(); meas.push_back(m);
          if (x.a[1] > 1) { timer_free(s.t); s.t = nullptr; live--; }   // otherwise it may be stopped again later
        } else if (x.kind == ADVANCE) { if (sim::clock_now() < 1ull << 62) { sim::clock_advance((uint64_t)x.a[2]); o.add(c_adv); } sim::yield(); }
        else if (x.kind == JUMP) { sim::clock_jump_wall(x.a[3]); o.add(g_c_clock_jump); sim::yield(); }
      }
    };
    std::vector<int> tid; for (int t = 1; t < T; t++) tid.push_back(sim::spawn([&, t] { body(t); }, t));
    body(0); for (int t : tid) sim::join(t);
  });
  std::cout.rdbuf(old); o.stats(st);
  if (judge_sim(o, st, p, false)) return;
  std::vector<std::string> lines; { std::istringstream is(cap.s); std::string l; while (std::getline(is, l)) lines.push_back(l); }
  std::vector<char> used(lines.size());
  // reports are told apart by name; those of timers with the same name are matched to them so that every timer has one
  std::vector<std::vector<int>> may(meas.size()); std::vector<int> of(lines.size(), -1);
  std::vector<int64_t> val(lines.size(), -1); std::vector<std::string> who(lines.size());
  for (size_t i = 0; i < lines.size(); i++) {
    const std::string& l = lines[i]; size_t k = l.rfind(" : "); if (k == std::string::npos || l.size() < k + 8 || l.compare(l.size() - 4, 4, "[ms]")) continue;
    std::string num = l.substr(k + 3, l.size() - 7 - k); who[i] = l.substr(0, k);
    if (num.find_first_not_of("0123456789") == std::string::npos && num.size() <= 18) val[i] = (int64_t)strtoull(num.c_str(), nullptr, 10);
  }
  auto lo = [](const Meas& m) { return (int64_t)((m.s0 - m.c1) / 1000000); }; auto hi = [](const Meas& m) { return (int64_t)((m.s1 - m.c0 + 999999) / 1000000); };
  for (size_t k = 0; k < meas.size(); k++) for (size_t i = 0; i < lines.size(); i++) if (who[i] == meas[k].name && val[i] >= lo(meas[k]) && val[i] <= hi(meas[k])) may[k].push_back((int)i);
  std::function<bool(int, std::vector<char>&)> match = [&](int k, std::vector<char>& seen) {
    for (int i : may[k]) if (!seen[i]) { seen[i] = 1; if (of[i] < 0 || match(of[i], seen)) { of[i] = k; return true; } }
    return false;
  };
  for (size_t k = 0; k < meas.size(); k++) {
    auto& m = meas[k]; o.add(c_meas); if (m.j1 > m.j0) o.add(c_jumped); if (m.overlapped) o.add(c_overlap);
    std::vector<char> seen(lines.size()); if (match((int)k, seen)) continue;
    std::string other; for (size_t i = 0; i < lines.size(); i++) if (who[i] == m.name && (of[i] < 0 || other.empty())) other = lines[i];
    if (other.empty()) o.fail("no-report", "timer %s: its report is not among the printed lines", m.name.c_str());
    else o.fail("wrong-time", "timer %s: printed '%s', elapsed %lld to %lld ms%s", m.name.c_str(), other.c_str(), (long long)lo(m), (long long)hi(m), m.j1 > m.j0 ? " (the wall clock jumped)" : "");
    return;
  }
  for (size_t i = 0; i < lines.size(); i++) { used[i] = of[i] >= 0; if (used[i]) o.mix((uint64_t)val[i]); }
  for (size_t i = 0; i < lines.size(); i++) {   // nothing else looks like a report
    const std::string& l = lines[i];
    if (!used[i] && l.size() > 4 && !l.compare(l.size() - 4, 4, "[ms]")) {
      bool start = false; for (auto& nm : names) if (l == nm + " start") start = true;
      if (!start) { o.fail("stray-report", "printed '%s', which no timer measured", l.c_str()); return; }
    }
  }
}
static std::string describe(const Plan& p) {
  int c[4] = {0, 0, 0, 0}, T = 1; for (auto& x : p.ops) { c[x.kind]++; T = std::max(T, x.thr + 1); }
  return std::to_string(T) + " threads: " + std::to_string(c[0]) + " creations, " + std::to_string(c[1]) + " stops, " + std::to_string(c[2]) + " advances, " + std::to_string(c[3]) + " wall clock jumps";
}
static const char* names_[] = {"create", "stop", "advance", "wall clock jump"};
CheckDef the_check = {"C15", gen, exec, describe, names_, 4, nullptr,
  "a run is a history of up to 124 timer creations, stops, clock advances and wall clock jumps by up to 4 threads; non-trivial: at least one advance, jump, overlap or preemption; distinct: by plan and executed event history"};
