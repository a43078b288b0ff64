// C05: every encryption uses fresh full-width randomness.
// A seeded history of key generations, encryptions and switching keys by several callers, sharing one random
// source or with one each, under seeded schedules and clocks that are stuck, jump or run. Everything drawn is
// recovered from the outputs with the (known) keys. The same history is run again with another random source
// and, operation by operation, with the same draws and another plaintext.
#include "common.h"
#include "fresh.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <unordered_map>
static int c_masks = counter("mask coefficients compared");
static int c_errs = counter("error coefficients recovered");
static int c_keys = counter("keys generated");
static int c_shared = counter("encryptions by overlapping callers of one random source", true);
static int c_indep = counter("encryptions repeated with another plaintext and the same draws");
static int c_clock = counter("histories with a stuck clock", true);
static int c_flip = counter("encryptions repeated with one bit of one draw inverted", true);
static int c_hist = counter("histories repeated with another random source");
#ifndef MAXHIST
#define MAXHIST 2000
#endif
static Plan gen(uint64_t seed, int tier) {
  Plan p; Rng r(seed); auto& cat = fresh_catalog(); int T = r.chance(1, 3) ? 1 : 2 + (int)r.below(3); int style = r.chance(1, 60) ? 4 : (int)r.below(4);
  int n = style == 4 ? 400 + (int)r.below(1600) : style == 3 ? 300 : 2 + (int)r.below(style == 2 ? 60 : 20), one = (int)r.below(cat.size());
  if (style != 3 && n > MAXHIST) n = 1 + n % MAXHIST;
  std::vector<int> keys; for (size_t i = 0; i < cat.size(); i++) if (cat[i].name.find("FKey<") == 0) keys.push_back((int)i);
  if (style == 4) { std::vector<int> c; for (size_t i = 0; i < cat.size(); i++) for (const char* s : {"FEnc<64, 32>", "FEnc<61, 32>", "FEnc<130, 32>", "FEnc<64, 1>", "FSwk<32, 32>"}) if (cat[i].name == s) c.push_back((int)i); if (!c.empty()) one = c[r.below(c.size())]; }
  int64_t same = (int64_t)(r.next() >> 1); int kk = keys[r.below(keys.size())];
  for (int i = 0; i < n; i++) {
    Op o; o.thr = (int)r.below(T); o.kind = style == 3 ? kk : style == 2 || style == 4 ? one : (int)r.below(cat.size());
    o.a[0] = r.chance(1, 3) ? same : (int64_t)(r.next() >> 1);      // keys, often the same
    o.a[1] = r.chance(1, 3) ? same : (int64_t)(r.next() >> 1);      // plaintext, often the same
    o.a[2] = r.chance(1, 10); o.a[3] = (int64_t)r.below(8); o.a[4] = (int64_t)(r.next() >> 18); p.ops.push_back(o);
  }
  gen_sched(p, r, 6); p.set("rand_seed", (int64_t)(r.next() >> 1)); p.set("rand_mode", sim::R_UNIFORM);
  p.set("shared", r.chance(2, 3)); p.set("clock", (int64_t)r.below(3)); p.set("overlap", r.chance(2, 3)); p.set("garbage", (int64_t)(r.next() >> 1)); p.set("max_steps", 4000000000ll);
  if (p.get("clock") == 0) p.set("tick", 0);
  return p;
}
struct FreshRun : LibOp {   // so that in_region can run it
  Fresh* f; FreshRun(Fresh* x) : f(x) {}
  void prepare(Rng&) override {} void run() override { f->run(); } uint64_t out() override { return 0; } uint64_t in() override { return 0; } std::string verify() override { return ""; }
};
static void exec(const Plan& p, Out& o) {
  auto& cat = fresh_catalog(); size_t n = p.ops.size(); int T = 1; for (auto& x : p.ops) T = std::max(T, x.thr + 1);
  bool shared = p.get("shared"), overlap = p.get("overlap"); int ck = (int)p.get("clock");
  std::vector<Fresh*> v(n); std::vector<FreshRun*> w(n);
  sim::alloc_garbage((uint64_t)p.get("garbage"));
  auto build = [&] { for (size_t i = 0; i < n; i++) { v[i] = cat[p.ops[i].kind].make(); Rng r((uint64_t)p.ops[i].a[0]), q((uint64_t)p.ops[i].a[1]); v[i]->prepare(r, q); w[i] = new FreshRun(v[i]); } };
  std::vector<uint64_t> draws(n);
  auto history = [&](uint64_t salt, const sim::Config& cfg) {
    for (int t = 0; t < T; t++) { sim::RandSpec s = rand_of(p, t); s.seed = sim::mix(s.seed, salt); sim::set_rand(t, s); }
    sim::clock_reset(1600000000000000000ull, 0);
    auto one = [&](size_t i) {
      sim::set_op(i); if (shared) sim::set_actor(0);
      if (ck == 2 && p.ops[i].a[3] == 1) { sim::clock_jump_wall((p.ops[i].a[4] & 1) ? p.ops[i].a[4] : -p.ops[i].a[4]); o.add(g_c_clock_jump); }
      int a = shared ? 0 : p.ops[i].thr; uint64_t d0 = sim::rand_draws(a);
      if (p.ops[i].a[2]) in_region(*w[i]); else v[i]->run();
      draws[i] = sim::rand_draws(a) - d0;
    };
    return sim::run(cfg, [&] {
      if (!overlap || T == 1) { for (size_t i = 0; i < n; i++) { if (!shared) sim::set_actor(p.ops[i].thr); one(i); } return; }
      auto body = [&](int t) { for (size_t i = 0; i < n; i++) if (p.ops[i].thr == t) one(i); };
      std::vector<int> tid; for (int t = 1; t < T; t++) tid.push_back(sim::spawn([&, t] { body(t); }, t));
      body(0); for (int t : tid) sim::join(t);
    });
  };
  // the same history with another random source, in a process of its own
  size_t cap = 4096; uint64_t* alt = (uint64_t*)shared_alloc(8 * (cap + 1)); std::string cls;
  bool ok = in_child([&] {
    build(); sim::Config c; c.races = false; c.max_steps = 4000000000ull; history(0xA17, c); size_t m = 0;
    for (size_t i = 0; i < n; i++) { auto k = v[i]->mask(); int L = (v[i]->logq + 63) / 64; for (size_t j = 0; j < k.size() && m < cap; j++) if (v[i]->logq >= 60 * (L > 1 ? 1 : 1) && (L > 1 ? (int)(j % L) < v[i]->logq / 64 : v[i]->logq >= 60)) alt[1 + m++] = k[j]; }
    alt[0] = m;
  }, cls, 60);
  if (!ok) { o.fail(("repeat-" + cls).c_str(), "the history ended abnormally: %s", cls.c_str()); return; }
  build(); auto st = history(0, sched_of(p)); o.stats(st); o.add(c_hist); if (ck == 0) o.add(c_clock);
  if (judge_sim(o, st, p, false)) return;
  if (sim::rand_reseeds()) { o.fail("reseeded", "the library seeded the random source"); return; }
  bool own = !shared || !overlap || T == 1;
  // words of masks: pairwise different, all bits in use
  std::unordered_map<uint64_t, std::pair<int, int>> seen; std::set<uint64_t> rel; uint64_t ones[64] = {0}, cnt[64] = {0}, bits = 0;
  std::map<std::pair<int, int>, std::pair<std::vector<uint64_t>, uint64_t>> bitc;   // per logq: ones per bit, samples
  std::vector<std::vector<long>> errs; std::vector<int> errop; std::vector<uint64_t> eh(17); uint64_t ne = 0;
  (void)ones; (void)cnt; (void)bits;
  std::map<int, std::pair<std::vector<std::pair<int, int>>, int>> keypos; std::set<std::vector<int>> keyset;
  for (size_t i = 0; i < n; i++) {
    Fresh* f = v[i]; const char* nm = cat[p.ops[i].kind].name.c_str();
    if (overlap && shared && T > 1 && f->kind) o.add(c_shared);
    auto key = f->key();
    if (!key.empty()) {
      o.add(c_keys); auto& kp = keypos[f->N * 1000 + f->h]; kp.first.resize(f->N); kp.second++;
      for (int j = 0; j < f->N; j++) { if (key[j] > 0) kp.first[j].first++; if (key[j] < 0) kp.first[j].second++; }
      if (f->N >= 64 && !keyset.insert(key).second) { o.fail("key-reused", "operation %zu (%s) generated a key that was generated before", i, nm); return; }
    }
    if (!f->kind) continue;
    ref::Poly k = f->mask(); int L = (f->logq + 63) / 64, full = f->logq / 64;
    for (int c = 0; c < f->N; c++) for (int j = 0; j < L; j++) {
      uint64_t x = k[(size_t)c * L + j]; bool whole = j < full || (L == 1 && f->logq >= 60);
      if (!whole) continue;
      o.add(c_masks);
      auto ins = seen.insert({x, {(int)i, c}});
      if (!ins.second) { o.fail("mask-reused", "operation %zu (%s): word %d of mask coefficient %d was drawn before, by operation %d for coefficient %d", i, nm, j, c, ins.first->second.first, ins.first->second.second); return; }
      if (j && j < full) {
        uint64_t y = k[(size_t)c * L + j - 1];
        if (!rel.insert(x ^ y).second || !rel.insert((x - y) * 3 + 1).second) { o.fail("mask-correlated", "operation %zu (%s): words %d and %d of mask coefficient %d are related as in another coefficient", i, nm, j - 1, j, c); return; }
      }
    }
    auto& bc = bitc[{f->logq, f->kind == 2}]; bc.first.resize(f->logq); bc.second += f->N;
    for (int c = 0; c < f->N; c++) for (int b = 0; b < f->logq; b++) bc.first[b] += k[(size_t)c * L + b / 64] >> (b % 64) & 1;
    std::vector<long> e = f->err();
    for (long x : e) { if (x < -8 || x > 8) { o.fail("error-size", "operation %zu (%s): error %ld", i, nm, x); return; } eh[x + 8]++; ne++; }
    o.add(c_errs, e.size());
    if (f->N >= 32) {
      for (size_t q = 0; q < errs.size(); q++) {
        size_t m = std::min(errs[q].size(), e.size()); bool eq = true, ng = true;
        for (size_t c = 0; c < m; c++) { eq = eq && errs[q][c] == e[c]; ng = ng && errs[q][c] == -e[c]; }
        if (eq || ng) { o.fail("error-reused", "operation %zu (%s) has the errors of operation %d%s", i, nm, errop[q], ng ? ", negated" : ""); return; }
      }
      for (int s = 1; s <= f->N / 2; s++) {
        bool eq = true; for (int c = 0; c + s < f->N; c++) eq = eq && labs(e[c]) == labs(e[c + s]);
        if (eq) { o.fail("error-repeated", "operation %zu (%s): the errors repeat after %d coefficients", i, nm, s); return; }
      }
      errs.push_back(e); errop.push_back((int)i);
    }
    uint64_t need = ((uint64_t)f->N * f->logq + 4 * f->N) / 31;
    if (own && draws[i] < need) { o.fail("too-few-draws", "operation %zu (%s) drew %llu values; its mask and error need at least %llu", i, nm, (unsigned long long)draws[i], (unsigned long long)need); return; }
    o.mix(ref::hash(k));
  }
  for (auto& x : bitc) {
    double m = (double)x.second.second; if (m < 64) continue;
    for (size_t b = 0; b < x.second.first.size(); b++) {
      double h = (double)x.second.first[b];
      if (h == 0 || h == m) { o.fail("mask-bit-stuck", "bit %zu of all %g masks modulo 2^%d is %d", b, m, x.first.first, h != 0); return; }
      if (m >= 256 && fabs(h - m / 2) > 4.5 * sqrt(m)) { o.fail("mask-bit-biased", "bit %zu of the masks modulo 2^%d is set %g times in %g", b, x.first.first, h, m); return; }
    }
  }
  if (ne >= 640) for (int x = 0; x < 17; x++) if (!eh[x]) { o.fail("error-range", "no error is %d among %llu", x - 8, (unsigned long long)ne); return; }
  for (auto& x : keypos) {
    int N = (int)x.second.first.size(), h = x.first % 1000; double miss = N * 2 * pow(1 - h / (2.0 * N), x.second.second);
    if (miss > 1e-12) continue;
    for (int j = 0; j < N; j++) if (!x.second.first[j].first || !x.second.first[j].second) { o.fail("key-position", "coefficient %d of %d keys of degree %d is never %s", j, x.second.second, N, x.second.first[j].first ? "-1" : "+1"); return; }
  }
  for (size_t j = 0; j < alt[0]; j++) { auto q = seen.find(alt[1 + j]); if (q != seen.end()) { o.fail("mask-independent-of-source", "operation %d draws the same mask word from another random source", q->second.first); return; } }
  // the same draws, another plaintext
  Rng pick_(sim::mix((uint64_t)p.get("rand_seed"), 99)); int tested = 0;
  for (size_t k = 0; k < n && tested < 4; k++) {
    size_t i = pick_.below(n); if (!v[i]->kind) continue;
    tested++; Fresh* f[2]; uint64_t d[2];
    for (int s = 0; s < 2; s++) {
      f[s] = cat[p.ops[i].kind].make(); Rng r((uint64_t)p.ops[i].a[0]), q(sim::mix((uint64_t)p.ops[i].a[1], s)); f[s]->prepare(r, q);
      sim::RandSpec sp; sp.seed = sim::mix((uint64_t)p.get("rand_seed"), i); sim::set_rand(0, sp);
      sim::Config c = sched_of(p); c.policy = sim::SERIAL; c.replay = false; c.races = false;
      sim::run(c, [&] { sim::set_actor(0); f[s]->run(); }); d[s] = sim::rand_draws(0);
    }
    o.add(c_indep); const char* nm = cat[p.ops[i].kind].name.c_str(); int Q = f[0]->logq;
    if (d[0] != d[1]) { o.fail("draws-depend-on-plaintext", "%s draws %llu values for one plaintext, %llu for another", nm, (unsigned long long)d[0], (unsigned long long)d[1]); return; }
    if (f[0]->mask() != f[1]->mask()) { o.fail("mask-depends-on-plaintext", "%s: with the same draws the masks of two plaintexts differ", nm); return; }
    if (ref::sub(f[0]->body(), f[1]->body(), Q) != ref::sub(f[0]->plain(), f[1]->plain(), Q)) { o.fail("body-difference", "%s: with the same draws two encryptions do not differ by the plaintext difference", nm); return; }
    // one bit of one draw is inverted: no two words of the mask, and no two errors, may depend on it
    if (f[0]->kind == 3 || f[0]->N > 512 || tested > 2) continue;
    ref::Poly m0 = f[0]->mask(); std::vector<long> e0 = f[0]->err(); int L = (Q + 63) / 64, wide = 0; uint64_t at = 0; std::string who;
    for (int t = 0; t < 12; t++) {
      Fresh* g = cat[p.ops[i].kind].make(); Rng r((uint64_t)p.ops[i].a[0]), q(sim::mix((uint64_t)p.ops[i].a[1], 0)); g->prepare(r, q);
      sim::RandSpec sp; sp.seed = sim::mix((uint64_t)p.get("rand_seed"), i); sp.flip_at = pick_.below(d[0]); sp.flip = 1u << pick_.below(31); sim::set_rand(0, sp);
      sim::Config c = sched_of(p); c.policy = sim::SERIAL; c.replay = false; c.races = false;
      sim::run(c, [&] { sim::set_actor(0); g->run(); });
      o.add(c_flip); if (sim::rand_draws(0) != d[0]) { delete g; continue; }     // a draw that was rejected and made again
      ref::Poly m = g->mask(); std::vector<long> e = g->err(); int k1 = 0; std::string w;
      for (size_t x = 0; x < m.size(); x++) if (m[x] != m0[x]) { if (++k1 <= 2) w += (k1 > 1 ? " and word " : "word ") + std::to_string(x % L) + " of mask coefficient " + std::to_string(x / L); }
      for (size_t x = 0; x < e.size(); x++) if (e[x] != e0[x]) { if (++k1 <= 2) w += (k1 > 1 ? " and error " : "error ") + std::to_string(x); }
      if (k1 > 1) { wide++; at = sp.flip_at; who = w; }
      delete g;
    }
    if (wide >= 3) { o.fail("draw-shared", "%s: draw %llu decides %s (%d of 12 draws tried decide more than one)", nm, (unsigned long long)at, who.c_str(), wide); return; }
  }
}
static std::string describe(const Plan& p) {
  auto& cat = fresh_catalog(); std::map<std::string, int> c; for (auto& o : p.ops) c[cat[o.kind].name]++;
  std::string s; for (auto& x : c) s += (s.empty() ? "" : ", ") + std::to_string(x.second) + " x " + x.first;
  return s + (p.get("overlap") ? "; overlapping callers" : "") + (p.get("shared") ? "; one random source" : "");
}
CheckDef the_check = {"C05", gen, exec, describe, nullptr, 0, nullptr,
  "a run is a history of up to 300 encryptions, switching keys and key generations by up to 4 callers; everything drawn is recovered from the outputs; non-trivial: at least one preemption, overlapping caller of one source, clock fault or short team; distinct: by plan and executed event history"};
