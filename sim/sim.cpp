// Deterministic simulator runtime. Compiled without instrumentation and linked
// into every harness. It stands in for
//   - the OpenMP runtime (libgomp entry points and omp_* functions),
//   - the thread scheduler: caller threads and OpenMP workers are real threads,
//     parked and released one at a time; every instrumented memory access and
//     every synchronisation call is a scheduling point,
//   - mutexes, condition variables, once flags, guards of function-local statics,
//   - libc's random sources, operator new/delete and malloc, and all clocks.
// Nothing here reads a real clock, a real random source or an address to decide anything.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"

#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <random>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

extern "C" char __data_start, _end;

namespace sim {

uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0xD6E8FEB86659FD93ull + 0x2545F4914F6CDD1Dull));
  r.next();
  return r.next() ^ b;
}

// raw allocation for the runtime itself: never tracked, never failed
template <class T> struct RawAlloc {
  typedef T value_type;
  RawAlloc() {}
  template <class U> RawAlloc(const RawAlloc<U>&) {}
  T* allocate(size_t n);
  void deallocate(T* p, size_t);
  template <class U> bool operator==(const RawAlloc<U>&) const { return true; }
  template <class U> bool operator!=(const RawAlloc<U>&) const { return false; }
};
}  // namespace sim
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
namespace sim {
template <class T> T* RawAlloc<T>::allocate(size_t n) { return (T*)__libc_malloc(n * sizeof(T)); }
template <class T> void RawAlloc<T>::deallocate(T* p, size_t) { __libc_free(p); }
template <class T> using RVec = std::vector<T, RawAlloc<T>>;

// ------------------------------------------------------------------ state
static const int MAXT = 64;
struct VC {
  uint32_t c[MAXT];
  VC() { memset(c, 0, sizeof c); }
  void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

struct WorkShare {
  long next = 0, end = 0, incr = 1, chunk = 1; int kind = 0; bool init = false; bool single_taken = false;
  void* copy = nullptr; bool up = true; unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1;
  int sect_next = 0, sect_count = 0;
  bool ordered = false, ordset = false; long ord = 0;   // first iteration of the chunk whose turn it is
};
struct Team {
  int size = 1, level = 0; int arrived = 0; uint64_t gen = 0; VC vc; int done = 0; int master = 0; size_t prepared = 0;
  std::deque<WorkShare, RawAlloc<WorkShare>> ws;
};
struct TeamCtx { Team* team; int num; size_t ws; long cur; long c0 = 0, c1 = 0; bool inchunk = false; };  // per thread, stacked

enum State { RUNNABLE, BLOCKED, PARKED, DONE };
struct Thread {
  int id = 0; State st = RUNNABLE; pthread_t pt{}; std::atomic<int> go{0};
  VC vc; RVec<TeamCtx> ctx; int actor = 0; uint64_t op = 0; int64_t prio = 0;
  std::function<void()>* fn = nullptr;                 // spawned thread body
  void (*job)(void*) = nullptr; void* data = nullptr; Team* jteam = nullptr; int jnum = 0;   // OpenMP worker
  RVec<int> pool; int poolused = 0;
  int nth = 0;                                         // omp_set_num_threads; 0: the default, tmax
  bool alloc_track = false; bool finished = false; void* retval = nullptr;
  void* (*start)(void*) = nullptr; void* sarg = nullptr; bool detached = false;
  VC exitvc;
  struct Dtor { void (*f)(void*); void* obj; };
  RVec<Dtor> dtors; bool quit = false;                 // destructors of thread_local objects
};

static bool g_on = false;
static Thread* g_cur = nullptr;
static Thread* g_thr[MAXT];
static int g_nthr = 0;
static Config g_cfg;
static Rng g_rng(1);
static Stats g_st;
static uint64_t g_step = 0, g_next = ~0ull;
static size_t g_ri = 0;
static SchedSink g_sink;
static int64_t g_lowprio = 0;
static int g_starve = -1;
static uintptr_t g_s0 = 0, g_s1 = 0;
static uint64_t g_tick = 1;
static uint64_t g_clock = 1000000000ull; static int64_t g_wall = 1700000000ll * 1000000000ll; static uint64_t g_jumps = 0;
static uint64_t g_region = 0;
static thread_local Thread* tl_self = nullptr;
static int g_deadlock_futex = 0;

static void futex_wait(std::atomic<int>* p, int v) { syscall(SYS_futex, (int*)p, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(std::atomic<int>* p) { syscall(SYS_futex, (int*)p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static inline void hash_in(uint64_t v) { g_st.hash = (g_st.hash ^ v) * 0x100000001B3ull; g_st.hash ^= g_st.hash >> 29; }
uint64_t step() { return g_step; }
bool active() { return g_on; }
// the harness at work in the middle of a run: none of it is simulated
void pause(bool p) {
  static Thread* saved = nullptr;
  if (p && g_cur) { saved = g_cur; g_cur = nullptr; g_on = false; }
  else if (!p && saved) { g_cur = saved; saved = nullptr; g_on = true; }
}
int self() { return g_cur ? g_cur->id : 0; }
void set_sink(const SchedSink& s) { g_sink = s; }
void set_actor(int a) { if (g_cur) g_cur->actor = a; }
static bool g_full = false;
void full_teams(bool on) { g_full = on; }
void set_op(uint64_t o) {
  if (!g_cur) return;
  g_cur->op = o;
  // callers may change the number of threads they ask for between operations
  if (g_cfg.vary && g_cur->ctx.size() < 2) { uint64_t h = mix(mix(g_cfg.seed, 0x0E7 + o), (uint64_t)g_cur->actor); g_cur->nth = g_full || h % 3 == 0 ? 0 : 1 + (int)((h >> 8) % g_cfg.tmax); }
}
uint64_t current_op() { return g_cur ? g_cur->op : 0; }
double real_time() {
  timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// ------------------------------------------------------------------ scheduling
static uint64_t draw_gap() {
  uint64_t m = g_cfg.mean ? g_cfg.mean : 1;
  // geometric-like: uniform in [1, 2m], with occasional short and long gaps
  uint64_t k = g_rng.below(8);
  if (k == 0) return 1 + g_rng.below(4);
  if (k == 1) return 1 + g_rng.below(6 * m);
  return 1 + g_rng.below(2 * m);
}
static const uint64_t FAIR = 4000000;
static void plan_next() {
  if (g_cfg.replay) {
    while (g_ri < g_cfg.sched.size() && g_cfg.sched[g_ri].step <= g_step) g_ri++;
    g_next = g_ri < g_cfg.sched.size() ? g_cfg.sched[g_ri].step : ~0ull;
  } else if (g_cfg.policy == SERIAL) g_next = g_step + FAIR;   // no schedule keeps a thread waiting for ever: somebody may be spinning
  else g_next = g_step + draw_gap();
  if (g_next > g_cfg.max_steps) g_next = g_cfg.max_steps;
}
static void record(uint64_t s, int tid) {
  g_st.sched_hash = mix(g_st.sched_hash, s * 64 + tid);
  if (g_sink.n && *g_sink.n < g_sink.cap) { g_sink.e[*g_sink.n] = SchedEntry{s, tid}; *g_sink.n = *g_sink.n + 1; }
}
static void transfer(Thread* t) {   // give the token to t and wait to get it back
  Thread* me = tl_self;
  if (t == me) { g_cur = me; return; }
  g_st.switches++;
  g_cur = t;
  hash_in(0x5157000000ull + t->id);
  t->go.store(1, std::memory_order_release);
  futex_wake(&t->go);
  if (me) {
    while (me->go.load(std::memory_order_acquire) == 0) futex_wait(&me->go, 0);
    me->go.store(0, std::memory_order_relaxed);
  }
}
[[noreturn]] static void die_stuck(bool deadlock);
// choose among the runnable threads; cur_ok: the current thread may go on
static Thread* choose(bool cur_ok, bool forced) {
  Thread* r[MAXT]; int n = 0;
  for (int i = 0; i < g_nthr; i++)
    if (g_thr[i]->st == RUNNABLE && (cur_ok || g_thr[i] != g_cur)) r[n++] = g_thr[i];
  if (!n) return nullptr;
  if (g_cfg.replay) {
    if (g_ri < g_cfg.sched.size() && g_cfg.sched[g_ri].step == g_step) {
      int want = g_cfg.sched[g_ri].tid;
      for (int i = 0; i < n; i++) if (r[i]->id == want) return r[i];
    }
    if (cur_ok && g_cur->st == RUNNABLE) return g_cur;
    return r[0];
  }
  if (n == 1) return r[0];
  switch (g_cfg.policy) {
    case PCT: {
      Thread* b = r[0];
      for (int i = 1; i < n; i++) if (r[i]->prio > b->prio) b = r[i];
      return b;
    }
    case STARVE: {
      int k = (int)g_rng.below(n);
      if (r[k]->id == g_starve && g_step < FAIR) k = (k + 1) % n;
      return r[k];
    }
    case ROUND_ROBIN: {
      int c = g_cur ? g_cur->id : -1;
      for (int i = 0; i < n; i++) if (r[i]->id > c) return r[i];
      return r[0];
    }
    default: return r[g_rng.below(n)];
  }
}
// a scheduling point at which the current thread may lose the processor
static void preempt() {
  if (g_step >= g_cfg.max_steps) die_stuck(false);
  Thread* me = g_cur;
  if (!g_cfg.replay && g_cfg.policy == PCT) me->prio = --g_lowprio;
  Thread* t = choose(true, false);
  if (t && t != me) { record(g_step, t->id); g_st.preemptions++; plan_next(); transfer(t); return; }
  plan_next();
}
static inline void tickp(uint64_t ev) {
  ++g_step; g_clock += g_tick;
  hash_in(((uint64_t)g_cur->id << 8) | ev);
}
// synchronisation point: always a candidate for a switch
static void sync_point(uint64_t ev) {
  if (!g_on || !g_cur) return;
  tickp(ev); g_st.sync_ops++;
  bool go = g_step >= g_next;
  if (!go && !g_cfg.replay && g_cfg.policy != SERIAL && g_cfg.policy != PCT) go = g_rng.below(4) == 0;
  if (go) preempt();
}
// the current thread waits for nothing in particular (a yield, a sleep): the others go first
static void give_way(uint64_t ev) {
  if (!g_on || !g_cur) return;
  tickp(ev); g_st.sync_ops++;
  if (g_step >= g_cfg.max_steps) die_stuck(false);
  Thread* me = g_cur;
  if (!g_cfg.replay && g_cfg.policy == PCT) me->prio = --g_lowprio;
  Thread* t = g_cfg.replay ? choose(true, false) : choose(g_rng.below(8) == 0, false);
  if (t && t != me) { record(g_step, t->id); g_st.preemptions++; plan_next(); transfer(t); }
  else if (g_step >= g_next) plan_next();
}
// the current thread cannot go on: somebody else must
static void block_here() {
  Thread* me = g_cur;
  tickp(0xB1);
  Thread* t = choose(me->st == RUNNABLE, true);
  if (!t) die_stuck(true);
  bool many = false; int n = 0;
  for (int i = 0; i < g_nthr; i++) if (g_thr[i]->st == RUNNABLE) n++;
  many = n > 1;
  if (many) record(g_step, t->id);
  if (g_step >= g_next) plan_next();
  transfer(t);
}
static void wake(Thread* t) { if (t->st == BLOCKED) t->st = RUNNABLE; }
static std::function<void(bool)> g_on_stuck;
[[noreturn]] static void die_stuck(bool deadlock) {
  // nothing can run any more, or the step budget is used up: report through the exit code
  _exit(deadlock ? 83 : 84);
}

// ------------------------------------------------------------------ race detection
struct Slot { uint32_t clk; uint8_t tid, mask, flags; uint8_t used; void* pc; };  // flags: 1 write, 2 atomic
struct Granule { Slot s[4]; };
struct Page { Granule g[512]; };
struct PageTab {
  struct Ent { uintptr_t key; Page* p; };
  Ent* e = nullptr; size_t cap = 0, n = 0; uintptr_t lastk = ~0ul; Page* lastp = nullptr;
  Page* get(uintptr_t k, bool create) {
    if (k == lastk) return lastp;
    if (!e) { if (!create) return nullptr; grow(4096); }
    size_t h = (k * 0x9E3779B97F4A7C15ull) >> 20;
    for (;; h++) {
      Ent& x = e[h & (cap - 1)];
      if (x.p && x.key == k) { lastk = k; lastp = x.p; return x.p; }
      if (!x.p) {
        if (!create) return nullptr;
        if (n * 2 > cap) { grow(cap * 2); return get(k, create); }
        x.key = k; x.p = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        n++; lastk = k; lastp = x.p; return x.p;
      }
    }
  }
  void forget() { for (size_t i = 0; i < cap; i++) if (e[i].p) madvise(e[i].p, sizeof(Page), MADV_DONTNEED); }
  void grow(size_t c) {
    Ent* old = e; size_t oc = cap;
    e = (Ent*)mmap(nullptr, c * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); cap = c; n = 0;
    for (size_t i = 0; i < oc; i++) if (old[i].p) {
      size_t h = (old[i].key * 0x9E3779B97F4A7C15ull) >> 20;
      while (e[h & (cap - 1)].p) h++;
      e[h & (cap - 1)] = old[i]; n++;
    }
  }
};
static PageTab g_pages;

static void race_found(uintptr_t a, const Slot& o, int flags, void* pc) {
  if (g_st.race.found) return;
  g_st.race.found = true;
  char b[256];
  const char* where = (a >= g_s0 && a < g_s1) ? "static storage" : "heap or stack";
  snprintf(b, sizeof b, "%s%s at pc %p by thread %d conflicts with %s%s at pc %p by thread %d on %s",
           flags & 2 ? "atomic " : "", flags & 1 ? "write" : "read", pc, g_cur->id, o.flags & 2 ? "atomic " : "",
           o.flags & 1 ? "write" : "read", o.pc, o.tid, where);
  g_st.race.what = b;
}
static void race_check(uintptr_t a, size_t size, int flags, void* pc) {
  Thread* me = g_cur;
  uintptr_t end = a + size;
  while (a < end) {
    uintptr_t g = a & ~7ul;
    uintptr_t lim = g + 8 < end ? g + 8 : end;
    unsigned m = ((1u << (lim - a)) - 1) << (a - g);
    Granule& gr = g_pages.get(g >> 12, true)->g[(g >> 3) & 511];
    int put = -1, empty = -1, old = -1;
    for (int i = 0; i < 4; i++) {
      Slot& s = gr.s[i];
      if (!s.used) { if (empty < 0) empty = i; continue; }
      bool hb = s.tid == me->id || s.clk <= me->vc.c[s.tid];
      if (s.mask & m) {
        if (!hb && ((flags | s.flags) & 1) && !(flags & s.flags & 2)) race_found(a, s, flags, pc);
        if (hb && ((s.mask & ~m) == 0) && ((flags & 1) || !(s.flags & 1)) && (!(flags & 2) || (s.flags & 2))) put = i;
      }
      if (hb) old = i;
    }
    if (put < 0) put = empty;
    if (put < 0) put = old;
    if (put < 0) put = (int)(g_step & 3);
    gr.s[put] = Slot{me->vc.c[me->id], (uint8_t)me->id, (uint8_t)m, (uint8_t)flags, 1, pc};
    a = lim;
  }
}
static void race_forget(uintptr_t a, size_t size) {
  if (!g_on || !g_cfg.races) return;
  for (uintptr_t g = a & ~7ul; g < a + size; g += 8) {
    Page* p = g_pages.get(g >> 12, false);
    if (!p) { g |= 4095 & ~7ul; continue; }
    memset(&p->g[(g >> 3) & 511], 0, sizeof(Granule));
  }
}
static std::unordered_map<uintptr_t, VC, std::hash<uintptr_t>, std::equal_to<uintptr_t>,
                          RawAlloc<std::pair<const uintptr_t, VC>>>* g_sync;
static VC& sync_of(const void* a) { return (*g_sync)[(uintptr_t)a]; }
static void bump() { g_cur->vc.c[g_cur->id]++; }
static void acquire(const void* a) { if (g_on && g_cur) g_cur->vc.join(sync_of(a)); }
static void release_(const void* a, bool replace = false) {
  if (!g_on || !g_cur) return;
  VC& v = sync_of(a);
  if (replace) v = g_cur->vc; else v.join(g_cur->vc);
  bump();
}

static inline void access(void* p, size_t size, int flags, void* pc) {
  if (!g_cur) return;
  tickp((flags << 4) | (size & 15));
  uintptr_t a = (uintptr_t)p;
  if (__builtin_expect(g_step >= g_next, 0)) preempt();
  else if (g_cfg.pstatic && a - g_s0 < g_s1 - g_s0 && !g_cfg.replay) {
    if (g_rng.below(1024) < (uint64_t)g_cfg.pstatic) { g_st.static_preempt++; preempt(); }
  }
  if (g_cfg.races) race_check(a, size, flags, pc);
}

// ------------------------------------------------------------------ threads
static size_t g_stack = 192u << 20;
static pthread_t real_create(void* (*f)(void*), void* arg) {
  typedef int (*F)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  static F real = nullptr;   // no initialiser that needs a guard: this runs inside the simulation
  if (!real) real = (F)dlsym(RTLD_NEXT, "pthread_create");
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, g_stack);
  pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
  pthread_t t;
  if (real(&t, &at, f, arg)) { fprintf(stderr, "sim: cannot create a thread\n"); _exit(85); }
  pthread_attr_destroy(&at);
  return t;
}
static void park_until_go(Thread* t) {
  while (t->go.load(std::memory_order_acquire) == 0) futex_wait(&t->go, 0);
  t->go.store(0, std::memory_order_relaxed);
}
static void finish_current() {   // the current thread has nothing more to do, hand over for good
  Thread* me = g_cur;
  me->finished = true; me->exitvc = me->vc; me->st = DONE;
  for (int i = 0; i < g_nthr; i++)   // joiners re-check
    if (g_thr[i]->st == BLOCKED) g_thr[i]->st = RUNNABLE;
}
// what the end of a thread does: its thread_local objects go, and so do its OpenMP workers and theirs
static void end_thread(Thread* me) {
  while (!me->dtors.empty()) { Thread::Dtor d = me->dtors.back(); me->dtors.pop_back(); d.f(d.obj); }
  for (size_t i = 0; i < me->pool.size(); i++) {
    Thread* w = g_thr[me->pool[i]]; bool any = !w->dtors.empty();
    for (int k : w->pool) any |= !g_thr[k]->dtors.empty();
    if (!any || w->st != PARKED) continue;
    w->quit = true; w->vc.join(me->vc); w->st = RUNNABLE; bump();
    while (!w->finished) { me->st = BLOCKED; block_here(); }
    me->vc.join(w->exitvc);
  }
}
static void* thread_main(void* p) {
  Thread* me = (Thread*)p;
  tl_self = me;
  park_until_go(me);
  if (me->fn) (*me->fn)();
  else if (me->start) me->retval = me->start(me->sarg);
  end_thread(me);
  finish_current();
  block_here();
  return nullptr;
}
static Thread* new_thread() {
  if (g_nthr >= MAXT) { fprintf(stderr, "sim: too many threads\n"); _exit(85); }
  Thread* t = new (__libc_malloc(sizeof(Thread))) Thread();
  t->id = g_nthr; g_thr[g_nthr++] = t;
  t->vc.c[t->id] = 1;
  t->prio = (int64_t)(g_rng.next() >> 2);
  if ((uint64_t)g_nthr > g_st.max_threads) g_st.max_threads = g_nthr;
  return t;
}
static void fork_edge(Thread* t) { t->vc.join(g_cur->vc); t->vc.c[t->id]++; bump(); }

int spawn(const std::function<void()>& fn, int actor) {
  Thread* t = new_thread();
  t->fn = new std::function<void()>(fn);
  t->actor = actor < 0 ? t->id : actor;
  fork_edge(t);
  t->pt = real_create(thread_main, t);
  sync_point(0xC0);
  return t->id;
}
void join(int tid) {
  Thread* t = g_thr[tid];
  while (!t->finished) { g_cur->st = BLOCKED; block_here(); }
  g_cur->vc.join(t->exitvc);
  sync_point(0xC1);
}
void yield() { sync_point(0xC2); }
void wait_until(const std::function<bool()>& cond) { while (!cond()) { g_cur->st = BLOCKED; block_here(); } sync_point(0xC4); }
void notify() { for (int i = 0; i < g_nthr; i++) if (g_thr[i]->st == BLOCKED) g_thr[i]->st = RUNNABLE; sync_point(0xC5); }

// ------------------------------------------------------------------ OpenMP
static uint64_t g_algarb = 0;
static Thread g_idle;
static Thread* me_or_idle() { return g_cur ? g_cur : &g_idle; }
static TeamCtx& ctx() {
  Thread* t = me_or_idle();
  if (t->ctx.empty()) { Team* tm = new (__libc_malloc(sizeof(Team))) Team(); t->ctx.push_back(TeamCtx{tm, 0, 0, 0}); }
  return t->ctx.back();
}
static void* worker_main(void* p) {
  Thread* me = (Thread*)p;
  tl_self = me;
  park_until_go(me);
  for (;;) {
    if (me->quit) { end_thread(me); finish_current(); block_here(); }
    Team* tm = me->jteam;
    me->ctx.push_back(TeamCtx{tm, me->jnum, tm->prepared, 0});
    if (g_algarb) scribble_stack(mix(mix(g_algarb, g_region), me->jnum), 24576);   // a worker's stack holds leftovers too
    me->job(me->data);
    me->ctx.pop_back();
    // end of region: arrive and park
    tm->vc.join(me->vc); bump();
    tm->done++;
    me->st = PARKED;
    wake(g_thr[tm->master]);
    block_here();          // returns when a new region gives us work
  }
  return nullptr;
}
static void run_region(void (*fn)(void*), void* data, unsigned nt, const WorkShare* prep) {
  Thread* me = me_or_idle();
  TeamCtx& outer = ctx();
  int want = nt ? (int)nt : 0;
  Team tm; tm.level = outer.team->level + 1; tm.master = me->id;
  int size = 1;
  if (g_on && g_cur) {
    g_st.regions++;
    uint64_t r = g_region++;
    if (tm.level > 1 && !g_cfg.nested) size = 1;
    else if (g_cfg.tfix > 0) size = g_cfg.tfix;
    else size = g_full ? g_cfg.tmax : 1 + (int)Rng(mix(g_cfg.seed, 0x7EA3 + r)).below(g_cfg.tmax);
    if (tm.level > 1 && size > 2) size = 2;
    if (want > 0 && size > want) size = want;
    if (size > g_cfg.tmax) size = g_cfg.tmax;
    if (!nt && me->nth > 0 && size > me->nth) size = me->nth;
    if (size < 1) size = 1;
    if (size < g_cfg.tmax) g_st.short_teams++;
    // keep within the thread table
    int avail = (int)me->pool.size() + (MAXT - 4 - g_nthr);
    if (size - 1 > avail) size = avail + 1 > 1 ? avail + 1 : 1;
  }
  tm.size = size;
  if (prep) { tm.ws.push_back(*prep); tm.prepared = 1; }   // a combined construct has entered its workshare already
  int base = me->poolused;
  if (size > 1) {
    for (int i = 1; i < size; i++) {
      int k = base + i - 1;
      Thread* w;
      if (k < (int)me->pool.size()) w = g_thr[me->pool[k]];
      else {
        w = new_thread(); w->st = PARKED; me->pool.push_back(w->id);
        w->pt = real_create(worker_main, w);
      }
      w->job = fn; w->data = data; w->jteam = &tm; w->jnum = i; w->actor = me->actor; w->op = me->op; w->nth = me->nth;
      w->alloc_track = me->alloc_track;
      w->vc.join(me->vc); w->vc.c[w->id]++;
      w->st = RUNNABLE; g_st.workers++;
    }
    bump();
    me->poolused = base + size - 1;
  }
  if (g_on && g_cur) sync_point(0xD0);
  me->ctx.push_back(TeamCtx{&tm, 0, tm.prepared, 0});
  fn(data);
  me->ctx.pop_back();
  if (size > 1) {
    while (tm.done < size - 1) { me->st = BLOCKED; block_here(); }
    me->vc.join(tm.vc);
    me->poolused = base;
  }
  if (g_on && g_cur) sync_point(0xD1);
}
static void team_barrier() {
  TeamCtx& c = ctx(); Team* tm = c.team;
  if (tm->size == 1) return;
  sync_point(0xD2);
  tm->vc.join(g_cur->vc); bump();
  uint64_t gen = tm->gen;
  if (++tm->arrived == tm->size) {
    tm->arrived = 0; tm->gen++;
    for (int i = 0; i < g_nthr; i++) if (g_thr[i]->st == BLOCKED) g_thr[i]->st = RUNNABLE;
  } else while (tm->gen == gen) { g_cur->st = BLOCKED; block_here(); }
  g_cur->vc.join(tm->vc);
}
static WorkShare& next_ws() {
  TeamCtx& c = ctx();
  while (c.team->ws.size() <= c.ws) c.team->ws.emplace_back();
  return c.team->ws[c.ws++];
}
static WorkShare& cur_ws() { TeamCtx& c = ctx(); return c.team->ws[c.ws - 1]; }
enum { K_STATIC, K_DYNAMIC, K_GUIDED };
static bool ws_next(long* is, long* ie);
static void wake_all();
static void ordered_wait(WorkShare& w, TeamCtx& c) {
  while (w.ord != c.c0) { g_cur->st = BLOCKED; block_here(); }
  acquire(&w);
}
// an ordered loop: a thread's chunk ends, the next one may enter its ordered blocks
static void ordered_leave() {
  TeamCtx& c = ctx(); if (!c.inchunk) return;
  WorkShare& w = cur_ws();
  if (g_on && g_cur) { ordered_wait(w, c); release_(&w); wake_all(); }
  w.ord = c.c1; c.inchunk = false;
}
static bool ows_next(long* is, long* ie) {
  ordered_leave();
  WorkShare& w = cur_ws(); if (!w.ordset) { w.ordset = true; w.ord = w.next; }
  if (!ws_next(is, ie)) return false;
  TeamCtx& c = ctx(); c.c0 = *is; c.c1 = *ie; c.inchunk = true; return true;
}
static bool ws_next(long* is, long* ie) {
  TeamCtx& c = ctx(); WorkShare& w = cur_ws();
  sync_point(0xD3);
  if (w.kind == K_STATIC) {
    // c.cur counts this thread's chunks
    long total = w.incr > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.end - w.next + w.incr + 1) / w.incr;
    if (total < 0) total = 0;
    long T = c.team->size, i0, i1;
    if (w.chunk <= 0) {
      if (c.cur) return false;
      long q = total / T, r = total % T;
      i0 = c.num * q + (c.num < r ? c.num : r); i1 = i0 + q + (c.num < r ? 1 : 0);
    } else { i0 = (c.cur * T + c.num) * w.chunk; i1 = i0 + w.chunk; if (i1 > total) i1 = total; }
    if (i0 >= i1) return false;
    c.cur++;
    *is = w.next + i0 * w.incr; *ie = w.next + i1 * w.incr; return true;
  }
  long left = w.incr > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.end - w.next + w.incr + 1) / w.incr;
  if (left <= 0) return false;
  long ch = w.chunk > 0 ? w.chunk : 1;
  if (w.kind == K_GUIDED) { long g = (left + c.team->size - 1) / c.team->size; if (g > ch) ch = g; }
  if (ch > left) ch = left;
  *is = w.next; w.next += ch * w.incr; *ie = w.next;
  return true;
}
static bool ws_start(int kind, long s, long e, long inc, long chunk, long* is, long* ie) {
  WorkShare& w = next_ws();
  if (!w.init) { w.init = true; w.kind = kind; w.next = s; w.end = e; w.incr = inc; w.chunk = chunk; }
  ctx().cur = 0;
  return is ? ws_next(is, ie) : true;
}
static bool wsu_next(unsigned long long* is, unsigned long long* ie) {
  long a, b; if (!ws_next(&a, &b)) return false; *is = a; *ie = b; return true;
}
static bool wsu_start(int kind, bool up, unsigned long long s, unsigned long long e, unsigned long long inc,
                      unsigned long long chunk, unsigned long long* is, unsigned long long* ie) {
  long a, b; (void)up;
  if (!ws_start(kind, (long)s, (long)e, (long)inc, (long)chunk, &a, &b)) return false;
  *is = a; *ie = b; return true;
}

static bool ows_start(int kind, long s, long e, long inc, long chunk, long* is, long* ie) {
  ws_start(kind, s, e, inc, chunk, nullptr, nullptr);
  return is ? ows_next(is, ie) : true;
}

// simulated lock, keyed by address
struct SimLock { int owner = -1; int depth = 0; int readers = 0; };
static std::unordered_map<uintptr_t, SimLock, std::hash<uintptr_t>, std::equal_to<uintptr_t>,
                          RawAlloc<std::pair<const uintptr_t, SimLock>>>* g_locks;
static void lock_acquire(const void* k, bool recursive = false) {
  sync_point(0xE0);
  for (;;) {
    SimLock& l = (*g_locks)[(uintptr_t)k];
    if (l.owner < 0 && l.readers == 0) { l.owner = g_cur->id; l.depth = 1; break; }
    if (l.owner == g_cur->id && recursive) { l.depth++; break; }
    g_st.lock_waits++;
    g_cur->st = BLOCKED; block_here();
  }
  acquire(k);
}
static bool lock_try(const void* k, bool recursive = false) {
  sync_point(0xE1);
  SimLock& l = (*g_locks)[(uintptr_t)k];
  if (l.owner == g_cur->id && recursive) { l.depth++; return true; }
  if (l.owner >= 0 || l.readers) return false;
  l.owner = g_cur->id; l.depth = 1; acquire(k); return true;
}
static void wake_all() { for (int i = 0; i < g_nthr; i++) if (g_thr[i]->st == BLOCKED) g_thr[i]->st = RUNNABLE; }
static void lock_release(const void* k) {
  SimLock& l = (*g_locks)[(uintptr_t)k];
  if (l.readers > 0 && l.owner < 0) { release_(k); l.readers--; }
  else { release_(k); if (--l.depth > 0) return; l.owner = -1; }
  wake_all();
  sync_point(0xE2);
}
static void lock_acquire_shared(const void* k) {
  sync_point(0xE3);
  for (;;) {
    SimLock& l = (*g_locks)[(uintptr_t)k];
    if (l.owner < 0) { l.readers++; break; }
    g_cur->st = BLOCKED; block_here();
  }
  acquire(k);
}

// ------------------------------------------------------------------ random source
struct Stream {
  RandSpec spec; Rng r{1}; uint64_t n = 0, degraded = 0; uint64_t burst = 0; int bkind = 0; uint32_t bval = 0;
  uint32_t tab[8]; uint32_t andm = 0x7fffffff, orm = 0; bool up = false;
};
typedef std::map<int, Stream, std::less<int>, RawAlloc<std::pair<const int, Stream>>> Streams;
static Streams* g_streams;
static uint64_t g_reseeds = 0; static bool g_logd = false; static std::vector<Draw>* g_draws;
static Stream& stream(int a) {
  if (!g_streams) g_streams = new (__libc_malloc(sizeof(Streams))) Streams();
  auto it = g_streams->find(a);
  if (it == g_streams->end()) { Stream s; s.spec.seed = 0xABCDEF ^ (uint64_t)a; s.r = Rng(s.spec.seed); it = g_streams->emplace(a, s).first; }
  return it->second;
}
void set_rand(int actor, const RandSpec& spec) {
  Stream s; s.spec = spec; s.r = Rng(mix(spec.seed, 0x9A11));
  for (int i = 0; i < 8; i++) s.tab[i] = (uint32_t)(s.r.next() >> 33);
  if (spec.mode == R_STUCKBITS) {
    // a few stuck bits, never all of the low ones (positions must stay reachable)
    for (int i = 0; i < 6; i++) { uint32_t b = 1u << (8 + s.r.below(23)); if (s.r.below(2)) s.andm &= ~b; else s.orm |= b; }
  }
  stream(actor) = s;
}
uint64_t rand_draws(int a) { return stream(a).n; }
uint64_t rand_degraded(int a) { return stream(a).degraded; }
uint64_t rand_reseeds() { return g_reseeds; }
void log_draws(bool on) { g_logd = on; if (!g_draws) g_draws = new std::vector<Draw>(); if (on) g_draws->clear(); }
const std::vector<Draw>& draws() { if (!g_draws) g_draws = new std::vector<Draw>(); return *g_draws; }
static uint32_t draw31() {
  Thread* t = me_or_idle();
  Stream& s = stream(t->actor);
  uint64_t k = s.n++;
  uint32_t u = (uint32_t)(s.r.next() >> 33), v = u;
  switch (s.spec.mode) {
    case R_BURSTS:
      if (k >= s.spec.prefix) break;
      if (s.burst == 0) {
        Rng q(mix(s.spec.seed, 0xB000 + k));
        s.bkind = (int)q.below(5); s.burst = 1 + q.below(q.below(3) ? 40 : 6); s.bval = (uint32_t)(q.next() >> 33);
      }
      s.burst--;
      if (s.bkind == 0) v = 0; else if (s.bkind == 1) v = 0x7fffffff; else if (s.bkind == 2) v = s.bval;
      break;
    case R_MAX: if (k < s.spec.prefix) v = 0x7fffffff; break;
    case R_ZERO: if (k < s.spec.prefix) v = 0; break;
    case R_PERIOD: if (k < s.spec.prefix) v = s.tab[k % (2 + s.spec.seed % 6)]; break;
    case R_ALTERNATE: if (k < s.spec.prefix) v = ((k / (1 + s.spec.seed % 5)) & 1) ? 0x7fffffff : 0; break;
    case R_STUCKBITS: if (k < s.spec.prefix) v = (u & s.andm) | s.orm; break;
    default: break;
  }
  if (v != u) s.degraded++;
  if (k == s.spec.flip_at) v ^= s.spec.flip & 0x7fffffff;
  hash_in(v);
  if (g_logd) g_draws->push_back(Draw{t->actor, t->id, t->op, v});
  if (g_on && g_cur) sync_point(0xF0);
  return v;
}
static void reseed(uint64_t v) {
  g_reseeds++;
  Stream& s = stream(me_or_idle()->actor);
  s.r = Rng(mix(v, 0x5EED)); s.n = 0;
}

// ------------------------------------------------------------------ allocator
struct Hdr { uint64_t magic; uint64_t size; uint64_t tracked; void* base; };
// In builds with address checks the blocks get zones around them that nobody may touch, and freed blocks
// stay out of use for a while; elsewhere a short zone behind each block is looked at when it is freed.
extern "C" { __attribute__((weak)) void __asan_poison_memory_region(const volatile void*, size_t); __attribute__((weak)) void __asan_unpoison_memory_region(const volatile void*, size_t);
  __attribute__((weak)) void* __asan_region_is_poisoned(void*, size_t); __attribute__((weak)) void __asan_report_error(void*, void*, void*, void*, int, size_t); }
static const size_t ZONE = 64; static const unsigned char ZBYTE = 0xA7; static const int NQ = 256; static const size_t QBYTES = 48u << 20;
static struct { void* base; size_t n; } g_quar[NQ]; static int g_qi = 0; static size_t g_qbytes = 0;
void poison(void* p, size_t n) { if (__asan_poison_memory_region) __asan_poison_memory_region(p, n); }
void unpoison(void* p, size_t n) { if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(p, n); }
bool address_checks() { return __asan_poison_memory_region != nullptr; }
static inline void touch(const void* p, size_t n, int w, void* pc) {
  if (!__asan_region_is_poisoned) return;
  void* bad = __asan_region_is_poisoned((void*)p, n);
  if (bad) { char here; __asan_report_error(pc, &here, &here, bad, w, n); }
}
static void really_free(void* base, size_t n) { unpoison(base, n); __libc_free(base); }
static void quarantine(void* base, size_t n) {
  poison(base, n);
  auto& q = g_quar[g_qi]; g_qi = (g_qi + 1) % NQ;
  if (q.base) { g_qbytes -= q.n; really_free(q.base, q.n); }
  q.base = base; q.n = n; g_qbytes += n;
  for (int i = g_qi, k = 0; g_qbytes > QBYTES && k < NQ; i = (i + 1) % NQ, k++) if (g_quar[i].base) { g_qbytes -= g_quar[i].n; really_free(g_quar[i].base, g_quar[i].n); g_quar[i].base = nullptr; g_quar[i].n = 0; }
}
static const uint64_t MAGIC = 0x51AB0C0FFEE0DD5Aull, DEAD = 0xDEADDEADDEADDEADull;
static AllocStats g_al; static uint64_t g_alcount = 0; static std::vector<uint64_t>* g_fail; static uint64_t g_failfrom = 0, g_faillen = 0;
void alloc_track(bool on) { me_or_idle()->alloc_track = on; }
void alloc_fail_at(const std::vector<uint64_t>& v) { if (!g_fail) g_fail = new std::vector<uint64_t>(); *g_fail = v; }
void alloc_fail_from(uint64_t i, uint64_t len) { g_failfrom = i; g_faillen = len; }
void alloc_garbage(uint64_t seed) { g_algarb = seed; }
AllocStats alloc_stats() { return g_al; }
void alloc_reset() { uint64_t lb = g_al.live_blocks, ly = g_al.live_bytes; g_al = AllocStats(); g_al.live_blocks = lb; g_al.live_bytes = ly; }
void fill_garbage(void* p, size_t n, uint64_t seed) {
  Rng r(mix(seed, 0x6A4B)); uint8_t* b = (uint8_t*)p;
  int style = (int)(seed % 4);
  for (size_t i = 0; i < n; i += 8) {
    uint64_t v = style == 0 ? r.next() : style == 1 ? ~0ull : style == 2 ? 0x0101010101010101ull * (r.next() & 255) : (r.next() & 1 ? r.next() : 1);
    memcpy(b + i, &v, n - i < 8 ? n - i : 8);
  }
}
__attribute__((noinline)) void scribble_stack(uint64_t seed, size_t bytes) {
  volatile char* p = (volatile char*)__builtin_alloca(bytes);
  fill_garbage((void*)p, bytes, seed);
  asm volatile("" ::"r"(p) : "memory");
}
static void* sim_alloc(size_t n, size_t align, bool nothrow, bool& failed) {
  failed = false;
  bool tr = me_or_idle()->alloc_track;
  if (tr) {
    g_al.count++;
    bool f = g_faillen && g_al.count >= g_failfrom && g_al.count < g_failfrom + g_faillen;
    if (g_fail) for (uint64_t x : *g_fail) if (x == g_al.count) f = true;
    if (g_on && g_cur) { hash_in(n); sync_point(f ? 0xA1 : 0xA0); }
    if (f) { g_al.fired++; failed = true; return nullptr; }
  }
  if (align < 32) align = 32;
  size_t room = n + sizeof(Hdr) + align + ZONE;
  char* raw = (char*)__libc_malloc(room);
  if (!raw) { failed = true; return nullptr; }
  uintptr_t u = ((uintptr_t)raw + sizeof(Hdr) + align - 1) & ~(uintptr_t)(align - 1);
  Hdr* h = (Hdr*)(u - sizeof(Hdr));
  h->magic = MAGIC; h->size = n; h->tracked = tr; h->base = raw;
  if (tr) { g_al.live_blocks++; g_al.live_bytes += n; }
  if ((tr || (g_on && g_cur)) && g_algarb) fill_garbage((void*)u, n, mix(g_algarb, ++g_alcount));
  memset((char*)u + n, ZBYTE, ZONE);
  if (address_checks()) { poison(raw, u - (uintptr_t)raw); poison((char*)u + n, ZONE); }
  return (void*)u;
}
static bool owned(void* p) { Hdr* h = (Hdr*)((uintptr_t)p - sizeof(Hdr)); return h->magic == MAGIC; }
static void sim_free(void* p) {
  if (!p) return;
  Hdr* h = (Hdr*)((uintptr_t)p - sizeof(Hdr));
  if (h->magic != MAGIC) { g_al.bad_free++; if (h->magic == DEAD) abort(); __libc_free(p); return; }
  if (h->tracked) { g_al.live_blocks--; g_al.live_bytes -= h->size; }
  race_forget((uintptr_t)p, h->size);
  h->magic = DEAD;
  for (size_t i = 0; i < ZONE; i++) if (((unsigned char*)p)[h->size + i] != ZBYTE) { g_al.overwritten++; break; }
  if (h->tracked && h->size <= (1u << 20)) memset(p, 0xDD, h->size);
  if (address_checks()) quarantine(h->base, (uintptr_t)p + h->size + ZONE - (uintptr_t)h->base);
  else __libc_free(h->base);
}

// ------------------------------------------------------------------ clock
void clock_reset(uint64_t s, int64_t w) { g_clock = s; g_wall = w; g_jumps = 0; }
void clock_advance(uint64_t ns) { g_clock += ns; hash_in(ns); }
void clock_jump_wall(int64_t ns) { g_wall += ns; g_jumps++; hash_in((uint64_t)ns); }
void clock_tick(uint64_t t) { g_tick = t; }
uint64_t clock_now() { return g_clock; }
uint64_t clock_jumps() { return g_jumps; }

// ------------------------------------------------------------------ run
Stats run(const Config& cfg, const std::function<void()>& fn) {
  g_cfg = cfg;
  if (g_cfg.tmax < 1) g_cfg.tmax = 1;
  if (g_cfg.tmax > 24) g_cfg.tmax = 24;
  g_rng = Rng(mix(cfg.seed, 0x5C4ED));
  g_st = Stats(); g_st.hash = 0xcbf29ce484222325ull;
  g_step = 0; g_ri = 0; g_region = 0; g_lowprio = 0;
  g_starve = (int)g_rng.below(5);
  g_s0 = (uintptr_t)&__data_start; g_s1 = (uintptr_t)&_end;
  if (!g_sync) {
    g_sync = new std::remove_pointer<decltype(g_sync)>::type();
    g_locks = new std::remove_pointer<decltype(g_locks)>::type();
  }
  g_sync->clear(); g_locks->clear(); g_pages.forget();   // everything before this run happened before it
  g_nthr = 0;
  uint64_t clock0 = g_clock;
  Thread* t = new_thread();
  tl_self = t; t->pt = pthread_self();
  g_cur = t; g_on = true;
  plan_next();
  fn();
  // let spawned threads that nobody joined finish
  for (;;) {
    bool busy = false;
    for (int i = 1; i < g_nthr; i++) if (g_thr[i]->st == RUNNABLE || g_thr[i]->st == BLOCKED) busy = true;
    if (!busy) break;
    g_cur->st = BLOCKED; wake_all(); g_cur->st = BLOCKED;
    bool any = false;
    for (int i = 1; i < g_nthr; i++) if (g_thr[i]->st == RUNNABLE) any = true;
    if (!any) break;
    block_here();
  }
  g_cur->st = RUNNABLE;
  g_st.steps = g_step; g_st.sim_ns = g_clock - clock0;
  g_on = false; g_cur = nullptr; tl_self = nullptr;
  return g_st;
}
}  // namespace sim

using namespace sim;

// ==================================================================== OpenMP ABI
extern "C" {
int omp_get_num_threads() { return ctx().team->size; }
int omp_get_thread_num() { return ctx().num; }
int omp_get_max_threads() { return !g_on ? 1 : me_or_idle()->nth > 0 ? me_or_idle()->nth : g_cfg.tmax; }
int omp_get_num_procs() { return g_on ? g_cfg.tmax : 1; }
int omp_get_thread_limit() { return 24; }
int omp_in_parallel() { return ctx().team->size > 1; }
int omp_get_level() { return ctx().team->level; }
int omp_get_active_level() { return ctx().team->size > 1 ? ctx().team->level : 0; }
int omp_get_team_size(int) { return ctx().team->size; }
int omp_get_ancestor_thread_num(int) { return ctx().num; }
void omp_set_num_threads(int n) { if (g_on) me_or_idle()->nth = n < 1 ? 1 : n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 1; }
void omp_set_nested(int) {}
int omp_get_nested() { return g_cfg.nested; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return g_cfg.nested ? 2 : 1; }
void omp_set_schedule(int, int) {}
double omp_get_wtime() { return g_clock * 1e-9; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { if (g_on && g_cur) lock_acquire(l); }
void omp_unset_lock(void* l) { if (g_on && g_cur) lock_release(l); }
int omp_test_lock(void* l) { return g_on && g_cur ? lock_try(l) : 1; }
void omp_init_nest_lock(void*) {}
void omp_destroy_nest_lock(void*) {}
void omp_set_nest_lock(void* l) { if (g_on && g_cur) lock_acquire(l, true); }
void omp_unset_nest_lock(void* l) { if (g_on && g_cur) lock_release(l); }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { run_region(fn, data, nt, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned nt, unsigned) { run_region(fn, data, nt, nullptr); return 1; }
void GOMP_barrier() { if (g_on && g_cur) team_barrier(); }
bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
static char crit_default, atomic_lock;
void GOMP_critical_start() { if (g_on && g_cur) lock_acquire(&crit_default); }
void GOMP_critical_end() { if (g_on && g_cur) lock_release(&crit_default); }
void GOMP_critical_name_start(void** p) { if (g_on && g_cur) lock_acquire(p); }
void GOMP_critical_name_end(void** p) { if (g_on && g_cur) lock_release(p); }
void GOMP_atomic_start() { if (g_on && g_cur) lock_acquire(&atomic_lock); }
void GOMP_atomic_end() { if (g_on && g_cur) lock_release(&atomic_lock); }
bool GOMP_single_start() { WorkShare& w = next_ws(); sync_point(0xD4); if (w.single_taken) return false; w.single_taken = true; return true; }
void* GOMP_single_copy_start() {
  WorkShare& w = next_ws();
  if (!w.single_taken) { w.single_taken = true; return nullptr; }
  GOMP_barrier(); return w.copy;
}
void GOMP_single_copy_end(void* d) { cur_ws().copy = d; GOMP_barrier(); }
void GOMP_ordered_start() { TeamCtx& c = ctx(); if (g_on && g_cur && c.inchunk) { sync_point(0xD8); ordered_wait(cur_ws(), c); } }
void GOMP_ordered_end() { TeamCtx& c = ctx(); if (g_on && g_cur && c.inchunk) { release_(&cur_ws()); sync_point(0xD9); } }
void GOMP_loop_end() { ordered_leave(); GOMP_barrier(); }
void GOMP_loop_end_nowait() { ordered_leave(); }
bool GOMP_loop_end_cancel() { GOMP_barrier(); return false; }
#define LOOP(NAME, KIND)                                                                                              \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* is, long* ie) { return ws_start(KIND, s, e, i, c, is, ie); } \
  bool GOMP_loop_##NAME##_next(long* is, long* ie) { return ws_next(is, ie); }                                         \
  bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, \
                                    unsigned long long* is, unsigned long long* ie) { return wsu_start(KIND, up, s, e, i, c, is, ie); } \
  bool GOMP_loop_ull_##NAME##_next(unsigned long long* is, unsigned long long* ie) { return wsu_next(is, ie); }        \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) {  \
    WorkShare w; w.init = true; w.kind = KIND; w.next = s; w.end = e; w.incr = i; w.chunk = c; run_region(fn, d, nt, &w); }
LOOP(static, K_STATIC)
LOOP(dynamic, K_DYNAMIC)
LOOP(guided, K_GUIDED)
LOOP(nonmonotonic_dynamic, K_DYNAMIC)
LOOP(nonmonotonic_guided, K_GUIDED)
#define LOOPO(NAME, KIND)                                                                                             \
  bool GOMP_loop_ordered_##NAME##_start(long s, long e, long i, long c, long* is, long* ie) { return ows_start(KIND, s, e, i, c, is, ie); } \
  bool GOMP_loop_ordered_##NAME##_next(long* is, long* ie) { return ows_next(is, ie); }                                  \
  bool GOMP_loop_ull_ordered_##NAME##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, \
                                            unsigned long long* is, unsigned long long* ie) {                            \
    return ows_start(KIND, (long)s, (long)e, (long)i, (long)c, (long*)is, (long*)ie); }                                  \
  bool GOMP_loop_ull_ordered_##NAME##_next(unsigned long long* is, unsigned long long* ie) { return ows_next((long*)is, (long*)ie); }
LOOPO(static, K_STATIC)
LOOPO(dynamic, K_DYNAMIC)
LOOPO(guided, K_GUIDED)
bool GOMP_loop_ordered_runtime_start(long s, long e, long i, long* is, long* ie) { return ows_start(K_DYNAMIC, s, e, i, 1, is, ie); }
bool GOMP_loop_ordered_runtime_next(long* is, long* ie) { return ows_next(is, ie); }
#define LOOPR(NAME)                                                                                                    \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long* is, long* ie) { return ws_start(K_DYNAMIC, s, e, i, 1, is, ie); } \
  bool GOMP_loop_##NAME##_next(long* is, long* ie) { return ws_next(is, ie); }                                         \
  bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i,         \
                                    unsigned long long* is, unsigned long long* ie) { return wsu_start(K_DYNAMIC, up, s, e, i, 1, is, ie); } \
  bool GOMP_loop_ull_##NAME##_next(unsigned long long* is, unsigned long long* ie) { return wsu_next(is, ie); }        \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) {          \
    WorkShare w; w.init = true; w.kind = K_DYNAMIC; w.next = s; w.end = e; w.incr = i; w.chunk = 1; run_region(fn, d, nt, &w); }
LOOPR(runtime)
LOOPR(maybe_nonmonotonic_runtime)
LOOPR(nonmonotonic_runtime)
unsigned GOMP_sections_next() {
  WorkShare& w = cur_ws(); sync_point(0xD5);
  if (w.sect_next >= w.sect_count) return 0;
  return ++w.sect_next;
}
unsigned GOMP_sections_start(unsigned n) { WorkShare& w = next_ws(); if (!w.init) { w.init = true; w.sect_count = n; } return GOMP_sections_next(); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned) {
  WorkShare w; w.init = true; w.sect_count = n; run_region(fn, d, nt, &w);
}
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}
bool GOMP_sections_end_cancel() { GOMP_barrier(); return false; }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*) {
  g_st.tasks++;
  if (al < 16) al = 16;
  char* raw = (char*)__libc_malloc(sz + al);
  char* b = (char*)(((uintptr_t)raw + al - 1) & ~(uintptr_t)(al - 1));
  if (cpy) cpy(b, data); else memcpy(b, data, sz);
  if (g_on && g_cur) sync_point(0xD6);
  fn(b);
  __libc_free(raw);
}
void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, unsigned, unsigned long, int, long s, long e, long) {
  g_st.tasks++;
  if (al < 16) al = 16;
  char* raw = (char*)__libc_malloc(sz + al + 16);
  char* b = (char*)(((uintptr_t)raw + al - 1) & ~(uintptr_t)(al - 1));
  if (cpy) cpy(b, data); else memcpy(b, data, sz);
  ((long*)b)[0] = s; ((long*)b)[1] = e;
  fn(b);
  __libc_free(raw);
}
void GOMP_taskwait() {}
void GOMP_taskwait_depend(void**) {}
void GOMP_taskyield() { if (g_on && g_cur) give_way(0xD7); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

// ==================================================================== compiler instrumentation ABI
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                                          \
  void __tsan_read##N(void* p) { access(p, N, 0, PC); }                                \
  void __tsan_write##N(void* p) { access(p, N, 1, PC); }                               \
  void __tsan_unaligned_read##N(void* p) { access(p, N, 0, PC); }                      \
  void __tsan_unaligned_write##N(void* p) { access(p, N, 1, PC); }                     \
  void __tsan_volatile_read##N(void* p) { access(p, N, 0, PC); }                       \
  void __tsan_volatile_write##N(void* p) { access(p, N, 1, PC); }                      \
  void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, 0, PC); }             \
  void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { access(p, 8, 1, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, 0, PC); }
void __tsan_read_range(void* p, unsigned long n) { access(p, n, 0, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, 1, PC); }

static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_before(const volatile void* a, size_t n, int w, void* pc) {
  if (!g_cur) return;
  g_st.atomics++;
  tickp(0x90 | w);
  bool go = g_step >= g_next;
  if (!go && !g_cfg.replay && g_cfg.policy != SERIAL && g_cfg.policy != PCT) go = g_rng.below(4) == 0;
  if (go) preempt();
  if (g_cfg.races) race_check((uintptr_t)a, n, w | 2, pc);
}
static void at_load(const volatile void* a, int mo) { if (g_cur && is_acq(mo)) acquire((const void*)a); }
static void at_store(const volatile void* a, int mo) {
  if (!g_cur) return;
  if (is_rel(mo)) release_((const void*)a, true); else sync_of((const void*)a) = VC();
}
static void at_rmw(const volatile void* a, int mo) {
  if (!g_cur) return;
  if (is_acq(mo)) acquire((const void*)a);
  if (is_rel(mo)) release_((const void*)a, false);
}
#define ATOMIC(B, T)                                                                                                   \
  T __tsan_atomic##B##_load(const volatile T* a, int mo) { at_before(a, sizeof(T), 0, PC); T v = *a; at_load(a, mo); return v; } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { at_before(a, sizeof(T), 1, PC); at_store(a, mo); *a = v; } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { at_before(a, sizeof(T), 1, PC); T o = *a; *a = v; at_rmw(a, mo); return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { at_before(a, sizeof(T), 1, PC); T o = *a; *a = o + v; at_rmw(a, mo); return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { at_before(a, sizeof(T), 1, PC); T o = *a; *a = o - v; at_rmw(a, mo); return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { at_before(a, sizeof(T), 1, PC); T o = *a; *a = o & v; at_rmw(a, mo); return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { at_before(a, sizeof(T), 1, PC); T o = *a; *a = o | v; at_rmw(a, mo); return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { at_before(a, sizeof(T), 1, PC); T o = *a; *a = o ^ v; at_rmw(a, mo); return o; } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { at_before(a, sizeof(T), 1, PC); T o = *a; *a = ~(o & v); at_rmw(a, mo); return o; } \
  bool __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) {                          \
    at_before(a, sizeof(T), 1, PC); T o = *a; if (o == *e) { *a = v; at_rmw(a, mo); return true; } *e = o; at_load(a, fmo); return false; } \
  bool __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) {                            \
    return __tsan_atomic##B##_compare_exchange_strong(a, e, v, mo, fmo); }                                              \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) {                                 \
    T x = e; __tsan_atomic##B##_compare_exchange_strong(a, &x, v, mo, fmo); return x; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t) ATOMIC(128, unsigned __int128)
static char fence_obj;
void __tsan_atomic_thread_fence(int) { if (g_on && g_cur) { acquire(&fence_obj); release_(&fence_obj); sync_point(0x9F); } }
void __tsan_atomic_signal_fence(int) {}

// block copies made by instrumented code (their symbols are renamed to these)



void* __wrap_memcpy(void* d, const void* s, size_t n) { touch(s, n, 0, PC); touch(d, n, 1, PC); if (g_cur && n) { access((void*)s, n, 0, PC); access(d, n, 1, PC); } return memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { touch(s, n, 0, PC); touch(d, n, 1, PC); if (g_cur && n) { access((void*)s, n, 0, PC); access(d, n, 1, PC); } return memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { touch(d, n, 1, PC); if (g_cur && n) access(d, n, 1, PC); return memset(d, c, n); }

// malloc family of instrumented code (their symbols are renamed to these)
void* __wrap_malloc(size_t n) { bool f; void* p = sim_alloc(n, 16, true, f); if (!p) errno = ENOMEM; return p; }
void* __wrap_calloc(size_t a, size_t b) { bool f; void* p = sim_alloc(a * b, 16, true, f); if (p) memset(p, 0, a * b); else errno = ENOMEM; return p; }
void __wrap_free(void* p) { sim_free(p); }
void* __wrap_realloc(void* p, size_t n) {
  if (!p) return __wrap_malloc(n);
  bool f; void* q = sim_alloc(n, 16, true, f);
  if (!q) { errno = ENOMEM; return nullptr; }
  size_t o = owned(p) ? ((Hdr*)((uintptr_t)p - sizeof(Hdr)))->size : 0;
  memcpy(q, p, o < n ? o : n); sim_free(p); return q;
}
void* __wrap_aligned_alloc(size_t al, size_t n) { bool f; void* p = sim_alloc(n, al, true, f); if (!p) errno = ENOMEM; return p; }
int __wrap_posix_memalign(void** r, size_t al, size_t n) { bool f; void* p = sim_alloc(n, al, true, f); if (!p) return ENOMEM; *r = p; return 0; }
}

void* operator new(size_t n) { bool f; void* p = sim_alloc(n, 16, false, f); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { bool f; return sim_alloc(n, 16, true, f); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { bool f; return sim_alloc(n, 16, true, f); }
void* operator new(size_t n, std::align_val_t a) { bool f; void* p = sim_alloc(n, (size_t)a, false, f); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_free(p); }

// ==================================================================== random sources
extern "C" {
int rand() { return (int)draw31(); }
void srand(unsigned s) { reseed(s); }
long random() { return draw31(); }
void srandom(unsigned s) { reseed(s); }
int rand_r(unsigned* s) { *s = *s * 1103515245u + 12345u; return (*s >> 1) & 0x7fffffff; }
long lrand48() { return draw31(); }
long mrand48() { return (int)((draw31() << 1) ^ draw31()); }
double drand48() { return draw31() / 2147483648.0; }
void srand48(long s) { reseed(s); }
ssize_t getrandom(void* b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((uint8_t*)b)[i] = draw31() >> 11; return n; }
int getentropy(void* b, size_t n) { for (size_t i = 0; i < n; i++) ((uint8_t*)b)[i] = draw31() >> 11; return 0; }
uint32_t arc4random() { return (draw31() << 1) ^ draw31(); }
}
namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return (draw31() << 1) ^ draw31(); }
void random_device::_M_init_pretr1(const std::string&) {}
random_device::result_type random_device::_M_getval_pretr1() { return (draw31() << 1) ^ draw31(); }
}

// ==================================================================== clocks
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { if (g_on && g_cur) sync_point(0xF1); return time_point(duration(g_clock)); }
system_clock::time_point system_clock::now() noexcept { if (g_on && g_cur) sync_point(0xF2); return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds((int64_t)g_clock + g_wall))); }
}}}
extern "C" {
int clock_gettime(clockid_t id, struct timespec* ts) {
  int64_t v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) ? (int64_t)g_clock + g_wall : (int64_t)g_clock;
  if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) v = (int64_t)g_step * 10;
  ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; return 0;
}
int gettimeofday(struct timeval* tv, void*) { int64_t v = (int64_t)g_clock + g_wall; tv->tv_sec = v / 1000000000; tv->tv_usec = (v % 1000000000) / 1000; return 0; }
time_t time(time_t* t) { int64_t v = ((int64_t)g_clock + g_wall) / 1000000000; if (t) *t = v; return v; }
clock_t clock() { return (clock_t)(g_step / 100); }
int nanosleep(const struct timespec* a, struct timespec*) { g_clock += (uint64_t)a->tv_sec * 1000000000ull + a->tv_nsec; if (g_on && g_cur) give_way(0xF3); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec* a, struct timespec* b) { return nanosleep(a, b); }
int usleep(useconds_t u) { g_clock += u * 1000ull; if (g_on && g_cur) give_way(0xF3); return 0; }
unsigned sleep(unsigned s) { g_clock += s * 1000000000ull; if (g_on && g_cur) give_way(0xF3); return 0; }
int sched_yield() { if (g_on && g_cur) give_way(0xF4); return 0; }
}

// ==================================================================== guards, once flags, pthreads
extern "C" {
// state in the guard object: byte 0 = done, byte 1 = in progress (Itanium ABI layout)
int __cxa_guard_acquire(long long int* g) {
  volatile char* b = (volatile char*)g;
  if (!(g_on && g_cur)) { if (b[0]) return 0; b[1] = 1; return 1; }
  sync_point(0xE8);
  while (b[1]) { g_st.guard_waits++; g_cur->st = BLOCKED; block_here(); }
  acquire(g);
  if (b[0]) return 0;
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(long long int* g) {
  volatile char* b = (volatile char*)g;
  if (g_on && g_cur) release_(g);
  b[0] = 1; b[1] = 0;
  if (g_on && g_cur) { wake_all(); sync_point(0xE9); }
}
void __cxa_guard_abort(long long int* g) {
  volatile char* b = (volatile char*)g;
  b[1] = 0;
  if (g_on && g_cur) { release_(g); wake_all(); sync_point(0xEA); }
}

#define REAL(ret, name, args) static ret(*real) args = nullptr; if (!real) real = (ret(*) args)dlsym(RTLD_NEXT, #name)
static inline bool simulated() { return g_on && g_cur && tl_self == g_cur; }
static bool rec_mutex(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (simulated()) { lock_acquire(m, rec_mutex(m)); return 0; }
  REAL(int, pthread_mutex_lock, (pthread_mutex_t*)); return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (simulated()) return lock_try(m, rec_mutex(m)) ? 0 : EBUSY;
  REAL(int, pthread_mutex_trylock, (pthread_mutex_t*)); return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (simulated()) { lock_release(m); return 0; }
  REAL(int, pthread_mutex_unlock, (pthread_mutex_t*)); return real(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (simulated()) { lock_acquire_shared(m); return 0; }
  REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t*)); return real(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (simulated()) { lock_acquire(m); return 0; }
  REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t*)); return real(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (simulated()) { lock_release(m); return 0; }
  REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t*)); return real(m);
}
int pthread_spin_lock(pthread_spinlock_t* m) { if (simulated()) lock_acquire((const void*)m); return 0; }
int pthread_spin_unlock(pthread_spinlock_t* m) { if (simulated()) lock_release((const void*)m); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (simulated()) {
    // a wake-up without a signal is legal; waiting for any event is the simulation of it
    lock_release(m); g_cur->st = BLOCKED; block_here(); acquire(c); lock_acquire(m); return 0;
  }
  REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*)); return real(c, m);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (simulated()) { release_(c); wake_all(); sync_point(0xEB); return 0; }
  REAL(int, pthread_cond_signal, (pthread_cond_t*)); return real(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (simulated()) { release_(c); wake_all(); sync_point(0xEC); return 0; }
  REAL(int, pthread_cond_broadcast, (pthread_cond_t*)); return real(c);
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  volatile int* s = (volatile int*)o;
  if (!simulated()) { if (*s == 2) return 0; f(); *s = 2; return 0; }
  sync_point(0xED);
  while (*s == 1) { g_st.guard_waits++; g_cur->st = BLOCKED; block_here(); }
  acquire(o);
  if (*s == 2) return 0;
  *s = 1;
  try { f(); } catch (...) { *s = 0; wake_all(); throw; }
  release_(o); *s = 2; wake_all(); sync_point(0xEE);
  return 0;
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  if (simulated()) {
    Thread* x = new_thread();
    x->start = f; x->sarg = arg; x->actor = g_cur->actor; x->op = g_cur->op; x->alloc_track = g_cur->alloc_track;
    fork_edge(x);
    x->pt = real_create(thread_main, x);
    *t = x->pt;
    sync_point(0xC3);
    return 0;
  }
  REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)); return real(t, a, f, arg);
}
int pthread_join(pthread_t t, void** r) {
  if (simulated()) {
    for (int i = 0; i < g_nthr; i++) if (g_thr[i]->start && pthread_equal(g_thr[i]->pt, t)) { sim::join(i); if (r) *r = g_thr[i]->retval; return 0; }
    return ESRCH;
  }
  REAL(int, pthread_join, (pthread_t, void**)); return real(t, r);
}
int __cxa_thread_atexit(void (*f)(void*), void* obj, void* dso) noexcept {
  if (simulated() && tl_self) { tl_self->dtors.push_back(Thread::Dtor{f, obj}); return 0; }
  typedef int (*F)(void (*)(void*), void*, void*); static F real = nullptr;
  if (!real) real = (F)dlsym(RTLD_NEXT, "__cxa_thread_atexit_impl");
  return real ? real(f, obj, dso) : 0;
}
int pthread_detach(pthread_t t) {
  if (simulated()) return 0;
  REAL(int, pthread_detach, (pthread_t)); return real(t);
}
}
