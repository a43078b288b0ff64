// Deterministic simulator for the EvalRound library: public interface.
// See /verif/DESIGN.md ("The simulator").
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s, n = 0, at = 0, len = 0, alt = 0;   // draws [at, at + len) come from another stream
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  void fork(uint64_t at_, uint64_t len_) { at = at_; len = len_; alt = (s ^ (at_ * 64 + len_)) * 0xD6E8FEB86659FD93ull | 1; }
  uint64_t next() {  // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    if (n++ - at < len) z ^= alt;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? (uint64_t)(((unsigned __int128)next() * n) >> 64) : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- schedules
enum Policy { SERIAL = 0, RANDOM = 1, PCT = 2, STATIC_BIASED = 3, STARVE = 4, ROUND_ROBIN = 5, NPOLICY = 6 };

struct SchedEntry { uint64_t step; int tid; };

struct Config {
  uint64_t seed = 1;         // decides every scheduling choice
  int policy = SERIAL;
  uint64_t mean = 1000;      // mean number of events between preemptions
  int pstatic = 0;           // /1024: extra preemption probability at accesses to static storage
  int tmax = 4;              // omp_get_max_threads()
  int tfix = 0;              // >0: every team has this size; 0: size drawn per region in 1..tmax
  bool vary = false;         // callers ask for other numbers of threads from one operation to the next
  bool nested = false;       // nested parallel regions get their own team
  bool races = true;         // happens-before race detection
  uint64_t max_steps = 400000000ull;
  bool replay = false;       // take switches from `sched` instead of drawing them
  std::vector<SchedEntry> sched;
};

// ---------------------------------------------------------------- random source
enum RandMode {
  R_UNIFORM = 0,   // independent uniform draws
  R_BURSTS = 1,    // bursts of stuck-at-0, stuck-at-max, stuck-at-random and uniform draws
  R_MAX = 2,       // a long prefix stuck at RAND_MAX, then uniform
  R_ZERO = 3,      // a long prefix stuck at 0, then uniform
  R_PERIOD = 4,    // short period table for a long prefix, then uniform
  R_STUCKBITS = 5, // some bits of every draw stuck
  R_ALTERNATE = 6, // alternating extremes for a long prefix, then uniform
  R_NMODE = 7
};
struct RandSpec { int mode = R_UNIFORM; uint64_t seed = 1; uint64_t prefix = 0; uint64_t flip_at = ~0ull; uint32_t flip = 0; };   // flip: bits of draw flip_at inverted
void set_rand(int actor, const RandSpec& spec);   // stream of one actor (caller thread)
uint64_t rand_draws(int actor);                   // number of draws so far
uint64_t rand_degraded(int actor);                // number of draws that were not uniform
uint64_t rand_reseeds();                          // calls to srand & co
struct Draw { int actor; int tid; uint64_t op; uint32_t value; };
void log_draws(bool on);
const std::vector<Draw>& draws();

// ---------------------------------------------------------------- allocator
struct AllocStats { uint64_t count = 0, fired = 0, live_blocks = 0, live_bytes = 0, bad_free = 0, overwritten = 0; };
void alloc_track(bool on);                        // count (and fail) allocations of the current thread
void alloc_fail_at(const std::vector<uint64_t>& indices);   // global indices (1-based) of tracked allocations
void alloc_fail_from(uint64_t index, uint64_t len);         // a window of failing allocations
void alloc_garbage(uint64_t seed);                // contents of fresh blocks
AllocStats alloc_stats();
void alloc_reset();
bool address_checks();                            // built so that every access of the library is checked
void poison(void* p, size_t n); void unpoison(void* p, size_t n);   // memory nobody may touch
void scribble_stack(uint64_t seed, size_t bytes); // fill dead stack below the caller with garbage
void fill_garbage(void* p, size_t n, uint64_t seed);

// ---------------------------------------------------------------- clock
void clock_reset(uint64_t steady_ns, int64_t wall_offset_ns);
void clock_advance(uint64_t ns);                  // time passes
void clock_jump_wall(int64_t ns);                 // the wall clock is set
void clock_tick(uint64_t ns_per_event);           // time passing per scheduling event
uint64_t clock_now();
uint64_t clock_jumps();

// ---------------------------------------------------------------- running
struct Race { bool found = false; std::string what; };
struct Stats {
  uint64_t steps = 0, switches = 0, preemptions = 0, regions = 0, workers = 0, max_threads = 0;
  uint64_t static_preempt = 0, sync_ops = 0, atomics = 0, guard_waits = 0, lock_waits = 0, short_teams = 0, tasks = 0, sim_ns = 0;
  uint64_t hash = 0, sched_hash = 0;
  bool deadlock = false, overrun = false;
  Race race;
};
// Runs fn as simulated thread 0. Everything it spawns, and every OpenMP region
// it enters, is scheduled by the simulator until fn returns.
Stats run(const Config& cfg, const std::function<void()>& fn);
bool active();
void pause(bool on);   // only while every other simulated thread waits: what follows is not part of the execution
int spawn(const std::function<void()>& fn, int actor = -1);
void join(int tid);
void yield();
void wait_until(const std::function<bool()>& cond);   // block until it holds; re-checked at every notify()
void notify();
int self();
void set_actor(int actor);
void set_op(uint64_t op); uint64_t current_op();
void full_teams(bool on);   // teams of the largest size from here on
uint64_t step();

// Where the switches made are recorded (shared memory, so that it survives a crash).
struct SchedSink { uint64_t cap = 0; volatile uint64_t* n = nullptr; SchedEntry* e = nullptr; };
void set_sink(const SchedSink& s);

double real_time();   // outside the simulation: the machine's monotonic clock
}  // namespace sim
