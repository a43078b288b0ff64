// Library operations behind one interface. Check code sees only this; the op_*.cpp files
// contain everything that touches the library and are the only instrumented sources.
#pragma once
#include "../sim/sim.h"
#include <cstdint>
#include <string>
#include <vector>

struct LibOp {
  double ratio = 0;                        // set by verify(): error / allowed error
  virtual ~LibOp() {}
  virtual void prepare(sim::Rng& r) = 0;   // inputs and expectations, made without the library
  virtual void prefill(uint64_t) {}        // arbitrary prior contents of the outputs
  virtual void run() = 0;                  // the library call(s), nothing else
  virtual uint64_t out() = 0;              // digest of the outputs
  virtual uint64_t in() = 0;               // digest of the inputs
  virtual std::string verify() = 0;        // empty, or what is wrong with the outputs
};
void* box_alloc(size_t n); void box_free(void*);   // memory of the operations' objects
const char* box_check();                   // null, or where something was written outside the objects
void box_track(bool on);                   // whether the objects made from now on are remembered for box_share()
void box_slot(void**); size_t box_mark();                         // how many are remembered
void box_touch(const void*);               // told by the digests: what in() and out() look at
int box_share(LibOp& a, size_t a0, size_t a1, size_t b0);   // the objects [b0,..) take over those [a0,a1) that are inputs of a; how many
void box_reuse();                          // from now on: the same addresses again (what was there is dead)
enum { OP_RAND = 1, OP_ALLOC = 2, OP_TABLE = 4, OP_OMP = 8, OP_HEAVY = 16, OP_COUT = 32 };
struct Factory { std::string name, group; int cost; int flags; LibOp* (*make)(); };
std::vector<Factory>& catalog();           // unordered; see pick()
struct Reg { Reg(const char* name, const char* group, int cost, int flags, LibOp* (*mk)()); };
// factories whose group is in a comma-separated list ("" = all), sorted by name
std::vector<const Factory*> pick(const std::string& groups, int maxcost = 1 << 30, int need = 0, int avoid = 0);
#define OPREG_(id, name, group, cost, flags, ...) static Reg reg_##id(name, group, cost, flags, []() -> LibOp* { return new __VA_ARGS__; });
#define OPREG__(id, name, group, cost, flags, ...) OPREG_(id, name, group, cost, flags, __VA_ARGS__)
#define OPREG(name, group, cost, flags, ...) OPREG__(__COUNTER__, name, group, cost, flags, __VA_ARGS__)
