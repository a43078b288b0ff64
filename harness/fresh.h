// Operations that draw randomness, with everything they drew made visible (C05).
#pragma once
#include "../sim/sim.h"
#include "../ref/ref.h"
#include <string>
#include <vector>
struct Fresh {
  int kind = 0, N = 0, logq = 0;                      // kind 0 key, 1 ciphertext, 2 switching key, 3 key + ciphertext; logq of the mask
  int h = 0;
  virtual ~Fresh() {}
  virtual void prepare(sim::Rng& r, sim::Rng& plain) = 0;  // r: keys; plain: the plaintext (or source key)
  virtual void run() = 0;
  virtual ref::Poly mask() { return {}; }             // the second component
  virtual ref::Poly body() { return {}; }             // the first component
  virtual ref::Poly plain() { return {}; }            // what is encrypted
  virtual std::vector<long> err() { return {}; }      // body + s mask - plain, centred
  virtual std::vector<int> key() { return {}; }
};
struct FreshFactory { std::string name; Fresh* (*make)(); };
std::vector<FreshFactory>& fresh_catalog();
