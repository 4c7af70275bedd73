// Keys of the hash table checks: an integer with a hash function chosen per program.
#pragma once
#include "aligned.h"
#include "tracked.h"
#include <cstdint>
inline int g_hashmode = 0;
inline size_t hash_of(uint64_t k) {
  switch (g_hashmode) {
  case 0: return k;              // identity: neighbours land in neighbouring slots
  case 1: return 0;              // everything collides
  case 2: return k & 1;          // two chains next to each other
  case 3: return ~(size_t)0 - (k & 3); // the extreme values 2^64-1 .. 2^64-4
  case 4: return 3 - (k & 3);    // four home slots, the chain of the last one wraps around
  case 5: return k << 2;         // all in home slot 0 of a small table, spread out as it grows
  case 6: return k * 0x9E3779B97F4A7C15ull;
  case 7: return (k & 1) ? ~(size_t)0 : ~(size_t)0 - 1; // exactly the two reserved values
  case 8: return 7;              // everything collides in the last slot of a table of 8
  case 9: return k / 2;          // pairs of keys with equal hashes
  }
  return 0;
}
struct KeyI {
  uint64_t v;
  bool operator==(const KeyI &o) const { return v == o.v; }
};
struct HashI {
  size_t operator()(const KeyI &k) const { return hash_of(k.v); }
  size_t operator()(const al::A &k) const { return hash_of(k.get()); }
  size_t operator()(signed char k) const { return hash_of(k); }
  size_t operator()(const trk::T &k) const { return hash_of(k.get()); }
};
