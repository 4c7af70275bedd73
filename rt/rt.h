// Runtime shared by all harnesses: arena allocator with an exact allocation table, controlled
// scheduler (fibers in one OS thread), hooks called by the stub sync_prim headers.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <utility>
#include <vector>

namespace rt {
// ---- mode switches -------------------------------------------------------------------------
extern bool recycle; // memory freed at the end of the arena is used again
extern bool in_sut; // while true, operator new goes to the arena
struct Sut {
  bool old;
  Sut() : old(in_sut) { in_sut = true; }
  ~Sut() { in_sut = old; }
};
struct NotSut {
  bool old;
  NotSut() : old(in_sut) { in_sut = false; }
  ~NotSut() { in_sut = old; }
};

// ---- arena ------------------------------------------------------------------------------------
void arena_reset();
size_t live_blocks();
size_t live_bytes();
std::string describe_live(int max = 4);
bool addr_live(const void *p, size_t n); // all of [p,p+n) inside one live block (or outside the arena)
bool in_arena(const void *p);
uint64_t heap_hash(const void *root, size_t n); // canonical hash of the heap graph reachable from root
uint32_t blocks_so_far(); // number of allocations ever made
// counts the different blocks of at least `min` bytes touched from touch_start to touch_stop, except those whose number is in
// one of the ranges (instrumented builds)
void touch_start(size_t min, const std::vector<std::pair<uint32_t, uint32_t>> &except);
int touch_stop();
extern bool poison_freed;
extern bool optimistic_reads; // RACE: plain reads may race with writes (but not with allocation and deallocation)

// ---- errors -----------------------------------------------------------------------------------
enum Kind {
  OK = 0,
  MEM = 1,      // use after free, out of bounds, double free, leak
  LIN = 2,      // not linearizable / wrong result / wrong final contents
  PROGRESS = 4, // deadlock, livelock, lock misuse
  CRASH = 8,    // assertion, signal, exception
  SIZE = 16,    // size() wrong at quiescence
  SCAN = 32,    // scan property
  LIFE = 64,    // object lifetime (constructor / destructor pairing)
  PROP = 128,   // harness specific property
  SHAPE = 256,  // depth of the tree
  RACE = 512,   // data race
  DUMP = 1024,  // what dump() prints
  STATS = 2048, // the counters of a map's statistics
  GROW = 8192,  // memory grows although the contents do not
  NOWAIT = 4096, // an operation that never waits for other threads waits
  TWIN = 16384,  // one container affects another one
};
// reports a violation of the given kind. Returns if this kind is masked out, otherwise never returns.
void fail(int kind, const std::string &msg);
bool want(int kind); // is this kind of violation being looked for in this run?

// ---- hooks used by stubs -----------------------------------------------------------------------
int self();               // thread slot 0..
void set_nslots(int n);   // MaxThreadID()+1
int nslots();
void mutex_ctor(void *m);
void mutex_dtor(void *m);
void mutex_lock(void *m);
bool mutex_trylock(void *m);
void mutex_unlock(void *m);
bool mutex_is_locked(void *m);
void yield_point();
// while it exists, the running thread must not wait for another one
struct NoWait {
  NoWait(const char *what);
  ~NoWait();
};
} // namespace rt
