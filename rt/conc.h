// Interface of the schedule explorer (see rt.cpp).
#pragma once
#include "rt.h"
#include <string>
#include <vector>

namespace rt {
enum Op { INSERT, UPSERT, UPDATE, DELETE, SEARCH, OTHER };
constexpr int NONE = -1; // "no value"

struct Program {
  std::string name;
  int nthreads = 2;
  int max_bound_quick = 2, max_bound_thorough = 3; // preemption bounds
  bool plain = true;                               // plain accesses to shared memory are scheduling points
  bool stubborn = false;                           // sleeping does not hand over to another thread
  bool tso = false;                                // stores may be delayed in a store buffer
  long max_execs_quick = 0, max_execs_thorough = 0; // 0: unlimited (a limited program is reported as not exhaustive)
  int shards = 8;
  virtual ~Program() {}
  virtual void setup() = 0;
  virtual void thread(int t) = 0;
  virtual void finish() = 0; // runs after all threads are done: observe, then destroy everything
  virtual void cleanup() {}  // drop harness-side (non-arena) state after every execution, also aborted ones
};
void add_program(Program *p);

// history of dictionary operations
int inv(int op, int key, int val);
void resp(int idx, int res); // INSERT: 1/0; others: old/found value or NONE
void point();                // an explicit scheduling point (an observable client event)
int choose(int n);           // a data choice enumerated by the explorer
uint64_t now();              // event counter (real-time order of client events)
void init_entry(int key, int val); // in setup(): the key is present before the threads start
// A scan recorded by inv(SEARCH, ..) observed vals[i] (or NONE) for each of the n >= 1 keys at some moment of its own.
void resp_scan(int idx, const int *keys, const int *vals, int n);
void check_linearizable(int kind = 2); // call at the end of finish(); reports LIN by default
bool dict_history_enabled();
std::string history_str();

// every check's main
int conc_main(int argc, char **argv);
} // namespace rt
