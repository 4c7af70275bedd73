// Explicit-state search over the states of one container (sequential use).
#pragma once
#include "rt.h"
#include <string>
#include <vector>
namespace rt {
struct SeqUnit {
  std::string name;
  std::vector<int> prefix;   // operations leading to the start state
  std::vector<int> alphabet; // operations tried in every state
  int depth = 2;             // exhaustive up to this many operations after the prefix
  int shards = 1;            // split by first operation
};
struct SeqModel {
  std::string name;
  virtual ~SeqModel() {}
  virtual void reset() = 0;            // fresh container and reference (arena has been reset)
  virtual bool enabled(int op) { return true; } // judged on the reference in the current state
  virtual void apply(int op) = 0;      // perform on both, compare results
  virtual void observe() = 0;          // full comparison with the reference; may modify the container
  virtual uint64_t hash() = 0;         // canonical state hash
  virtual void destroy() = 0;          // destroy the container, check for leaks
  virtual std::string opname(int op) = 0;
  virtual std::vector<SeqUnit> units(bool thorough) = 0;
  long checks = 0; // number of individual comparisons made
};
void add_model(SeqModel *m);
int seq_main(int argc, char **argv);
} // namespace rt
