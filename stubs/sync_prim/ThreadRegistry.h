// Stand-in for the missing sync_prim submodule: thread slots are the checker's fiber numbers.
#pragma once
#include "../../rt/rt.h"
#include <atomic>
namespace sync_prim {
class ThreadRegistry {
public:
  static constexpr int MAX_THREADS = 4; // the third thread of a program has the last slot
  static bool RegisterThread() { return true; }
  static void UnregisterThread() {}
  static int ThreadID() { return rt::self(); }
  static int MaxThreadID() { return rt::nslots() - 1; }
};
} // namespace sync_prim
