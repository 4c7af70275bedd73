// Stand-in for the missing sync_prim submodule: a mutex that is a scheduling point of the checker.
#pragma once
#include "../../rt/rt.h"
#include <mutex>
namespace sync_prim::mutex {
class Mutex {
  uint64_t m_word = 0;
public:
  Mutex() { rt::mutex_ctor(this); }
  ~Mutex() { rt::mutex_dtor(this); }
  Mutex(const Mutex &) = delete;
  Mutex &operator=(const Mutex &) = delete;
  void lock() { rt::mutex_lock(this); }
  bool try_lock() { return rt::mutex_trylock(this); }
  void unlock() { rt::mutex_unlock(this); }
  bool is_locked() const { return rt::mutex_is_locked(const_cast<Mutex *>(this)); }
};
} // namespace sync_prim::mutex
