// Key / value type of an alignment beyond what plain allocation gives, which checks where it is put.
#pragma once
#include "../rt/rt.h"
#include <cstdint>
#include <functional>
namespace al {
struct alignas(32) A {
  int v;
  explicit A(int v_ = 0) : v(v_) { here(); }
  A(const A &o) : v(o.v) { here(), o.here(); }
  A &operator=(const A &o) {
    here(), o.here();
    v = o.v;
    return *this;
  }
  ~A() { here(); }
  void here() const {
    volatile uintptr_t a = (uintptr_t)this; // the compiler believes the type
    if (a % 32) {
      rt::NotSut n;
      rt::fail(rt::CRASH, "an object of a type aligned to 32 bytes lies at an address which is not a multiple of 32");
    }
  }
  int get() const {
    here();
    return v;
  }
};
inline bool operator<(const A &a, const A &b) { return a.get() < b.get(); }
inline bool operator>(const A &a, const A &b) { return b < a; }
inline bool operator<=(const A &a, const A &b) { return !(b < a); }
inline bool operator>=(const A &a, const A &b) { return !(a < b); }
inline bool operator==(const A &a, const A &b) { return a.get() == b.get(); }
inline bool operator!=(const A &a, const A &b) { return !(a == b); }
} // namespace al
