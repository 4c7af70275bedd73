// Key / value types whose construction, use and destruction is audited.
#pragma once
#include "../rt/rt.h"
#include <functional>
#include <string>
#include <unordered_map>

namespace trk {
// live objects: address -> payload. Kept outside the arena.
inline std::unordered_map<const void *, int> &live() {
  static auto *m = [] { rt::NotSut n; return new std::unordered_map<const void *, int>(); }();
  return *m;
}
inline void reset() {
  rt::NotSut n;
  live().clear();
}
inline void born(const void *p, int v) {
  rt::NotSut n;
  if (!live().emplace(p, v).second)
    rt::fail(rt::LIFE, "an object is constructed over another object that is still alive");
}
inline void died(const void *p) {
  rt::NotSut n;
  if (!live().erase(p))
    rt::fail(rt::LIFE, "an object that is not alive is destroyed");
}
inline bool alive(const void *p, const char *what) {
  rt::NotSut n;
  if (!live().count(p)) {
    rt::fail(rt::LIFE, std::string("an object that is not alive is ") + what);
    return false;
  }
  return true;
}
// Owns a heap cell so that leaks and double frees are also visible to the allocator.
struct T {
  int *cell;
  T() : cell(new int(0)) { born(this, 0); }
  explicit T(int v) : cell(new int(v)) { born(this, v); }
  T(const T &o) : cell(alive(&o, "copied") ? new int(*o.cell) : new int(-99)) { born(this, *cell); }
  T(T &&o) : cell(alive(&o, "moved") ? new int(*o.cell) : new int(-99)) { born(this, *cell); }
  T &operator=(const T &o) {
    if (alive(this, "assigned to") && alive(&o, "assigned from") && this != &o) {
      int *old = cell;
      cell = new int(*o.cell); // like a string: a reader without a lock can see the old cell freed
      delete old;
    }
    return *this;
  }
  ~T() {
    died(this);
    delete cell;
  }
  int get() const { return alive(this, "read") ? *cell : -99; }
};
inline bool operator<(const T &a, const T &b) { return a.get() < b.get(); }
inline bool operator>(const T &a, const T &b) { return b.get() < a.get(); }
inline bool operator==(const T &a, const T &b) { return a.get() == b.get(); }
inline bool operator!=(const T &a, const T &b) { return !(a == b); }
inline bool operator<=(const T &a, const T &b) { return !(b < a); }
inline bool operator>=(const T &a, const T &b) { return !(a < b); }
} // namespace trk
template <> struct std::hash<trk::T> {
  size_t operator()(const trk::T &t) const { return (size_t)t.get(); }
};
