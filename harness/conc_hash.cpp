// All schedules of small client programs on the real indexes::hashtable::concurrent_map.
#include "indexes/hashtable/concurrent_map.h"
#include "dict_conc.h"
#include "hash_key.h"
#include <optional>
template <int LIMIT> struct TraitsL : indexes::hashtable::hashtable_traits_default {
  static constexpr LinkType LINEAR_SEARCH_LIMIT = LIMIT;
};
#ifdef LIFETIME
using KT = trk::T;
using VT = trk::T;
static KT mkkey(int k) { return trk::T{k}; }
static VT mkval(int v) { return trk::T{v}; }
static int getval(const VT &v) { return v.get(); }
#elif defined(WIDE) // plain bytes, but more than one access can copy
using KT = KeyI;
static KT mkkey(int k) { return KeyI{(uint64_t)k}; }
struct VT {
  long a, b, c;
};
static VT mkval(int v) { return {v, v, v}; }
static int getval(const VT &v) { return v.a == v.b && v.b == v.c ? (int)v.a : -77; }
#else
using KT = KeyI;
using VT = long;
static KT mkkey(int k) { return KeyI{(uint64_t)k}; }
static VT mkval(int v) { return v; }
static int getval(const VT &v) { return (int)v; }
#endif
struct HashA {
  using Map = indexes::hashtable::concurrent_map<KT, VT, HashI>;
  Map *m = nullptr;
#if !defined(LIFETIME) && !defined(WIDE)
  static void searches_never_wait() {}
#endif
  void make(int v) {
    NotSut n;
    trk::reset();
    Sut s;
    g_hashmode = v % 100;
    m = v / 100 ? new Map(v / 100) : new Map();
  }
  void destroy() { delete m; }
  static int get(const std::optional<VT> &o) { return o ? getval(*o) : NONE; }
  int ins(int k, int v) { return m->Insert(mkkey(k), mkval(v)); }
  int ups(int k, int v) { return get(m->Upsert(mkkey(k), mkval(v))); }
  int upd(int k, int v) { return get(m->Update(mkkey(k), mkval(v))); }
  int del(int k) { return get(m->Delete(mkkey(k))); }
  int find(int k) { return get(m->Search(mkkey(k))); }
  bool has_size() { return true; }
  size_t size() { return m->size(); }
  void size_extra(size_t found) {
    bool e;
    int lf;
    {
      Sut s;
      e = m->empty();
      lf = m->load_factor();
    }
    if (e != (found == 0))
      fail(SIZE, "all threads are done, " + std::to_string(found) + " keys are found, but empty() is " + (e ? "true" : "false"));
    bool ok = false;
    for (size_t b = 1; b <= (1u << 16); b *= 2)
      ok |= b >= found && lf == (int)(found * 100 / b);
    if (!ok)
      fail(SIZE, "all threads are done, " + std::to_string(found) + " keys are found, but load_factor() is " + std::to_string(lf));
  }
  void reclaim() { m->reclaim_all(); }
  void other(int k) {
    if (k >= 3) {
      m->reserve(k);
      return;
    }
    NoWait w("a query of the size");
    if (k == 0)
      (void)m->size();
    else if (k == 1) {
      int lf = m->load_factor();
      if (want(SIZE) && (lf < 0 || lf > 100))
        fail(SIZE, "load_factor() returns " + std::to_string(lf) + "; " + history_str());
    }
    else
      (void)m->empty();
  }
  void final_checks() {
    if (!trk::live().empty())
      fail(LIFE, std::to_string(trk::live().size()) + " key or value objects are never destroyed; " + history_str());
  }
  void cleanup() { m = nullptr; }
};
using G = Gen<HashA>;
int main(int argc, char **argv) {
  std::vector<std::string> k1 = {"i1", "u1", "m1", "d1", "s1"};
  auto plus = [](std::vector<std::string> a, const std::vector<std::string> &b) {
    a.insert(a.end(), b.begin(), b.end());
    return a;
  };
  // variants: hash function + 100 * capacity
  for (int v : {0, 1, 3, 4}) {
    std::string h = "hash function " + std::to_string(v);
    G::cross(h, v, "", plus(k1, {"i2", "u5", "s5"}), 3, 4);
    G::cross(h, v, "i1", plus(k1, {"i2", "u5", "d5", "s2"}), 2, 3);
    G::cross(h, v, "i2 i1", plus(k1, {"i3", "d2", "u5"}), 2, 3);
    G::cross(h, v, "i1 d1", plus(k1, {"i2", "s2"}), 2, 3);
  }
  // full table: the next insertion grows it
  for (int v : {0, 1, 6, 7}) {
    std::string h = "full table, hash function " + std::to_string(v);
    G::cross(h, v, "i1 i2 i3 i4", plus(k1, {"i5", "u5", "i6", "d2", "s5"}), 2, 3);
    G::cross(h, v, "i1 i2 i3 i4 d4", plus(k1, {"i5", "u4", "i4", "s4"}), 2, 3);
  }
  for (int v : {0, 1}) {
    std::string h = "growth against size queries, hash function " + std::to_string(v);
    for (const char *t : {"i5 | z", "i5 | o1", "i5 | o2", "o8 | z", "i5 | z o1", "d1 | z", "i5 i6 | z", "z | d1 i1", "u5 d5 | z"})
      G::make(h, v, "i1 i2 i3 i4", t, 2, 3);
    h = "reserve, hash function " + std::to_string(v);
    for (const char *t : {"o8 | i5", "o8 | u1", "o8 | m1", "o8 | d1", "o8 | s1", "o8 | o8", "o8 | d1 i1", "o8 | i5 s5", "o8 | u1 s1", "o8 | d1 u1"})
      G::make(h, v, "i1 i2 i3", t, 3, 4);
    G::make(h, v, "", "o8 | i5 d5", 2, 3);
    G::make(h, v, "i1 i2", "o8 o8 | i5 d1", 2, 3);
    for (const char *t : {"u1", "m1", "d1", "i5", "s1", "i5 s5", "d1 i1", "o1", "z"}) { // the table changes twice, or more often, meanwhile
      G::make(h + ", twice", v, "i1 i2 i3", std::string("o8 o8 | ") + t, 2, 3);
      G::make(h + ", table grows twice", v, "i1 i2 i3 i4", std::string("i6 i7 i8 i9 i10 | ") + t, 1, 2);
      G::make(h + ", smaller again", v, "i1 i2 i3", std::string("o40 d2 d3 o3 | ") + t, 1, 2);
    }
    for (const char *t : {"o8 | o8 | i5", "o8 | o8 | d1", "o8 | o40 | m1", "o8 | o8 | u5", "o8 | o8 | z"})
      G::make(h + ", three threads", v, "i1 i2 i3", t, 1, 2);
  }
  for (int v : {0, 1}) {
    for (const char *t : {"z | i5 d5", "o1 | i5 d5", "o8 | i5 d5"})
      for (const char *in : {"", "i1"})
        G::make("sizes read meanwhile, hash function " + std::to_string(v), v, in, t, 2, 3);
    G::make("sizes read meanwhile, hash function " + std::to_string(v), v, "", "z | i5 | d5", 2, 3);
    G::make("sizes read meanwhile, hash function " + std::to_string(v), v, "", "d5 | i5 | z", 2, 3);
  }
  // two operations against one or two
  for (int v : {0, 1}) {
    std::string h = "two ops, hash function " + std::to_string(v);
    for (const char *t : {"d1 i1 | u1", "d1 i1 | m1", "d1 i1 | s1 s1", "d1 | i1 s1", "i2 d2 | s1 s2", "d1 i2 | i1 s2", "i1 d1 | i1 d1", "u1 u1 | d1 s1", "d1 u1 | d1 u1",
                          "i2 i3 | i3 i2", "i5 s1 | d1 i1"})
      for (const char *in : {"i1", "i1 i2 i3 i4"})
        G::make(h, v, in, t, 2, 3);
  }
  // three threads
  for (int v : {0, 1})
    for (const char *t : {"d1 | i1 | s1", "d1 | d1 | i1", "u1 | m1 | d1", "i2 | i2 | d2", "i2 | i3 | i4", "i2 | i3 | s2"})
      for (const char *in : {"", "i1"})
        G::make("three threads, hash function " + std::to_string(v), v, in, t, 2, 3);
  for (int v : {0, 1})
    for (const char *t : {"i5 | i6 | d1", "i5 | u1 | s5", "i5 | m1 | d1", "i5 | i5 | s5", "o8 | i5 | d1", "o8 | m1 | s1", "i5 | d1 | z"})
      G::make("three threads, full table, hash function " + std::to_string(v), v, "i1 i2 i3 i4", t, 1, 2);
  return conc_main(argc, argv);
}
