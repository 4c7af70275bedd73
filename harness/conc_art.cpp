// All schedules of small client programs on the real indexes::art::concurrent_map.
#include "indexes/art/concurrent_map.h"
#include "dict_conc.h"
#include "tracked.h"
#include <optional>
struct Traits : indexes::art::art_traits_default {
  static constexpr bool DEBUG = false;
};
// key numbers: two digits "pq" -> byte 0 is p+1 and byte 1 is q for families of neighbouring keys;
// 100..199: byte 0 varies (fans at the root); 200..299: byte 7 varies below a common 7 byte prefix;
// 300..399: byte 3 varies below a 3 byte prefix
static uint64_t mk(int n) {
  if (n < 100)
    return (uint64_t)(n / 10 + 1) | (uint64_t)(n % 10) << 8;
  if (n < 200)
    return n - 100;
  if (n < 300)
    return 0x0007060504030201ull | (uint64_t)(n - 200) << 56;
  return 0x0706050400030201ull | (uint64_t)(n - 300) << 24;
}
#ifdef LIFETIME
using VT = trk::T; // values which own memory and know whether they are alive
static VT mkval(int v) { return trk::T{v}; }
static int getval(const VT &v) { return v.get(); }
#elif defined(WIDE) // plain bytes, but more than one access can copy
struct VT {
  long a, b, c;
};
static VT mkval(int v) { return {v, v, v}; }
static int getval(const VT &v) { return v.a == v.b && v.b == v.c ? (int)v.a : -77; }
#else
using VT = long;
static VT mkval(int v) { return v; }
static int getval(const VT &v) { return (int)v; }
#endif
struct ArtA {
  using Map = indexes::art::concurrent_map<VT, Traits>;
  Map *m = nullptr;
#if !defined(LIFETIME) && !defined(WIDE)
  static void searches_never_wait() {}
#endif
  void make(int) {
    NotSut n;
    trk::reset();
    Sut s;
    m = new Map();
  }
  void destroy() { delete m; }
  static int get(const std::optional<VT> &o) { return o ? getval(*o) : NONE; }
  int ins(int k, int v) { return m->Insert(mk(k), mkval(v)); }
  int ups(int k, int v) { return get(m->Upsert(mk(k), mkval(v))); }
  int upd(int k, int v) { return get(m->Update(mk(k), mkval(v))); }
  int del(int k) { return get(m->Delete(mk(k))); }
  int find(int k) { return get(m->Search(mk(k))); }
  bool has_size() { return true; }
  size_t size() { return m->size(); }
  void size_extra(size_t) {}
  void reclaim() { m->reclaim_all(); }
  void other(int) { (void)m->size(); }
  void final_checks() {
    if (!trk::live().empty())
      fail(LIFE, std::to_string(trk::live().size()) + " value objects are never destroyed; " + history_str());
  }
  void cleanup() { m = nullptr; }
};
using G = Gen<ArtA>;
static std::vector<int> range(int a, int b) {
  std::vector<int> r;
  for (; a <= b; a++)
    r.push_back(a);
  return r;
}
int main(int argc, char **argv) {
  // single operations against each other in every small shape
  std::vector<std::string> k1 = {"i1", "u1", "m1", "d1", "s1"};
  auto plus = [](std::vector<std::string> a, const std::vector<std::string> &b) {
    a.insert(a.end(), b.begin(), b.end());
    return a;
  };
  G::cross("empty", 0, "", plus(k1, {"i2", "i11"}), 3, 4);
  G::cross("root leaf", 0, "i1", plus(k1, {"i2", "u2", "i11", "s2"}), 3, 4);
  G::cross("root node4, two leaves", 0, "i1 i11", plus(k1, {"d11", "i2", "i12", "i21", "s11"}), 2, 3);
  G::cross("shared prefix", 0, "i1 i2", plus(k1, {"d2", "i3", "i11", "u12", "s2"}), 2, 3);
  G::cross("prefix below root", 0, "i1 i2 i11", plus(k1, {"d2", "d11", "i3", "i12", "i21", "s2"}), 2, 3);
  G::cross("full root node4", 0, "i1 i11 i21 i31", plus(k1, {"i41", "u51", "d11", "i2", "s41"}), 2, 3);
  G::cross("full node4 below root", 0, "i1 i2 i3 i4 i11", plus(k1, {"i5", "u6", "d2", "i11", "i21", "s5"}), 2, 3);
  G::cross("full node4 with deleted slot", 0, "i1 i2 i3 i4 d4 i11", plus(k1, {"i5", "u6", "d2", "i4"}), 2, 3);
  G::cross("full node4 below 7 byte prefix", 0, "i201 i202 i203 i204", {"i205", "u206", "d201", "m202", "s203", "i1"}, 2, 3);
  G::cross("emptied node", 0, "i1 i2 d1 d2 i11", plus(k1, {"i2", "i3", "d11"}), 2, 3);
  G::cross("emptied root", 0, "i1 d1", plus(k1, {"i2", "i11"}), 2, 3);
  G::cross("full node16", 0, "i131 i132", {"i117", "u118", "d131", "m132", "s131"}, 1, 2, 1, range(102, 115));
  G::cross("full node16 with deleted slot", 0, "i131 i132 d132", {"i117", "u118", "d131", "m131", "i132"}, 1, 2, 1, range(102, 115));
  G::cross("full node48", 0, "i171 i172", {"i181", "u182", "d171", "m172", "s171"}, 1, 2, 1, range(102, 147));
  G::cross("node48 with a free slot", 0, "i171 i172", {"i181", "u182", "d171", "m172", "s181"}, 1, 2, 1, range(102, 146));
  G::cross("node256", 0, "i171 i172", {"i181", "u182", "d171", "m172", "s181"}, 1, 2, 1, range(102, 150));
  G::cross("full node4 below 3 byte prefix", 0, "i301 i302 i303 i304", {"i305", "u306", "d301", "s303", "i1"}, 2, 3);
  // two operations against one or two
  for (const char *t : {"d1 i1 | u1", "d1 i1 | m1", "d1 i1 | s1 s1", "d1 | i1 s1", "i2 d2 | s1 s2", "d1 i2 | i1 s2", "i1 d1 | i1 d1", "u1 u1 | d1 s1",
                        "d1 i11 | i11 d1", "m1 s1 | d1 i1", "d1 u1 | d1 u1"})
    for (const char *in : {"i1", "i1 i2", "i1 i11"})
      G::make("two ops", 0, in, t, 2, 3);
  G::make("two ops, full node4", 0, "i1 i2 i3 i4", "i5 d1 | i6 s5", 2, 3);
  G::make("two ops, full node4", 0, "i1 i2 i3 i4", "i5 d5 | u1 s1", 2, 3);
  G::make("two ops, expand and split", 0, "i1 i2 i3 i4 i11", "i5 | i21 s5", 2, 3);
  G::make("two ops, reuse", 0, "i1 i2 i3 i4", "d4 i4 | i5 d5", 2, 3);
  for (const char *in : {"", "i1"})
    for (const char *t : {"z | i2 d2", "z | i2 | d2", "d2 | i2 | z", "z | u2 d1", "d1 | z"})
      G::make("sizes read meanwhile", 0, in, t, 2, 3);
  // the structure changes twice, or more often, meanwhile
  auto twice = [](const char *in, const char *t1, const std::vector<std::string> &ops, int bq) {
    for (auto &o : ops)
      G::make("changed twice", 0, in, std::string(t1) + " | " + o, bq, bq + 1);
  };
  twice("i1 i2 i3 i4", "i5 i11 i21", {"s1", "u1", "m1", "d1", "i6", "i12", "i11", "d1 i1"}, 2);
  twice("i1 i2", "i11 i3 i4 i5", {"s1", "u1", "m1", "d1", "i5", "i6", "i21"}, 2);
  twice("i1", "i2 i11 i21", {"s1", "u1", "m1", "d1", "i3", "i12", "i2"}, 2);
  twice("i1", "d1 i2 i1", {"s1", "u1", "m1", "d1", "i3", "i11", "i2 s1"}, 2);
  twice("i1 i2", "d1 d2 i11 i1", {"s1", "u1", "m2", "d2", "i3", "i2"}, 2);
  twice("i201 i202", "i301 i1", {"s201", "u201", "m202", "d201", "i203", "i302", "i2"}, 2);
  twice("i201 i202", "i1 i301", {"s201", "u201", "m202", "d201", "i203", "i302", "i2"}, 2);
  twice("i102 i103 i104 i105", "i106 i107 i108 i109 i110 i111 i112 i113 i114 i115 i116 i117 i118", {"s102", "u102", "m102", "d102", "i150"}, 1);
  // three threads
  for (const char *t : {"d1 | i1 | s1", "d1 | d1 | i1", "u1 | m1 | d1", "i2 | i2 | d2", "i2 | i3 | s2"})
    for (const char *in : {"", "i1", "i1 i11"})
      G::make("three threads", 0, in, t, 2, 3);
  G::make("three threads, full node4", 0, "i1 i2 i3 i4", "i5 | i6 | d1", 2, 3, 4);
  G::make("three threads, full node4", 0, "i1 i2 i3 i4 i11", "i5 | m1 | s1", 2, 3, 4);
  return conc_main(argc, argv);
}
