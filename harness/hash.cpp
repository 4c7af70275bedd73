// Explicit-state exploration of the hash table used by one thread (C18; -DLIFETIME: C20).
#include "indexes/hashtable/concurrent_map.h"
#include "hash_key.h"
#include "seq_dict.h"
template <int LIMIT> struct TraitsL : indexes::hashtable::hashtable_traits_default {
  using LinkType = std::conditional_t<(LIMIT > 255), uint16_t, uint8_t>;
  static constexpr LinkType LINEAR_SEARCH_LIMIT = LIMIT;
};
#ifdef LIFETIME
using KT = trk::T;
using VT = trk::T;
static KT mkkey(uint64_t k) { return trk::T{(int)k}; }
#else
using KT = KeyI;
using VT = long;
static KT mkkey(uint64_t k) { return KeyI{k}; }
#endif
template <int LIMIT, typename K = KT, typename VV = VT> struct HashAd {
  using V = VV;
  using Map = indexes::hashtable::concurrent_map<K, V, HashI, TraitsL<LIMIT>>;
  static constexpr bool MOVABLE = true, HAS_SIZE = true, CYCLE = false, HEIGHT = false;
  static Map *make(int v) {
    g_hashmode = v % 100;
    int cap = v / 100;
    return cap ? new Map(cap) : new Map();
  }
  static Map *move(Map &m) { return new Map(std::move(m)); }
  static void after_move(Map &) {}
  static void maint(Map &m, int what) {
    if (what == 0)
      m.reclaim_all();
    else
      m.reserve(what == 1 ? 0 : what == 2 ? 3 : what == 3 ? 5 : 17);
  }
  static K key(uint64_t k) {
    if constexpr (std::is_same_v<K, KT>)
      return mkkey(k);
    else
      return K((int)k);
  }
  static size_t size(Map &m) { return m.size(); }
  static void observe(Map &m, const std::map<uint64_t, int> &ref, long &checks) {
    bool e;
    int lf;
    {
      Sut s;
      e = m.empty();
      lf = m.load_factor();
    }
    checks++;
    if (e != ref.empty())
      fail(LIN, std::string("empty() is ") + (e ? "true" : "false") + " with " + std::to_string(ref.size()) + " keys present");
    // size * 100 / a power of two, rounded down
    bool ok = false;
    for (size_t b = 1; b <= (1u << 20); b *= 2)
      ok |= lf == (int)(ref.size() * 100 / b) && b >= ref.size();
    if (!ok)
      fail(LIN, "load_factor() is " + std::to_string(lf) + " with " + std::to_string(ref.size()) + " keys present, which no table size explains");
  }
};
template <int LIMIT, typename K = KT, typename V = VT> static void family(const char *n, int cap, const std::vector<int> &modes, int nkeys, int dq, int dt, bool maint = true) {
  for (int m : modes) {
    auto *a = new AM<HashAd<LIMIT, K, V>>("");
    a->name = std::string(n) + ", capacity " + std::to_string(cap) + ", hash function " + std::to_string(m) + ", search limit " + std::to_string(LIMIT);
    a->variant = cap * 100 + m;
    std::vector<int> al;
    for (int i = 0; i < nkeys; i++)
      al.push_back(a->addkey(i));
    a->ghosts.push_back(nkeys);
    a->ghosts.push_back(nkeys + 4);
    // few keys, long histories
    std::vector<int> few = {al[0], al[1], al[nkeys - 1], a->op_over(0), a->op_over(nkeys - 1), a->op_churn(2)};
    if (maint)
      few.push_back(a->op_maint());
    std::vector<int> full = al, rev(al.rbegin(), al.rend()), half;
    for (int i = 0; i < nkeys; i += 2)
      half.push_back(al[i]);
    std::vector<int> churn; // many dead slots
    for (int i = 0; i < nkeys; i++)
      churn.push_back(al[i]), churn.push_back(al[i]);
    if (maint)
      for (int w = 0; w < 5; w++)
        al.push_back(a->op_maint() + w);
    al.push_back(a->op_move());
    a->unit("empty", {}, al, dq, dt, 4);
    a->unit("few", {}, few, dq + 1, dt + 1, 4);
    a->unit("full, few", full, few, 4, 5, 4);
    a->unit("churned, few", churn, few, 4, 5, 4);
    a->unit("full", full, al, 2, 3, 2);
    a->unit("full-rev", rev, al, 2, 3, 2);
    a->unit("half", half, al, 2, 3, 2);
    a->unit("churned", churn, al, 2, 3, 2);
    add_model(a);
  }
}
// Long histories: grow far from the smallest table.
template <int LIMIT> static void grow(int cap, int m, int nkeys, int stride) {
  auto *a = new AM<HashAd<LIMIT>>("");
  a->name = "growth, capacity " + std::to_string(cap) + ", hash function " + std::to_string(m) + ", stride " + std::to_string(stride) + ", search limit " + std::to_string(LIMIT);
  a->variant = cap * 100 + m;
  std::vector<int> pre;
  for (int i = 0; i < nkeys; i++)
    pre.push_back(a->addkey((uint64_t)i * stride));
  a->ghosts.push_back((uint64_t)nkeys * stride + 1);
  std::vector<int> al = {0, 1, nkeys / 2, nkeys - 1, a->op_maint(), a->op_maint() + 1, a->op_maint() + 4, a->op_move()};
  a->unit("grown", pre, al, 1, 2, 2);
  // delete most, then continue
  std::vector<int> pre2 = pre;
  for (int i = 0; i < nkeys - 2; i++)
    pre2.push_back(i);
  a->unit("grown and emptied", pre2, al, 2, 3, 2);
  for (int i = 0; i < nkeys - 2; i += 3)
    pre2.push_back(i);
  a->unit("grown, emptied, refilled", pre2, al, 1, 2, 2);
  add_model(a);
}
// A full run of neighbouring buckets longer than the search limit, and keys whose ideal bucket is its first one
// in every small enough table.
template <int LIMIT = 255> static void cluster(const std::vector<uint64_t> &far, int dq) {
  auto *a = new AM<HashAd<LIMIT>>("");
  a->name = LIMIT > 255 ? "wide links, cluster, then key" : "cluster, then key";
  for (auto f : far)
    a->name += " " + std::to_string(f);
  a->variant = 0;
  std::vector<int> pre, al;
  for (int i = 0; i < 300; i++)
    pre.push_back(a->addkey(i));
  for (auto f : far)
    al.push_back(a->addkey(f));
  al.push_back(0);
  al.push_back(255);
  a->unit("clustered", pre, al, dq, dq + 1, 2);
  add_model(a);
}
// Keys which fit into a roomy table, but not within the search limit of the smaller table that reserve() tries first.
template <int LIMIT> static void crowd(int cap, int m, const std::vector<uint64_t> &keys, int dq) {
  auto *a = new AM<HashAd<LIMIT>>("");
  a->name = "crowd, capacity " + std::to_string(cap) + ", hash function " + std::to_string(m) + ", search limit " + std::to_string(LIMIT);
  a->variant = cap * 100 + m;
  std::vector<int> pre, al;
  for (auto k : keys)
    al.push_back(a->addkey(k));
  a->ghosts.push_back(keys.back() + 1);
  pre = al;
  for (int w = 0; w < 5; w++)
    al.push_back(a->op_maint() + w);
  al.push_back(a->op_move());
  a->unit("empty", {}, al, dq, dq + 1, 2);
  a->unit("full", pre, al, dq - 1, dq, 2);
  add_model(a);
}
int main(int argc, char **argv) {
#ifdef KNOWN
  cluster({1ull << 40}, 1);
#elif defined GROWTH || defined TWINS
  family<255>("small", 0, {0, 1, 3, 4, 9}, 5, 5, 7);
  family<255>("small", 8, {8}, 8, 4, 5);
  family<2>("small", 4, {0, 6}, 6, 4, 6);
  family<3>("small", 4, {4}, 6, 4, 6);
  grow<255>(0, 0, 40, 1);
  grow<255>(0, 9, 40, 1);
  grow<3>(4, 6, 40, 1);
  grow<1>(4, 6, 24, 1);
  crowd<1>(64, 0, {0, 1, 8, 9, 16}, 4);
  crowd<2>(64, 9, {0, 2, 4, 5, 16, 17, 32}, 4);
#elif defined LIFETIME
  family<255>("small", 0, {0, 1, 4}, 5, 5, 6);
  family<255>("small", 8, {1, 3}, 6, 4, 5);
  family<2>("small", 4, {0, 5, 6}, 5, 5, 6);
  grow<255>(4, 0, 40, 1);
  grow<255>(0, 5, 20, 1);
  grow<3>(4, 6, 30, 1);
  grow<255>(0, 0, 300, 1);
  grow<1000>(0, 9, 200, 1);
  crowd<1>(64, 0, {0, 1, 8, 9, 16}, 4);
#else
  family<255>("small", 0, {0, 1, 2, 3, 4, 5, 6, 7, 9}, 5, 6, 7);
  family<255>("small", 1, {0, 1}, 4, 5, 7);
  family<255>("small", 5, {0, 1, 8}, 6, 5, 6);
  family<255>("small", 8, {1, 3, 8, 4}, 8, 4, 5);
  family<255>("small", 16, {0, 1, 7}, 6, 5, 6);
  family<255, al::A, al::A>("keys and values aligned to 32 bytes", 4, {0, 4}, 5, 4, 5);
  family<255, signed char, unsigned short>("byte keys, 16 bit values", 4, {0, 4}, 5, 4, 5);
  family<2>("small", 4, {0, 5, 6}, 6, 5, 6);
  family<3>("small", 4, {4}, 6, 5, 6);
  for (int m : {0, 5, 6, 9})
    for (int cap : {0, 3, 64})
      grow<255>(cap, m, 70, 1);
  for (int m : {1, 2, 3, 4, 7})
    grow<255>(0, m, 70, 1);
  grow<3>(4, 6, 40, 1);
  grow<1>(4, 0, 40, 1);
  grow<1>(4, 6, 24, 1);
  grow<255>(0, 0, 300, 1);
  grow<255>(0, 0, 60, 1024);
  crowd<1>(64, 0, {0, 1, 8, 9, 16}, 5);
  crowd<1>(128, 0, {0, 1, 2, 16, 17, 32, 33}, 4);
  crowd<2>(64, 0, {0, 1, 2, 8, 9, 16}, 4);
  crowd<2>(64, 9, {0, 2, 4, 5, 16, 17, 32}, 4);
  cluster({512, 1024, 4096}, 3);
  cluster<1000>({512, 513, 1024, 766, 4096}, 3);
  cluster<65535>({512, 1023, 4096}, 2);
  family<1000>("wide links", 0, {0, 4}, 5, 5, 6);
  grow<1000>(0, 0, 300, 1);
  grow<1000>(0, 9, 300, 1);
  grow<65535>(0, 4, 300, 1);
#endif
  return seq_main(argc, argv);
}
