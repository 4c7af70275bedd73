// Configurations of indexes::btree::concurrent_map shared by its harnesses.
#pragma once
#include <cstring>
#include <map>
#include <string>
#include <utility>
#include <vector>
#include "indexes/btree/concurrent_map.h"
#include "indexes/btree/key.h"
#include "aligned.h"
#include "altprobe.h"
#include "tracked.h"
#include <cstdio>
#include <cstdlib>
#ifndef PAD
#define PAD 0
#endif
namespace bt = indexes::btree;
template <int NS, int TH, bool STATS, bool DBG> struct CTr : bt::btree_traits_default {
  static constexpr int NODE_SIZE = NS + PAD;
  static constexpr int NODE_MERGE_THRESHOLD = TH;
  static constexpr bool DEBUG = DBG;
  static constexpr bool STAT = STATS;
};
// abstract key k (0..) and probe p (-1..2U, even: key p/2, odd: between keys) <-> concrete key
struct LongK {
  using K = long;
  static K probe(int p) { return p - 11; }
  static int dec(const K &k) { return (int)(k + 11) / 2; }
};
struct StrK {
  using K = std::string;
  static K probe(int p) {
    char b[64];
    snprintf(b, sizeof b, "%03d-a-key-longer-than-any-small-buffer", p + 10);
    return b;
  }
  static int dec(const K &k) { return (atoi(k.c_str()) - 10) / 2; }
};
struct CompK {
  using K = bt::compound_key<int, int>;
  static K probe(int p) { return p < 0 ? K{-1, 5} : K{(p / 2) / 3, 2 * ((p / 2) % 3) + p % 2}; }
  static int dec(const K &k) { return std::get<0>(k) * 3 + std::get<1>(k) / 2; }
};
struct ByteK {
  using K = signed char;
  static K probe(int p) { return (K)(p - 40); }
  static int dec(const K &k) { return (k + 40) / 2; }
};
struct AlK {
  using K = al::A;
  static K probe(int p) { return K{p}; }
  static int dec(const K &k) { return k.get() / 2; }
};
struct TrkK {
  using K = trk::T;
  static K probe(int p) { return K{p}; }
  static int dec(const K &k) { return k.get() / 2; }
};

// Keys which only the caller can compare: no operators, every operation is given a comparator.
struct DynKey : bt::dynamic_key_base {
  short rank;
  char junk[6] = {}; // never compared
};
template <typename V, typename Tr> struct DynMap : bt::concurrent_map<DynKey, V, Tr> {
  using B = bt::concurrent_map<DynKey, V, Tr>;
  struct Cmp : B::dynamic_cmp {
    bool descending;
    explicit Cmp(bool d) : descending(d) {}
    bool less(const DynKey &a, const DynKey &b) const noexcept override { return descending ? a.rank > b.rank : a.rank < b.rank; }
    bool equal(const DynKey &a, const DynKey &b) const noexcept override { return a.rank == b.rank; }
  };
  static inline const Cmp cmp{true};
  DynMap() = default;
  DynMap(DynMap &&o) : B(std::move(o)) {}
  bool Insert(const DynKey &k, const V &v) { return B::Insert(k, v, &cmp); }
  auto Upsert(const DynKey &k, const V &v) { return B::Upsert(k, v, &cmp); }
  auto Update(const DynKey &k, const V &v) { return B::Update(k, v, &cmp); }
  auto Search(const DynKey &k) { return B::Search(k, &cmp); }
  auto Delete(const DynKey &k) { return B::Delete(k, &cmp); }
  auto begin() const { return B::begin(&cmp); }
  auto end() const { return B::end(&cmp); }
  auto cbegin() const { return B::cbegin(&cmp); }
  auto cend() const { return B::cend(&cmp); }
  auto rbegin() const { return B::rbegin(&cmp); }
  auto rend() const { return B::rend(&cmp); }
  auto crbegin() const { return B::crbegin(&cmp); }
  auto crend() const { return B::crend(&cmp); }
  auto lower_bound(const DynKey &k) const { return B::lower_bound(k, &cmp); }
  auto upper_bound(const DynKey &k) const { return B::upper_bound(k, &cmp); }
  template <bt::range_kind L, bt::range_kind R> auto range_iter(const DynKey &a, const DynKey &b) { return B::template range_iter<L, R>(a, b, &cmp); }
  template <bt::range_kind L, bt::range_kind R> auto rrange_iter(const DynKey &a, const DynKey &b) { return B::template rrange_iter<L, R>(a, b, &cmp); }
};
struct DynK { // the comparator puts large ranks first
  using K = DynKey;
  static K probe(int p) {
    K k;
    k.rank = 500 - p;
    k.junk[p & 3] = (char)(p * 37);
    return k;
  }
  static int dec(const K &k) { return (500 - k.rank) / 2; }
};
template <typename C, typename V, typename Tr> struct MapOf { using M = bt::concurrent_map<typename C::K, V, Tr>; };
template <typename V, typename Tr> struct MapOf<DynK, V, Tr> { using M = DynMap<V, Tr>; };
