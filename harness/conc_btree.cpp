// All schedules of small client programs on the real indexes::btree::concurrent_map.
#ifdef DUMPS
#define BTREE_DUMP_ENABLED
#include "dump.h"
#endif
#include "cbtree.h"
#include "dict_conc.h"
#include <optional>
using bt::EXCLUSIVE;
using bt::INCLUSIVE;
#ifdef LIFETIME
using CK = TrkK;
using VT = trk::T;
static VT mkval(int v) { return trk::T{v}; }
static int getval(const VT &v) { return v.get(); }
#elif defined(WIDE) // plain bytes, but more than one access can copy
using CK = LongK;
struct VT {
  long a, b, c;
};
static VT mkval(int v) { return {v, v, v}; }
static int getval(const VT &v) { return v.a == v.b && v.b == v.c ? (int)v.a : -77; }
#else
using CK = LongK;
using VT = long;
static VT mkval(int v) { return v; }
static int getval(const VT &v) { return (int)v; }
#endif
#ifndef NSIZE
#define NSIZE 160
#endif
#ifndef NTH
#define NTH 30
#endif
#ifdef DUMPS
#define WITH_STATS true
#endif
#ifndef WITH_STATS
#define WITH_STATS false
#endif
using Tr = CTr<NSIZE, NTH, WITH_STATS, false>;
// scans recorded as one search of every key of the universe at some moment of the scan
struct BtA {
  using Map = bt::concurrent_map<CK::K, VT, Tr>;
  Map *m = nullptr;
  std::vector<int> *uni = nullptr;
  static CK::K K(int k) { return CK::probe(2 * k); }
  void make(int) {
    NotSut n;
    trk::reset();
    Sut s;
    m = new Map();
  }
  void destroy() { delete m; }
  static constexpr int NODE = NSIZE;
  int height() { return m->height(); }
  static int get(const std::optional<VT> &o) { return o ? getval(*o) : NONE; }
  int ins(int k, int v) { return m->Insert(K(k), mkval(v)); }
  int ups(int k, int v) { return get(m->Upsert(K(k), mkval(v))); }
  int upd(int k, int v) { return get(m->Update(K(k), mkval(v))); }
  int del(int k) { return get(m->Delete(K(k))); }
  int find(int k) { return get(m->Search(K(k))); }
  template <class M> static size_t sizeOf(M *m) {
    if constexpr (WITH_STATS)
      return m->size();
    return 0;
  }
  template <class M> static bool emptyOf(M *m) {
    if constexpr (WITH_STATS)
      return m->empty();
    return false;
  }
  bool has_size() { return WITH_STATS; }
  size_t size() {
    return sizeOf(m);
  }
  void size_extra(size_t found) {
    if constexpr (WITH_STATS) {
      bool e;
      {
        Sut s;
        e = emptyOf(m);
      }
      if (e != (found == 0))
        fail(SIZE, "all threads are done, " + std::to_string(found) + " keys are found, but empty() is " + (e ? "true" : "false"));
    }
  }
  void reclaim() { m->reclaim_all(); }
#ifdef DUMPS
  void at_rest(const std::vector<int> &present) {
    std::vector<long> keys;
    for (int k : present)
      keys.push_back(K(k));
    std::ostringstream o;
    m->dump(o);
    auto ls = dmp::check_btree(o.str(), keys);
    if (want(STATS) && m->stats().num_elements != present.size())
      fail(STATS, std::to_string(m->stats().num_elements) + " elements are counted in a map of " + std::to_string(present.size()) + "; " + history_str());
    dmp::check_stats(m->stats(), ls);
  }
#endif
  void final_checks() {
    if (!trk::live().empty())
      fail(LIFE, std::to_string(trk::live().size()) + " key or value objects are never destroyed; " + history_str());
  }
  void cleanup() { m = nullptr; }
  // kind*10000 + lo*100 + hi (doubled positions); kinds: 0 forward, 1 reverse, 2 lower_bound on, 3 upper_bound on, 4.. range []/[)/(]/(), 8.. reverse ranges
  // 12: forward to the end of the map and back; 13: the same from the last entry
  template <bt::range_kind L, bt::range_kind R, class F> void ranged(bool rev, int lo, int hi, F &&f) {
    if (rev)
      for (auto it = m->template rrange_iter<L, R>(CK::probe(lo), CK::probe(hi)); it && f(it);)
        ++it;
    else
      for (auto it = m->template range_iter<L, R>(CK::probe(lo), CK::probe(hi)); it && f(it);)
        ++it;
  }
  void other(int code) {
    int kind = code / 10000, lo = code / 100 % 100, hi = code % 100;
    if (kind == 99) {
      (void)size();
      return;
    }
    bool rev = kind == 1 || (kind >= 8 && kind <= 11), rng = kind >= 4 && kind <= 11;
    bool linc = kind < 4 ? kind != 3 : (kind - 4) % 4 < 2, hinc = kind < 4 || (kind - 4) % 2 == 0;
    if (kind < 2)
      lo = -1, hi = 199;
    if (kind == 2 || kind == 3)
      hi = 199;
    int keys[64], vals[64], got = 0, last = rev ? 1000 : -1000;
    NotSut ns;
    std::string seen;
    int h = inv(SEARCH, 0, 0);
    auto step = [&](auto &it) {
      int k, v;
      {
        Sut s;
        k = CK::dec(it.key());
        v = getval(it.data());
      }
      seen += " " + std::to_string(k) + ":" + std::to_string(v);
      if (rev ? k >= last : k <= last)
        fail(SCAN, std::string("a ") + (rev ? "reverse" : "forward") + " scan delivers" + seen + "; " + history_str());
      last = k;
      if (2 * k < lo || 2 * k > hi || (!linc && 2 * k == lo) || (!hinc && 2 * k == hi))
        fail(SCAN, "a scan of " + std::to_string(lo) + ".." + std::to_string(hi) + "/2 delivers" + seen + "; " + history_str());
      keys[got] = k, vals[got] = v;
      return ++got < 40;
    };
    {
      Sut s;
      if (kind == 0)
        for (auto it = m->begin(), e = m->end(); it != e && step(it); ++it)
          ;
      else if (kind == 1)
        for (auto it = m->rbegin(), e = m->rend(); it != e && step(it); ++it)
          ;
      else if (kind == 2)
        for (auto it = m->lower_bound(CK::probe(lo)), e = m->end(); it != e && step(it); ++it)
          ;
      else if (kind == 3)
        for (auto it = m->upper_bound(CK::probe(lo)), e = m->end(); it != e && step(it); ++it)
          ;
      else if ((kind - 4) % 4 == 0)
        ranged<INCLUSIVE, INCLUSIVE>(rev, lo, hi, step);
      else if ((kind - 4) % 4 == 1)
        ranged<INCLUSIVE, EXCLUSIVE>(rev, lo, hi, step);
      else if ((kind - 4) % 4 == 2)
        ranged<EXCLUSIVE, INCLUSIVE>(rev, lo, hi, step);
      else
        ranged<EXCLUSIVE, EXCLUSIVE>(rev, lo, hi, step);
    }
    (void)rng;
    // keys of the universe in the range which were not delivered
    int n = got;
    for (int k : *uni) {
      if (2 * k < lo || 2 * k > hi || (!linc && 2 * k == lo) || (!hinc && 2 * k == hi))
        continue;
      bool have = false;
      for (int i = 0; i < got; i++)
        have |= keys[i] == k;
      if (!have)
        keys[n] = k, vals[n++] = NONE;
    }
    if (n == 0)
      keys[0] = 999, vals[0] = NONE, n = 1;
    resp_scan(h, keys, vals, n);
  }
};
using G = Gen<BtA>;
static std::string code(int kind, int lo = 0, int hi = 0) { return "o" + std::to_string(kind * 10000 + lo * 100 + hi); }
static DictProgram<BtA> *mk(const std::string &label, const std::string &init, const std::string &threads, int bq, int bt, int shards = 1) {
#if defined(SCANS) && (defined(WIDE) || defined(LIFETIME)) && !defined(KNOWN)
  // An iterator hands out a reference to the value in its leaf, an update replaces it there (known finding, see -DKNOWN).
  if (threads.find('m') != std::string::npos)
    return nullptr;
#endif
  auto *p = G::make(label, 0, init, threads, bq, bt, shards);
  p->a.uni = &p->universe;
  p->stubborn = true;
#ifdef SCANS
  p->hist_kind = SCAN;
#endif
  return p;
}
static void cross(const std::string &label, const std::string &init, const std::vector<std::string> &ops, int bq, int bt) {
  for (size_t i = 0; i < ops.size(); i++)
    for (size_t j = i; j < ops.size(); j++)
      if (ops[i][0] != 's' || ops[j][0] != 's')
        mk(label, init, ops[i] + " | " + ops[j], bq, bt);
}
// every pair of one of a and one of b
static void against(const std::string &label, const std::string &init, const std::vector<std::string> &a, const std::vector<std::string> &b, int bq, int bt) {
  for (auto &x : a)
    for (auto &y : b)
      mk(label, init, x + " | " + y, bq, bt);
}
int main(int argc, char **argv) {
  // with 4 entries per node; a leaf with less than 3 entries left by a deletion is merged into its left neighbour
  const std::string FULL = "i10 i20 i30 i40", TRIM = FULL + " d30 d40", TWO = FULL + " i42", TWOFULL = TWO + " i44", INNER = "i4 i8 i12 i16 i20 i24 i28 i32 i36 i40",
                    INNERTRIM = INNER + " d12 d24", LEFTTRIM = TWO + " i11 i12 d11 d12", RIGHTTRIM = TWO + " i11 i12 d30 d40 i41", GONE = "i10 d10",
                    THREE = "i4 i8 i12 i16 i20 i24 i28", EMPTIED = THREE + " d4 d8", TALL = INNER + " i42 i43 i44 i45", TALLMERGE = TALL + " d28", BOTHFULL = TWOFULL + " i5 i15";
#ifdef KNOWN
  mk("value replaced under an iterator", FULL, code(0) + " | m20", 2, 2);
#elif defined(SCANS)
  std::string fwd = code(0), rev = code(1);
  std::vector<std::string> all = {fwd, rev};
  against("scan of one full leaf", FULL, {fwd, rev, code(2, 30, 0), code(3, 40, 0), code(4, 30, 60), code(11, 30, 60)}, {"i15", "i35", "d10", "m20", "u45", "d10 i10", "d20 i25"}, 2, 3);
  against("scan of a leaf due for compaction", TRIM, {fwd, rev}, {"i15", "i30", "d10", "i30 i40", "i15 d15"}, 2, 3);
  std::vector<std::string> two = {"i25", "i45", "d30", "d10", "d42", "m40", "d30 i30", "i43 i44", "i9 i11", "d30 d40", "i41 d40"};
  against("scan of two leaves", TWO, {fwd, rev}, two, 2, 3);
  against("range scan of two leaves", TWO, {code(4, 20, 80), code(7, 20, 80), code(8, 20, 84), code(11, 20, 84), code(8, 20, 84)}, two, 2, 3);
  against("reverse range scan from the end of a leaf", TWO, {code(8, 10, 46), code(9, 10, 46), code(10, 20, 58), code(11, 10, 60), code(8, 0, 90), code(9, 0, 90)},
          {"i25", "i22 i24", "i29", "d30", "d20", "i45", "d42"}, 2, 3);
  against("scan, right leaf full", TWOFULL, {fwd, rev, code(8, 50, 88), code(5, 40, 84)}, {"i35", "d30", "i43", "d44 d42", "u41 d30", "i15"}, 2, 3);
  against("scan of three leaves", THREE, {fwd, rev, code(4, 16, 48), code(11, 16, 48), code(2, 24, 0), code(3, 24, 0)}, {"d12", "d20", "d12 d20", "i13", "i17 i18", "i25 i26", "d20 i20", "m16"}, 2, 3);
  against("scan over an emptied first leaf", EMPTIED, {fwd, rev, code(8, 0, 30)}, {"i4", "d12", "i8 d12", "d20 i5"}, 2, 3);
  against("scan, full inner node", INNER, {fwd, rev, code(8, 20, 70)}, {"i33", "d12", "i5 i6 i7", "d12 d24"}, 1, 3);
  against("scan, inner node due for compaction", INNERTRIM, {fwd, rev}, {"i33", "i5", "d28"}, 1, 3);
  against("scan of three levels", TALL, {fwd, rev}, {"i41", "d12", "d28"}, 1, 2);
  against("scan, leaf changed twice", "i10 i20", {fwd, rev, code(8, 10, 30)}, {"i5 i3", "i15 i12", "i30 i25", "i15 d10", "d10 i12", "d20 i5"}, 2, 3);
  against("scan, inner node changed twice", THREE, {fwd, rev}, {"i5 i6 i7 i1 i2 i3", "i25 i26 i27 i29 i30 i31", "d12 d20 d16"}, 1, 2);
  against("scan of an empty map", "", {fwd, rev, code(8, 10, 30), code(2, 10, 0), code(3, 10, 0)}, {"i10", "i10 d10", "i10 i20"}, 3, 4);
  against("scan of an emptied map", GONE, {fwd, rev, code(8, 10, 30)}, {"i10", "i10 d10", "i10 i20"}, 3, 4);
  for (const char *t : {"i25 | d30", "d30 | d42", "i45 | i25", "d30 | i30", "i43 i44 | d10"})
    for (auto &s : {fwd, rev, code(8, 20, 84)})
      mk("scan, two writers, two leaves", TWO, s + " | " + t, 1, 2);
  for (const char *t : {"d12 | d20", "i13 | d20", "i17 i18 | d12"})
    for (auto &s : {fwd, rev})
      mk("scan, two writers, three leaves", THREE, s + " | " + t, 1, 2);
#else
  cross("empty", "", {"i10", "u10", "m10", "d10", "s10", "i20"}, 3, 4);
  cross("one key", "i10", {"i10", "u10", "m10", "d10", "s10", "i20", "s20"}, 3, 4);
  cross("emptied leaf", GONE, {"i10", "u10", "m10", "d10", "s10", "i20"}, 3, 4);
  cross("full root leaf", FULL, {"i15", "u35", "i10", "m10", "d10", "m40", "s10", "s15"}, 2, 3);
  cross("root leaf due for compaction", TRIM, {"i15", "u30", "m10", "d10", "s10", "s30"}, 2, 3);
  cross("two leaves, due for merging", TWO, {"d30", "d10", "i25", "u43", "m30", "m10", "s30", "s10", "s42"}, 2, 3);
  cross("right leaf full", TWOFULL, {"i35", "u41", "d30", "m40", "m30", "s44", "s30", "d20"}, 2, 3);
  cross("left leaf due for compaction", LEFTTRIM, {"i15", "u12", "d10", "m20", "s20", "s12", "d30"}, 2, 3);
  cross("right leaf due for compaction", RIGHTTRIM, {"i43", "u35", "d42", "m41", "s42", "s30", "d10", "i13"}, 2, 3);
  cross("both leaves full", BOTHFULL, {"i12", "u43", "d30", "m20", "m42", "d5", "s15", "s44"}, 2, 3);
  for (const char *t : {"i12 | i43 i41", "i43 | i12 i13", "u12 | i43 d44", "i13 | d30 d40 d42", "i12 d12 | i43 s12", "m20 | i43 i41", "d5 | i43 i41", "s15 | i43 i41", "d44 | i12 i13"})
    mk("two ops, both leaves full", BOTHFULL, t, 2, 3);
  cross("full inner node", INNER, {"i33", "i38", "d12", "m28", "s40", "i5"}, 2, 3);
  cross("inner node due for compaction", INNERTRIM, {"i33", "i5", "d28", "m16", "s40"}, 2, 3);
  cross("three leaves", THREE, {"d12", "d20", "i13", "m16", "s16", "d4"}, 2, 3);
  cross("first leaf emptied", EMPTIED, {"i4", "d12", "i13", "s8", "m12"}, 2, 3);
  cross("three levels", TALL, {"i41", "d12", "d28", "m45", "s32", "d20"}, 1, 2);
  cross("three levels, merged", TALLMERGE, {"i41", "d12", "d36", "m45", "s32"}, 1, 2);
  for (const char *t : {"d10 i10 | u10", "d10 i10 | m10", "d10 i10 | s10 s10", "d10 | i10 s10", "i15 d15 | s10 s15", "d10 i15 | i10 s15", "i10 d10 | i10 d10", "u10 u10 | d10 s10", "i15 s10 | i25 s15"})
    for (auto &in : {GONE, FULL, TRIM, TWO})
      mk("two ops", in, t, 2, 3);
  for (const char *t : {"d30 i30 | s30 s40", "i43 i44 | d42 s44", "d30 d40 | m42 s40", "i25 d25 | d30 s20", "d10 d20 | i15 s30", "d30 i25 | s25 s30"})
    mk("two ops, two leaves", TWO, t, 2, 3);
  for (const char *t : {"d12 d20 | s24 s16", "d12 i12 | d20 s12", "i17 i18 | d20 s16", "d20 d12 | m16 m24"})
    mk("two ops, three leaves", THREE, t, 2, 3);
  // a node is changed twice, or more often, meanwhile
  against("leaf changed twice", "i10 i20", {"s20", "s10", "s15", "m10", "d20", "i13"}, {"i5 i3", "i15 i12", "i30 i25", "i15 d10", "d10 i12", "i5 d5", "d20 i5"}, 2, 3);
  against("leaf changed twice", "i10 i20 i30", {"s20", "s30", "m10", "d20"}, {"i5 d10", "i15 d20", "d10 i5", "d10 d20"}, 2, 3);
  against("leaf split or merged, and changed again", FULL, {"s10", "s40", "m30", "d20"}, {"i15 d30", "i15 d10 d20", "i35 i33 i37", "i15 i12 i11"}, 1, 2);
  against("inner node changed twice", THREE, {"s24", "s4", "s16", "m28", "d16", "i21"}, {"i5 i6 i7 i1 i2 i3", "i25 i26 i27 i29 i30 i31", "d12 d20 d16", "i13 i14 i15 d20 d24"}, 1, 2);
  for (const char *t : {"i5 | i3 | s20", "i15 | i12 | s20", "i5 | d10 | s20"})
    mk("three threads, leaf changed twice", "i10 i20", t, 1, 2);
  if (WITH_STATS)
    for (const char *t : {"z | i15 d15", "z | i15 | d15", "d15 | i15 | z", "d10 | z"})
      for (const char *in : {"", "i10"})
        mk("sizes read meanwhile", in, t, 2, 3);
  for (const char *t : {"d10 | i10 | s10", "d10 | d10 | i10", "u10 | m10 | d10", "i15 | i15 | d15", "i15 | i25 | s15", "i15 | d10 | m20"})
    for (auto &in : {std::string(), FULL, TRIM})
      mk("three threads", in, t, 2, 3);
  for (const char *t : {"d30 | i25 | s30", "d30 | d10 | i15", "d30 | m40 | s42", "d42 | d30 | s40"})
    mk("three threads, two leaves", TWO, t, 1, 2);
  for (const char *t : {"i35 | d30 | s44", "i35 | i43 | m40", "i35 | i15 | s40"})
    mk("three threads, right leaf full", TWOFULL, t, 1, 2);
  for (const char *t : {"d12 | d20 | s16", "d12 | d20 | m24", "d20 | i13 | s12"})
    mk("three threads, three leaves", THREE, t, 1, 2);
#endif
  rt::optimistic_reads = true;
  return conc_main(argc, argv);
}
