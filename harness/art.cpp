// Explicit-state exploration of the radix-tree maps used by one thread.
// Default: indexes::art::map (C06, C07).  -DCONC: indexes::art::concurrent_map (C08).
#ifdef DUMPS
#define ART_DUMP_ENABLED
#include "dump.h"
#endif
#ifdef CONC
#include "indexes/art/concurrent_map.h"
#else
#include "indexes/art/map.h"
#endif
#include "seq_dict.h"

struct Traits : indexes::art::art_traits_default {
#ifdef CONC
  static constexpr bool DEBUG = false;
#else
  static constexpr bool DEBUG = true;
#endif
};
template <typename Val> struct ArtAd {
  using V = Val;
#ifdef CONC
  using Map = indexes::art::concurrent_map<V, Traits>;
  static constexpr bool CYCLE = false, HEIGHT = false;
  static void maint(Map &m, int) {
    m.reclaim_all();
    m.reserve(100);
  }
  static void after_move(Map &) {}
#else
  using Map = indexes::art::map<V, Traits>;
  static constexpr bool CYCLE = true, HEIGHT = false;
  static void maint(Map &, int) {}
  static void after_move(Map &m) {
    if (m.size() != 0 || m.Search(1))
      fail(LIN, "a moved-from map still has contents");
  }
#endif
  static constexpr bool MOVABLE = true, HAS_SIZE = true;
  static Map *make(int) { return new Map(); }
  static Map *move(Map &m) { return new Map(std::move(m)); }
  static uint64_t key(uint64_t k) { return k; }
  static size_t size(Map &m) { return m.size(); }
  static void observe(Map &m, const std::map<uint64_t, int> &ref, long &checks) {
#ifdef DUMPS
    std::ostringstream o;
    m.dump(o);
    checks++;
    dmp::check_art(o.str(), ref, [](long v) { return (int)v; });
#endif
  }
};
static uint64_t bytes(std::vector<int> b) { // b[0] is the first byte the tree looks at
  uint64_t k = 0;
  for (int i = 0; i < 8; i++)
    k |= (uint64_t)(i < (int)b.size() ? b[i] : 0) << (8 * i);
  return k;
}

// Shapes: keys over {x,y} choices at three byte positions: all ways of sharing prefixes.
template <typename V> static AM<ArtAd<V>> *shapes(const char *n, std::vector<int> pos, std::vector<int> vals, int fill, int dq, int dt) {
  auto *a = new AM<ArtAd<V>>(n);
  std::vector<int> al;
  int P = pos.size(), nv = vals.size(), tot = 1;
  for (int i = 0; i < P; i++)
    tot *= nv;
  for (int x = 0; x < tot; x++) {
    std::vector<int> b(8, fill);
    int y = x;
    for (int i = 0; i < P; i++, y /= nv)
      b[pos[i]] = vals[y % nv];
    al.push_back(a->addkey(bytes(b)));
  }
  std::vector<int> g(8, fill ^ 0x55);
  a->ghosts.push_back(bytes(g));
  for (int p : {0, 2, 5, 7}) {
    std::vector<int> b(8, fill);
    for (int i = 0; i < P; i++)
      b[pos[i]] = vals[0];
    b[p] ^= 0x33;
    a->ghosts.push_back(bytes(b));
  }
  std::vector<int> full = al;
  al.push_back(a->op_move());
  al.push_back(a->op_maint());
  a->unit("empty", {}, al, dq, dt, 10);
  a->unit("full", full, al, 2, 3, 4);
  std::vector<int> rev(full.rbegin(), full.rend());
  a->unit("full-rev", rev, al, 2, 3, 4);
  // few keys, long histories
  std::vector<int> few;
  for (int i : {0, 1, nv, tot - 1})
    few.push_back(full[i]);
  std::vector<int> fal = few;
  for (int i : few)
    fal.push_back(a->op_over(i));
  fal.push_back(a->op_churn(few[0]));
  fal.push_back(a->op_churn(few[2]));
  a->unit("few", {}, fal, 4, 6, 4);
  a->unit("few-full", few, fal, 3, 5, 4);
  return a;
}

// Fan-out: a branch at byte `pos` below a shared prefix, growing through all node sizes.
template <typename V> static AM<ArtAd<V>> *fan(const char *n, int pos, std::vector<int> prefix, bool sibling, int tail, int dq = 2) {
  auto *a = new AM<ArtAd<V>>(n);
  std::vector<int> ks;
  auto mk = [&](int child) {
    std::vector<int> b(8, tail);
    for (int i = 0; i < pos; i++)
      b[i] = prefix[i];
    b[pos] = child;
    return bytes(b);
  };
  for (int c = 0; c < 256; c++)
    ks.push_back(a->addkey(mk(c)));
  std::vector<int> extra;
  // keys that leave the shared prefix at each of its bytes
  for (int i = 0; i < pos; i++) {
    std::vector<int> b(8, tail);
    for (int j = 0; j < pos; j++)
      b[j] = prefix[j];
    b[i] ^= 0x80;
    b[pos] = 7;
    int k = a->addkey(bytes(b));
    extra.push_back(k);
  }
  // a key below an existing child
  if (pos < 7) {
    std::vector<int> b(8, tail);
    for (int i = 0; i < pos; i++)
      b[i] = prefix[i];
    b[pos] = 2;
    b[7] = tail ^ 1;
    extra.push_back(a->addkey(bytes(b)));
    b[7] = tail;
    b[pos + 1] = tail ^ 0x40;
    if (pos + 1 < 7)
      extra.push_back(a->addkey(bytes(b)));
  }
  if (!std::count(a->keys.begin(), a->keys.end(), mk(3) ^ (1ull << 63)))
    a->ghosts.push_back(mk(3) ^ (1ull << 63));
  std::vector<int> base;
  if (sibling && !extra.empty())
    base.push_back(extra[0]);
  auto scatter = [](int i) { return (i * 91 + 17) & 255; };
  for (int order = 0; order < 3; order++)
    for (int cnt : {3, 4, 5, 15, 16, 17, 47, 48, 49, 255, 256}) {
      if (order == 1 && (cnt == 15 || cnt == 47 || cnt == 255))
        continue;
      std::vector<int> order_ks;
      for (int i = 0; i < 256; i++)
        order_ks.push_back(order == 0 ? ks[i] : order == 1 ? ks[255 - i] : ks[scatter(i)]);
      std::vector<int> pre = base;
      pre.insert(pre.end(), order_ks.begin(), order_ks.begin() + cnt);
      std::vector<int> al;
      auto add = [&](int k) {
        for (int x : al)
          if (x == k)
            return;
        al.push_back(k);
      };
      add(order_ks[0]);
      add(order_ks[1]);
      add(order_ks[cnt / 2]);
      add(order_ks[cnt - 1]);
      if (cnt > 2)
        add(order_ks[cnt - 2]);
      if (cnt < 256)
        add(order_ks[cnt]);
      if (cnt < 255)
        add(order_ks[cnt + 1]);
      for (int e : extra)
        add(e);
      add(a->op_maint());
      if (cnt == 16 && order == 0)
        add(a->op_move());
      a->unit("fan" + std::to_string(cnt) + "o" + std::to_string(order), pre, al, cnt > 50 ? 2 : dq, cnt > 50 ? 3 : 4, 4);
      // the same few children come and go
      std::vector<int> nar;
      for (int k : {order_ks[0], order_ks[cnt / 2], order_ks[cnt - 1]}) {
        if (k != order_ks[cnt / 2])
          nar.push_back(k);
        nar.push_back(a->op_churn(k));
      }
      nar.push_back(a->op_over(order_ks[0]));
      a->unit("narrow" + std::to_string(cnt) + "o" + std::to_string(order), pre, nar, cnt > 50 ? 2 : 3, cnt > 50 ? 4 : 5, 4);
      // come down from full size to cnt as well
      if (order != 1) {
        std::vector<int> pre2 = base;
        int top = cnt < 6 ? 20 : cnt < 20 ? 60 : 256;
        pre2.insert(pre2.end(), order_ks.begin(), order_ks.begin() + top);
        if (order == 2)
          for (int i = top - 1; i >= cnt; i--)
            pre2.push_back(order_ks[i]);
        else
          for (int i = 0; i < top - cnt; i++)
            pre2.push_back(order_ks[i]);
        al.resize(0);
        int lo = order == 2 ? 0 : top - cnt, hi = lo + cnt;
        add(order_ks[lo]);
        add(order_ks[(lo + hi) / 2]);
        add(order_ks[hi - 1]);
        if (cnt > 2)
          add(order_ks[hi - 2]);
        if (hi < 256)
          add(order_ks[hi]);
        if (lo > 0)
          add(order_ks[0]);
        for (int e : extra)
          add(e);
        if (cnt < 256)
          a->unit("down" + std::to_string(cnt) + "o" + std::to_string(order), pre2, al, 2, 3, 3);
      }
    }
  // bulk moves between sizes
  std::vector<int> al;
  int cuts[] = {0, 2, 5, 14, 18, 46, 50, 256};
  for (int i = 0; i + 1 < 8; i++)
    for (int j = i + 1; j < 8; j++)
      if (j == i + 1 || j == 7 || i == 0)
        for (int insdel = 0; insdel < 2; insdel++) {
          typename AM<ArtAd<V>>::Bulk b;
          b.ins = insdel == 0;
          b.n = std::string(b.ins ? "ins" : "del") + "[" + std::to_string(cuts[i]) + "," + std::to_string(cuts[j]) + ")";
          for (int c = cuts[i]; c < cuts[j]; c++)
            b.ks.push_back(ks[insdel ? cuts[j] - 1 - (c - cuts[i]) : c]);
          al.push_back(a->addbulk(b));
        }
  for (int e : extra)
    al.push_back(e);
  a->unit("bulk", base, al, 2, 3, 8);
  return a;
}

#ifndef PART
#define PART 0
#endif
#ifdef LIFETIME
using VT = trk::T;
#else
using VT = long;
#endif
namespace {
struct Reg {
  Reg() {
#ifdef LIFETIME
    const int D = 3, DF = 2;
#else
    const int D = 4, DF = 2;
#endif
    add_model(shapes<VT>("shapes first/middle/last byte", {0, 3, 7}, {1, 2, 255}, 9, D, D + 1));
    add_model(shapes<VT>("shapes deep bytes", {5, 6, 7}, {0, 128, 255}, 0, D, D + 1));
    add_model(shapes<VT>("shapes alternate bytes", {1, 4, 6}, {0, 7, 200}, 255, D, D + 1));
    add_model(shapes<VT>("shapes five binary bytes", {0, 2, 3, 5, 7}, {0, 1}, 0, 3, 4));
    add_model(fan<VT>("fan at byte 7 under a 7 byte prefix", 7, {1, 2, 3, 4, 5, 6, 7}, true, 0, DF));
    add_model(fan<VT>("fan at byte 7, no sibling", 7, {0, 0, 0, 0, 0, 0, 0}, false, 0, DF));
    add_model(fan<VT>("fan at byte 3 under a 3 byte prefix", 3, {9, 8, 7}, true, 77, DF));
    add_model(fan<VT>("fan at byte 1", 1, {200}, true, 3, DF));
    add_model(fan<VT>("fan at the root", 0, {}, false, 5, DF));
#if !defined(LIFETIME) && !defined(DUMPS)
    add_model(shapes<al::A>("shapes first/middle/last byte, values aligned to 32 bytes", {0, 3, 7}, {1, 2, 255}, 9, 3, 4));
    add_model(shapes<unsigned short>("shapes first/middle/last byte, 16 bit values", {0, 3, 7}, {1, 2, 255}, 9, 3, 4));
#endif
  }
} reg;
} // namespace
int main(int argc, char **argv) { return seq_main(argc, argv); }
