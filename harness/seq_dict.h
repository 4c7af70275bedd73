// Explicit-state model of a dictionary container used by one thread: the real container against std::map.
#pragma once
#include "../rt/seq.h"
#include "aligned.h"
#include "growth.h"
#include "tracked.h"
#include <algorithm>
#include <array>
#include <map>
#include <optional>
using namespace rt;

template <typename V> struct VCodec;
template <> struct VCodec<long> {
  static long val(int v) { return v; }
  static int dec(long v) { return (int)v; }
};
template <> struct VCodec<unsigned short> {
  static unsigned short val(int v) { return (unsigned short)v; }
  static int dec(unsigned short v) { return v; }
};
template <> struct VCodec<al::A> {
  static al::A val(int v) { return al::A{v}; }
  static int dec(const al::A &v) { return v.get(); }
};
template <> struct VCodec<trk::T> {
  static trk::T val(int v) { return trk::T{v}; }
  static int dec(const trk::T &v) { return v.get(); }
};
// Adapter Ad: types Map, V; static Map *make(int variant); static key(uint64_t) -> key type;
//             static maint(Map&, int); static after_move(Map &moved_from) ; flags HAS_SIZE, CYCLE, ALIASES_LIMIT
template <typename Ad> struct AM : SeqModel {
  using Map = typename Ad::Map;
  using V = typename Ad::V;
  using VC = VCodec<V>;
  int variant = 0;
  Map *m = nullptr;
  std::map<uint64_t, int> ref;
  std::vector<uint64_t> keys; // the universe
  std::vector<uint64_t> ghosts; // never inserted
  std::vector<SeqUnit> us, us_th;
  int U = 0;
  size_t base_blocks = 0;
  std::vector<std::pair<uint32_t, uint32_t>> not_nodes; // numbers of allocations which are not nodes of a tree
  int level = 0; // height before the operation
  int ver = 0;
  AM(const char *n) { name = n; }
  // ops: 0..U-1 toggle; U move; U+1 reclaim/reserve; U+2.. bulk
  struct Bulk {
    std::vector<int> ks;
    bool ins;
    std::string n;
  };
  std::vector<Bulk> bulk;
  int addkey(uint64_t k) {
    keys.push_back(k);
    return U++;
  }
  // operations: 0.. toggles of a key, then (16 bits in all)
  enum { OVER = 15000, CHURN = 30000, BULK = 45000, MOVE = 60000 };
  int op_move() const { return MOVE; }
  int op_maint() const { return MOVE + 1; }
  int op_over(int i) const { return OVER + i; }   // overwrites the key with the value it has
  int op_churn(int i) const { return CHURN + i; } // two toggles of the key
  int addbulk(Bulk b) {
    bulk.push_back(b);
    return BULK + bulk.size() - 1;
  }
  std::string opname(int o) override {
    char b[80];
    if (o == op_move())
      return "move";
    if (o >= op_maint() && o < op_maint() + 100)
      return "maintain" + S(o - op_maint());
    if (o >= BULK)
      return bulk[o - BULK].n;
    snprintf(b, sizeof b, "%s(%#llx)", o >= CHURN ? "churn" : o >= OVER ? "overwrite" : "toggle", (unsigned long long)keys[o % OVER]);
    return b;
  }
  static std::string H(uint64_t k) {
    char b[40];
    snprintf(b, sizeof b, "%#llx", (unsigned long long)k);
    return b;
  }
  static std::string S(int v) { return std::to_string(v); }
  void reset() override {
    trk::reset();
    ref.clear();
    ver = 0;
    Sut s;
    m = Ad::make(variant);
    base_blocks = live_blocks();
    NotSut ns;
    not_nodes = {{0, blocks_so_far()}};
    level = 0;
  }
  uint64_t hash() override { return heap_hash(m, sizeof(Map)); }
  static int get(const std::optional<V> &o) { return o ? VC::dec(*o) : -1; }
  int val(uint64_t k) { return 1 + (int)((k * 0x9E3779B97F4A7C15ull) >> 52); }
  int search(uint64_t k) {
    Sut s;
    return get(m->Search(Ad::key(k)));
  }
  int cur(uint64_t k) {
    auto it = ref.find(k);
    return it == ref.end() ? -1 : it->second;
  }
  void height(bool may_grow, uint64_t k, const char *after) {
    if constexpr (Ad::HEIGHT) {
      int h = Ad::height(*m);
      if (h > level + may_grow)
        fail(SHAPE, std::string(after) + "(" + H(k) + ") raises height() from " + S(level) + " to " + S(h));
      level = h;
    }
  }
  void quick(uint64_t k, const char *after, bool added = false) {
    checks++;
    height(added, k, after);
    int f = search(k);
    if (f != cur(k))
      fail(LIN, std::string("after ") + after + "(" + H(k) + ") a search for it yields " + S(f) + ", expected " + S(cur(k)));
    if (!Ad::HAS_SIZE)
      return;
    size_t sz;
    {
      Sut s;
      sz = Ad::size(*m);
    }
    if (sz != ref.size())
      fail(LIN | SIZE, std::string("after ") + after + "(" + H(k) + ") size() is " + S(sz) + ", expected " + S(ref.size()));
  }
  void ins(uint64_t k, bool ups, int v) {
    bool ok;
    int old = -1;
    {
      Sut s;
      if (ups) {
        old = get(m->Upsert(Ad::key(k), VC::val(v)));
        ok = true;
      } else
        ok = m->Insert(Ad::key(k), VC::val(v));
    }
    checks++;
    if (ups ? old != cur(k) : ok != (cur(k) == -1))
      fail(LIN, std::string(ups ? "upsert" : "insert") + "(" + H(k) + ") returns " + S(ups ? old : ok) + " but the previous value was " + S(cur(k)));
    bool added = cur(k) == -1;
    if (ups || added)
      ref[k] = v;
    quick(k, ups ? "upsert" : "insert", added);
  }
  void upd(uint64_t k, int v) {
    int old;
    {
      Sut s;
      old = get(m->Update(Ad::key(k), VC::val(v)));
    }
    checks++;
    if (old != cur(k))
      fail(LIN, "update(" + H(k) + ") returns " + S(old) + " but the previous value was " + S(cur(k)));
    if (ref.count(k))
      ref[k] = v;
    quick(k, "update");
  }
  void del(uint64_t k) {
    int old;
    {
      Sut s;
      old = get(m->Delete(Ad::key(k)));
    }
    checks++;
    if (old != cur(k))
      fail(LIN, "delete(" + H(k) + ") returns " + S(old) + " but the previous value was " + S(cur(k)));
    ref.erase(k);
    quick(k, "delete");
  }
  void toggle(uint64_t k, int i) {
    if (ref.count(k))
      del(k);
    else
      ins(k, i & 1, val(k));
  }
  bool enabled(int o) override {
    if (o < OVER || o >= MOVE || (o >= CHURN && o < BULK))
      return true;
    if (o < CHURN)
      return ref.count(keys[o - OVER]);
    auto &b = bulk[o - BULK];
    for (int i : b.ks)
      if ((bool)ref.count(keys[i]) != b.ins)
        return true;
    return false;
  }
  void apply(int o) override {
    if (o == op_move()) {
      Sut s;
      if (!Ad::MOVABLE)
        return;
      uint32_t before = blocks_so_far();
      Map *n = Ad::move(*m);
      {
        NotSut ns;
        not_nodes.push_back({before, blocks_so_far()});
      }
      Ad::after_move(*m);
      delete m;
      m = n;
    } else if (o >= op_maint() && o < op_maint() + 100) {
      Sut s;
      Ad::maint(*m, o - op_maint());
    } else if (o >= CHURN && o < BULK) {
      toggle(keys[o - CHURN], o);
      toggle(keys[o - CHURN], o + 1);
    } else if (o >= OVER && o < CHURN) {
      uint64_t k = keys[o - OVER];
      ins(k, true, cur(k));
      upd(k, cur(k));
      ins(k, false, 4002); // fails
    } else if (o >= BULK) {
      for (int i : bulk[o - BULK].ks)
        if ((bool)ref.count(keys[i]) != bulk[o - BULK].ins)
          toggle(keys[i], i);
    } else
      toggle(keys[o], o);
  }
  void all_present(const char *when) {
    for (auto k : keys) {
      checks++;
      int f = search(k);
      if (f != cur(k))
        fail(LIN, std::string(when) + " a search for " + H(k) + " yields " + S(f) + ", expected " + S(cur(k)));
    }
    for (auto k : ghosts)
      if (search(k) != -1)
        fail(LIN, std::string(when) + " a search for " + H(k) + ", which was never inserted, succeeds");
  }
  void shape() {
    if constexpr (Ad::HEIGHT) {
      if (!want(SHAPE))
        return;
      int h = Ad::height(*m);
      auto one = [&](uint64_t k) {
        auto key = Ad::key(k);
        int n;
        {
          Sut s;
          touch_start(Ad::NODE_SIZE, not_nodes);
          (void)m->Search(key);
          n = touch_stop();
        }
        checks++;
        if (n != h)
          fail(SHAPE, "height() is " + S(h) + ", but the search for " + H(k) + " passes through " + S(n) + " nodes");
      };
      for (auto k : keys)
        one(k);
      for (auto k : ghosts)
        one(k);
    }
  }
  void growth() {
    auto contents = ref;
    std::vector<int> some = {0, (int)keys.size() / 2, (int)keys.size() - 1};
    for (int i : some)
      checks += plateau("deleting and inserting " + H(keys[i]), 1, ref.size(), [&](int r) {
        toggle(keys[i], r);
        toggle(keys[i], r + 1);
      });
    if (!ref.empty()) {
      checks += plateau("replacing the value of " + H(ref.begin()->first), 1, ref.size(), [&](int r) {
        ins(ref.begin()->first, true, 10 + r % 7);
        upd(ref.begin()->first, 20 + r % 7);
      });
      checks += plateau("emptying and filling the map", ref.size(), ref.size(), [&](int r) {
        std::vector<uint64_t> present;
        for (auto &kv : ref)
          present.push_back(kv.first);
        for (size_t i = 0; i < present.size(); i++)
          del(present[r & 1 ? present.size() - 1 - i : i]);
        for (auto k : present)
          ins(k, r & 2, 3);
      });
    }
    std::vector<uint64_t> others;
    for (auto k : keys)
      if (!contents.count(k) && others.size() < 8)
        others.push_back(k);
    if (!others.empty())
      checks += plateau("inserting other keys, and deleting them,", others.size(), ref.size(), [&](int r) {
        for (auto k : others)
          ins(k, r & 1, 3), del(k);
      });
    for (int w = 0; w < 5; w++)
      checks += plateau("reclaiming or reserving (" + S(w) + ")", 16, ref.size(), [&](int) {
        Sut s;
        Ad::maint(*m, w);
      });
  }
  // Other maps of the same type, with other contents, are created, changed and destroyed next to this one.
  Map *tw = nullptr, *tmp = nullptr; // tw is destroyed later than this map
  std::map<uint64_t, int> tref;
  std::vector<uint64_t> some; // the keys looked at
  static void twin_is(Map &x, const std::map<uint64_t, int> &r, uint64_t k, const std::string &what) {
    int f;
    {
      Sut s;
      f = get(x.Search(Ad::key(k)));
    }
    auto it = r.find(k);
    int e = it == r.end() ? -1 : it->second;
    if (f != e)
      fail(TWIN, what + ": a search for " + H(k) + " yields " + S(f) + ", expected " + S(e) + ", although only the contents of another map have changed");
  }
  static void twin_are(Map &x, const std::map<uint64_t, int> &r, const std::vector<uint64_t> &ks, const std::string &what) {
    for (auto k : ks)
      twin_is(x, r, k, what);
    if constexpr (Ad::HAS_SIZE) {
      size_t sz;
      {
        Sut s;
        sz = Ad::size(x);
      }
      if (sz != r.size())
        fail(TWIN, what + ": size() is " + S(sz) + ", expected " + S(r.size()));
    }
  }
  template <class A2> static auto twin_walk(A2 *, Map &x, const std::map<uint64_t, int> &r, Map &y, const std::map<uint64_t, int> &q) -> decltype(A2::lockstep(x, r, y, q), void()) {
    A2::lockstep(x, r, y, q);
  }
  static void twin_walk(void *, Map &, const std::map<uint64_t, int> &, Map &, const std::map<uint64_t, int> &) {}
  using Heights = std::array<int, 3>;
  Heights heights(const Map &but) { // of the maps other than but
    Heights h{};
    if constexpr (Ad::HEIGHT) {
      Sut s;
      Map *all[] = {m, tw, tmp};
      for (int i = 0; i < 3; i++)
        if (all[i] != &but && all[i])
          h[i] = Ad::height(*all[i]);
    }
    return h;
  }
  void twin_set(Map &x, std::map<uint64_t, int> &r, uint64_t k, int v, const char *what) { // v < 0: deletes it
    int old, e = r.count(k) ? r[k] : -1;
    Heights before = heights(x);
    {
      Sut s;
      old = v < 0 ? get(x.Delete(Ad::key(k))) : get(x.Upsert(Ad::key(k), VC::val(v)));
    }
    if (v < 0)
      r.erase(k);
    else
      r[k] = v;
    if (old != e)
      fail(TWIN, std::string(what) + ": the previous value of " + H(k) + " is " + S(old) + ", expected " + S(e));
    if (heights(x) != before)
      fail(TWIN, std::string(what) + " was changed, and the height of another one with it");
    checks++;
  }
  void twins() {
    some.clear();
    for (size_t i = 0; i < keys.size(); i += 1 + keys.size() / 40)
      some.push_back(keys[i]);
    const std::vector<uint64_t> in = some; // not the ghosts: tables with a search limit cannot hold every set of keys
    some.insert(some.end(), ghosts.begin(), ghosts.end());
    twin_are(*m, ref, some, "this map");
    std::map<uint64_t, int> tmpref;
    tref.clear();
    {
      Sut s;
      tw = Ad::make(variant);
      tmp = Ad::make(variant);
    }
    twin_are(*m, ref, some, "this map, another one created");
    twin_are(*tw, tref, some, "a new map");
    int i = 0;
    for (auto k : in) {
      twin_set(*tw, tref, k, 2000 + i, "the second map");
      if (i % 2)
        twin_set(*tmp, tmpref, k, 3000 + i, "the third map");
      if (i % 3 == 0)
        twin_set(*m, ref, k, ref.count(k) ? -1 : 1000 + i, "this map, used together with others");
      twin_is(*m, ref, k, "this map");
      twin_is(*tw, tref, k, "the second map");
      twin_is(*tmp, tmpref, k, "the third map");
      i++;
    }
    twin_are(*m, ref, some, "this map, others filled");
    twin_are(*tw, tref, some, "the second map");
    twin_walk((Ad *)nullptr, *m, ref, *tw, tref);
    for (auto k : in) {
      if (i % 2)
        twin_set(*tw, tref, k, -1, "the second map");
      if (tmpref.count(k) && i % 3)
        twin_set(*tmp, tmpref, k, -1, "the third map");
      i++;
    }
    if (Ad::MOVABLE) {
      Sut s;
      Map *n = Ad::move(*tmp);
      delete tmp;
      tmp = n;
    }
    {
      Sut s;
      for (int w = 0; w < 5; w++)
        Ad::maint(*tw, w);
    }
    twin_are(*m, ref, some, "this map, others thinned");
    twin_are(*tw, tref, some, "the second map");
    twin_are(*tmp, tmpref, some, "the third map");
    {
      Sut s;
      delete tmp;
      tmp = nullptr;
    }
    twin_are(*m, ref, some, "this map, another one destroyed");
    twin_are(*tw, tref, some, "the second map, another one destroyed");
    i = 0;
    for (auto k : in) {
      twin_set(*m, ref, k, i % 2 ? 1500 + i : -1, "this map, used together with others");
      twin_is(*tw, tref, k, "the second map");
      i++;
    }
    twin_are(*m, ref, some, "this map");
    twin_are(*tw, tref, some, "the second map");
  }
  void observe() override {
    if (want(TWIN))
      return twins();
    if (want(GROW))
      growth();
    shape();
    if (want(LIN))
      all_present("in this state");
    if (want(LIN | LIFE)) {
      // operations that must not change the set of keys
      for (size_t i = 0; i < keys.size(); i++) {
        uint64_t k = keys[i];
        if (keys.size() > 40 && i % (keys.size() > 1000 ? 499 : 5) && !(i + 2 > keys.size()))
          continue;
        if (ref.count(k)) {
          ins(k, false, 4001); // fails
          upd(k, 5000 + i);
          ins(k, true, 6000 + i); // overwrites
        } else {
          del(k);
          upd(k, 7);
        }
      }
      for (auto k : ghosts) {
        del(k);
        upd(k, 9);
      }
      if (want(LIN))
        all_present("after overwriting present keys and deleting and updating absent ones,");
    }
    if constexpr (Ad::CYCLE) if (want(LIFE)) {
      // emptying and refilling does not accumulate memory
      std::vector<uint64_t> present;
      for (auto &kv : ref)
        present.push_back(kv.first);
      size_t b[3];
      for (int round = 0; round < 3; round++) {
        for (auto k : present)
          if (ref.count(k))
            del(k);
        {
          Sut s;
          b[round] = live_bytes();
        }
        if (round < 2)
          for (auto k : present)
            ins(k, round, 3);
      }
      checks++;
      if (b[2] > b[1])
        fail(LIFE, "filling and emptying the map grows its memory: " + S(b[0]) + ", " + S(b[1]) + ", " + S(b[2]) + " bytes when empty");
    }
    Ad::observe(*m, ref, checks);
  }
  void destroy() override {
    {
      Sut s;
      delete m;
    }
    m = nullptr;
    checks++;
    if (tw) {
      twin_are(*tw, tref, some, "the second map, another one destroyed");
      Sut s;
      delete tw;
      tw = nullptr;
    }
    if (want(LIFE)) {
      if (!trk::live().empty())
        fail(LIFE, S(trk::live().size()) + " value objects are still alive after the map was destroyed");
      if (live_blocks())
        fail(LIFE, S(live_blocks()) + " allocations are still live after the map was destroyed:" + describe_live());
    }
  }
  std::vector<SeqUnit> units(bool th) override { return th ? us_th : us; }
  void unit(const std::string &n, std::vector<int> prefix, std::vector<int> alpha, int dq, int dt, int shq = 4) {
    SeqUnit u;
    u.name = n;
    u.prefix = prefix;
    u.alphabet = alpha;
    u.depth = dq;
    u.shards = shq;
    if (dq)
      us.push_back(u);
    u.depth = dt;
    u.shards = alpha.size();
    us_th.push_back(u);
#if defined GROWTH || defined TWINS // every state is much more work
    for (auto *l : {&us, &us_th})
      if (l == &us_th || dq)
        l->back().depth = std::max(1, l->back().depth - 2);
#endif
  }
};

