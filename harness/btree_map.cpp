// Explicit-state exploration of indexes::btree::map (C01, C02, C03, C05; -DDUMPS: C27, C28).
#ifdef DUMPS
#define BTREE_DUMP_ENABLED
#include "dump.h"
#endif
#include "indexes/btree/key.h"
#include "indexes/btree/map.h"
#include "../rt/seq.h"
#include "aligned.h"
#include "growth.h"
#include "altprobe.h"
#include "tracked.h"
#include <climits>
#include <array>
#include <map>
#include <optional>
#include <set>

#ifndef PAD
#define PAD 0
#endif
using namespace rt;
namespace bt = indexes::btree;

template <int NS, int TH> struct Tr : bt::btree_traits_default {
  static constexpr int NODE_SIZE = NS + PAD;
  static constexpr int NODE_MERGE_THRESHOLD = TH;
  static constexpr bool DEBUG = true;
#ifdef DUMPS
  static constexpr bool STAT = true;
#else
  static constexpr bool STAT = false;
#endif
};

// ---- codecs: abstract key k (0..U-1) and probe p (-1..2U) <-> concrete key -------------------------
struct IntKey {
  using K = int;
  using Cmp = std::less<K>;
  static K key(int k) { return probe(2 * k); }
  static K probe(int p) { return p - 11; }
  static int dec(const K &k) { return (k + 11) / 2; }
};
struct DescKey { // ordered by a comparator of its own
  using K = int;
  using Cmp = std::greater<>;
  static K key(int k) { return probe(2 * k); }
  static K probe(int p) { return 29 - p; }
  static int dec(const K &k) { return (29 - k) / 2; }
};
struct NoOrder { // has no operators, only the comparator knows the order
  int v;
};
struct NoOrderKey {
  using K = NoOrder;
  struct Cmp {
    constexpr bool operator()(const K &a, const K &b) const { return (a.v ^ 0x55) < (b.v ^ 0x55); }
  };
  static K key(int k) { return probe(2 * k); }
  static K probe(int p) { return {(p + 1) ^ 0x55}; }
  static int dec(const K &k) { return ((k.v ^ 0x55) - 1) / 2; }
};
struct ExtremeKey { // the smallest and largest representable keys take part
  using K = int;
  using Cmp = std::less<K>;
  static K key(int k) { return k == 0 ? INT_MIN : k >= 30 ? INT_MAX - 2 * (31 - k) : (k - 15) * 1000; }
  static K probe(int p) { return p < 0 ? INT_MIN : p % 2 == 0 ? key(p / 2 > 31 ? 31 : p / 2) : p / 2 >= 31 ? INT_MAX : key(p / 2) + 1; }
  static int dec(const K &k) {
    for (int i = 0; i < 32; i++)
      if (key(i) == k)
        return i;
    return -1;
  }
};
struct StrKey {
  using K = std::string;
  using Cmp = std::less<K>;
  static K key(int k) { return probe(2 * k); }
  static K probe(int p) {
    char b[64];
    snprintf(b, sizeof b, "%03d-a-key-longer-than-any-small-buffer", p + 10);
    return b;
  }
  static int dec(const K &k) { return (atoi(k.c_str()) - 10) / 2; }
};
struct CompKey {
  using K = bt::compound_key<int, int>;
  using Cmp = std::less<K>;
  static K key(int k) { return K{k / 3, 2 * (k % 3)}; }
  static K probe(int p) { return p < 0 ? K{-1, 5} : K{(p / 2) / 3, 2 * ((p / 2) % 3) + p % 2}; }
  static int dec(const K &k) { return std::get<0>(k) * 3 + std::get<1>(k) / 2; }
};
struct TrkKey {
  using K = trk::T;
  using Cmp = std::less<K>;
  static K key(int k) { return K{2 * k}; }
  static K probe(int p) { return K{p}; }
  static int dec(const K &k) { return k.get() / 2; }
};
struct ByteKey {
  using K = signed char;
  using Cmp = std::less<>;
  static K key(int k) { return probe(2 * k); }
  static K probe(int p) { return (K)(p - 40); }
  static int dec(const K &k) { return (k + 40) / 2; }
};
struct AlKey {
  using K = al::A;
  using Cmp = std::less<K>;
  static K key(int k) { return K{2 * k}; }
  static K probe(int p) { return K{p}; }
  static int dec(const K &k) { return k.get() / 2; }
};
struct AlVal {
  using V = al::A;
  static V val(int v) { return V{v}; }
  static int dec(const V &v) { return v.get(); }
};
struct I16Val {
  using V = unsigned short;
  static V val(int v) { return (V)v; }
  static int dec(const V &v) { return v; }
};
struct I64Val {
  using V = long;
  static V val(int v) { return v; }
  static int dec(const V &v) { return (int)v; }
};
struct I32Val {
  using V = int;
  static V val(int v) { return v; }
  static int dec(const V &v) { return v; }
};
struct StrVal {
  using V = std::string;
  static V val(int v) { return "value-longer-than-any-small-buffer-" + std::to_string(v); }
  static int dec(const V &v) { return v.size() > 35 ? atoi(v.c_str() + 35) : 0; }
};
struct TrkVal {
  using V = trk::T;
  static V val(int v) { return V{v}; }
  static int dec(const V &v) { return v.get(); }
};

struct Wide {
  int v = 0;
  char fill[196] = {};
};
struct WideVal {
  using V = Wide;
  static V val(int v) {
    Wide w;
    w.v = v;
    return w;
  }
  static int dec(const V &v) { return v.v; }
};

template <typename KC, typename VC, int NS, int TH, int U> struct M : SeqModel {
  using Map = bt::map<typename KC::K, typename VC::V, Tr<NS, TH>, typename KC::Cmp>;
  static constexpr bool OPS = !std::is_same_v<KC, NoOrderKey>;
  static bool less(const typename KC::K &a, const typename KC::K &b) { return typename KC::Cmp{}(a, b); }
  static bool same(const typename KC::K &a, const typename KC::K &b) { return !less(a, b) && !less(b, a); }
  Map *m = nullptr;
  std::map<int, int> ref;
  struct OpD {
    int kind, a, b; // 0 toggle a; 1 insert asc [a,b); 2 insert desc; 3 erase asc; 4 erase desc; 5 overwrite a
  };
  std::vector<OpD> ops;
  int first_macro;
  bool light, big; // big: thousands of entries in nodes of realistic size
  M(const char *n, bool light_ = false, bool big_ = false) : light(light_), big(big_) {
    name = n;
    for (int k = 0; k < U; k++)
      ops.push_back({0, k, 0});
    first_macro = U;
    const int st = 4;
    for (int a = 0; a < U && !big; a += st)
      for (int b = a + st; b <= U; b += st)
        for (int kind = 1; kind <= 4; kind++)
          ops.push_back({kind, a, b});
    for (int s = 0; s < 2; s++) { // every other key
      ops.push_back({6, s, 0});
      ops.push_back({7, s, 0});
    }
  }
  std::string opname(int o) override {
    auto &d = ops[o];
    static const char *n[] = {"toggle", "ins+", "ins-", "del+", "del-", "set", "ins%2", "del%2"};
    return std::string(n[d.kind]) + "(" + std::to_string(d.a) + (d.kind >= 1 && d.kind <= 4 ? "," + std::to_string(d.b) : "") + ")";
  }
  void reset() override {
    trk::reset();
    ref.clear();
    Sut s;
    m = new Map();
    NotSut ns;
    not_nodes = {{0, blocks_so_far()}};
    height = 0;
  }
  uint64_t hash() override { return heap_hash(m, sizeof(Map)); }
  bool enabled(int o) override {
    auto &d = ops[o];
    if (d.kind == 0)
      return true;
    // macros must change something
    int n = 0, tot = 0;
    for (int k = 0; k < U; k++) {
      bool in = d.kind >= 6 ? k % 2 == d.a : (k >= d.a && k < d.b);
      if (in)
        tot++, n += ref.count(k);
    }
    bool ins = d.kind == 1 || d.kind == 2 || d.kind == 6;
    return ins ? n < tot : n > 0;
  }
  static int newval(int k, int ver = 0) { return k * 8 + 1 + ver; }
  void put(int k) {
    int v = newval(k);
    bool fresh = !ref.count(k);
    int got;
    {
      Sut s;
      typename KC::K key = KC::key(k);
      typename VC::V &r = (*m)[key];
      got = VC::dec(r);
      r = VC::val(v);
    }
    checks++;
    if (fresh && got != 0)
      fail(LIFE, "a newly created value is not value-initialised (key " + std::to_string(k) + ")");
    if (!fresh && got != ref[k])
      fail(LIN, "operator[] on present key " + std::to_string(k) + " refers to value " + std::to_string(got) + ", expected " + std::to_string(ref[k]));
    ref[k] = v;
    level(fresh, std::string("operator[] on ") + (fresh ? "new" : "present") + " key " + S(k));
    quick(k);
  }
  void del(int k, bool by_iter) {
    bool had = ref.count(k), r;
    {
      Sut s;
      typename KC::K key = KC::key(k);
      if (by_iter) {
        auto it = m->find(key);
        r = it != m->end();
        if (r)
          m->erase(it);
      } else if (k % 4 == 0) { // the key passed is the stored one
        auto it = m->find(key);
        r = m->erase(it != m->end() ? it.key() : key);
      } else
        r = m->erase(key);
    }
    checks++;
    if (r != had)
      fail(LIN, "erase of key " + std::to_string(k) + " says " + (r ? "erased" : "absent") + " but the key was " + (had ? "present" : "absent"));
    ref.erase(k);
    level(false, "erasing key " + S(k));
    quick(k);
  }
  void quick(int k) {
    if (!want(LIN))
      return;
    Sut s;
    checks++;
    auto it = m->find(KC::key(k));
    bool f = it != m->end();
    if (f != (ref.count(k) > 0))
      fail(LIN, "find of key " + std::to_string(k) + " is wrong right after an operation on it");
    if (f && VC::dec(it.data()) != ref[k])
      fail(LIN, "find of key " + std::to_string(k) + " yields a wrong value right after an operation on it");
    if (m->size() != ref.size())
      fail(LIN, "size() is " + std::to_string(m->size()) + ", expected " + std::to_string(ref.size()));
  }
  void apply(int o) override {
    auto &d = ops[o];
    switch (d.kind) {
    case 0:
      if (ref.count(d.a))
        del(d.a, d.a & 1);
      else
        put(d.a);
      break;
    case 1:
      for (int k = d.a; k < d.b; k++)
        if (!ref.count(k))
          put(k);
      break;
    case 2:
      for (int k = d.b - 1; k >= d.a; k--)
        if (!ref.count(k))
          put(k);
      break;
    case 3:
      for (int k = d.a; k < d.b; k++)
        if (ref.count(k))
          del(k, k & 1);
      break;
    case 4:
      for (int k = d.b - 1; k >= d.a; k--)
        if (ref.count(k))
          del(k, k & 1);
      break;
    case 6:
      for (int k = d.a; k < U; k += 2)
        if (!ref.count(k))
          put(k);
      break;
    case 7:
      for (int k = d.a; k < U; k += 2)
        if (ref.count(k))
          del(k, k & 1);
      break;
    }
  }
  std::string S(int x) { return std::to_string(x); }

  template <typename It> int kof(const It &it) { return KC::dec(it.key()); }

  void obs_dict() {
    const Map *c = m;
    checks += 2;
    if (m->size() != ref.size() || m->empty() != ref.empty())
      fail(LIN, "size()/empty() disagree with the contents: size " + S(m->size()) + " expected " + S(ref.size()));
    for (int k = 0; k < U; k++) {
      auto key = KC::key(k);
      bool have = ref.count(k);
      checks += 2;
      auto it = m->find(key);
      if ((it != m->end()) != have)
        fail(LIN, "find(" + S(k) + ") " + (have ? "misses a present key" : "finds an absent key"));
      else if (have && (KC::dec(it.key()) != k || VC::dec(it.data()) != ref[k] || !same(it->first, key) || VC::dec((*it).second) != ref[k]))
        fail(LIN, "find(" + S(k) + ") yields key " + S(KC::dec(it.key())) + " value " + S(VC::dec(it.data())) + ", expected value " + S(ref[k]));
      auto ci = c->find(key);
      if ((ci != c->end()) != have)
        fail(LIN, "const find(" + S(k) + ") " + (have ? "misses a present key" : "finds an absent key"));
      else if (have && VC::dec(ci->second) != ref[k])
        fail(LIN, "const find(" + S(k) + ") yields a wrong value");
    }
    // absent probes between the keys
    for (int p = 1; p < 2 * U; p += 6)
      if (m->find(KC::probe(p)) != m->end())
        fail(LIN, "find of a key that was never inserted succeeds");
    // overwriting every present key changes exactly that key
    for (auto &kv : ref) {
      (*m)[KC::key(kv.first)] = VC::val(newval(kv.first, 3));
    }
    for (auto &kv : ref) {
      checks++;
      auto it = m->find(KC::key(kv.first));
      if (it == m->end() || VC::dec(it.data()) != newval(kv.first, 3))
        fail(LIN, "value written through operator[] for key " + S(kv.first) + " is not found again");
    }
    if (m->size() != ref.size())
      fail(LIN, "overwriting present keys changes size()");
    // erasing absent keys is a no-op
    for (int k = 0; k < U; k++)
      if (!ref.count(k)) {
        checks++;
        if (m->erase(KC::key(k)))
          fail(LIN, "erase(" + S(k) + ") of an absent key reports success");
      }
    if (m->size() != ref.size())
      fail(LIN, "erasing absent keys changes size()");
  }
  template <typename It, typename R> void walk(It b, It e, R rb, R re, const char *what) {
    // one forward pass over [b,e) must equal the reference sequence [rb,re)
    size_t n = 0;
    It it = b;
    for (; it != e; ++it, ++rb) {
      if (rb == re || n++ > ref.size())
        fail(SCAN, std::string(what) + " yields more entries than the map holds");
      int k = kof(it);
      if (k != rb->first || !same(it->first, KC::key(rb->first)) || VC::dec(it.data()) != rb->second)
        fail(SCAN, std::string(what) + " yields key " + S(k) + " value " + S(VC::dec(it.data())) + " where key " + S(rb->first) + " value " + S(rb->second) + " is expected");
    }
    checks += n + 1;
    if (rb != re)
      fail(SCAN, std::string(what) + " ends early: key " + S(rb->first) + " is missing");
    if (!(it == e))
      fail(SCAN, std::string(what) + ": inconsistent == and !=");
  }
  void obs_iter() {
    const Map *c = m;
    walk(m->begin(), m->end(), ref.begin(), ref.end(), "forward iteration");
    walk(m->cbegin(), m->cend(), ref.begin(), ref.end(), "cbegin iteration");
    walk(c->begin(), c->end(), ref.begin(), ref.end(), "const forward iteration");
    walk(m->rbegin(), m->rend(), ref.rbegin(), ref.rend(), "reverse iteration");
    walk(m->crbegin(), m->crend(), ref.rbegin(), ref.rend(), "crbegin iteration");
    walk(c->rbegin(), c->rend(), ref.rbegin(), ref.rend(), "const reverse iteration");
    checks += 2;
    if ((m->begin() == m->end()) != ref.empty() || (m->rbegin() == m->rend()) != ref.empty())
      fail(SCAN, "begin()==end() does not mean that the map is empty");
    // from every entry: one step there and back, in both directions, pre- and postfix
    for (auto it = ref.begin(); it != ref.end(); ++it) {
      auto nx = std::next(it);
      auto i = m->find(KC::key(it->first));
      if (i == m->end())
        continue; // C01's business
      checks += 2;
      auto j = i;
      ++j;
      if (nx == ref.end()) {
        if (j != m->end())
          fail(SCAN, "stepping forward from the largest key does not reach end()");
      } else {
        if (j == m->end() || kof(j) != nx->first)
          fail(SCAN, "++ from key " + S(it->first) + " does not reach key " + S(nx->first));
        auto q = j--; // postfix returns the old position
        if (!(q != j) || kof(q) != nx->first || kof(j) != it->first || !(j == i))
          fail(SCAN, "-- does not undo ++ at key " + S(it->first));
      }
      { // converted iterators stand at the same entry, and step in their own direction
        typename Map::const_iterator c = i;
        typename Map::reverse_iterator r = i;
        typename Map::const_reverse_iterator cr = r;
        if (kof(c) != it->first || kof(r) != it->first || kof(cr) != it->first)
          fail(SCAN, "an iterator converted at key " + S(it->first) + " stands elsewhere");
        if (it != ref.begin() && kof(++cr) != std::prev(it)->first)
          fail(SCAN, "++ of a converted reverse iterator does not go back from key " + S(it->first));
        if (nx != ref.end() && kof(++c) != nx->first)
          fail(SCAN, "++ of a converted iterator does not go on from key " + S(it->first));
      }
      if (it != ref.begin()) {
        auto pv = std::prev(it);
        auto b = i;
        --b;
        if (kof(b) != pv->first)
          fail(SCAN, "-- from key " + S(it->first) + " does not reach key " + S(pv->first));
        auto q = b++;
        if (kof(q) != pv->first || kof(b) != it->first || !(b == i))
          fail(SCAN, "++ does not undo -- at key " + S(it->first));
      }
    }
    // reverse iterators step back too
    {
      auto r = m->rbegin();
      auto x = ref.rbegin();
      for (size_t n = 0; n + 1 < ref.size(); n++, ++x) {
        auto r0 = r;
        auto q = r++;
        if (kof(q) != x->first || !(q == r0))
          fail(SCAN, "postfix ++ on a reverse iterator returns the wrong position");
        auto t = r;
        --t;
        if (kof(t) != x->first || !(t == r0))
          fail(SCAN, "-- does not undo ++ on a reverse iterator at key " + S(x->first));
        auto t2 = t++;
        if (kof(t2) != x->first || !(t == r))
          fail(SCAN, "reverse iterator ++ after -- is wrong");
        auto t3 = t--;
        if (!(t3 == r) || kof(t) != x->first || !(t == r0))
          fail(SCAN, "postfix -- on a reverse iterator is wrong at key " + S(x->first));
        checks += 4;
      }
      auto cr = m->crbegin();
      auto ci = m->cbegin();
      for (size_t n = 0; n + 1 < ref.size(); n++) {
        ++cr;
        ++ci;
      }
      if (!ref.empty() && (kof(cr) != ref.begin()->first || kof(ci) != ref.rbegin()->first))
        fail(SCAN, "const iterators do not reach the far end");
      if (!ref.empty()) {
        for (size_t n = 0; n + 1 < ref.size(); n++) {
          --cr;
          ci--;
        }
        if (kof(cr) != ref.rbegin()->first || kof(ci) != ref.begin()->first)
          fail(SCAN, "const iterators do not return to the near end");
      }
    }
    // writing through an iterator
    for (auto it = m->begin(); it != m->end(); ++it)
      it.data() = VC::val(newval(kof(it), 5));
    for (auto it = m->rbegin(); it != m->rend(); ++it) {
      checks++;
      if (VC::dec(it->second) != newval(kof(it), 5))
        fail(SCAN, "a value written through an iterator is not seen by reverse iteration at key " + S(kof(it)));
    }
  }
  template <typename MM> void bounds(MM *x, const char *cst) {
    // reference in terms of concrete probes: probe p compares to key k as p to 2k, probes ascend
    auto lb = ref.begin();
    for (int p = -1; p <= 2 * U; p++) {
      auto pk = KC::probe(p);
      while (lb != ref.end() && less(KC::key(lb->first), pk))
        ++lb;
      auto ub = lb;
      if (ub != ref.end() && same(KC::key(ub->first), pk))
        ++ub;
      one(x, pk, lb, x->lower_bound(pk), cst, "lower_bound", p);
      one(x, pk, ub, x->upper_bound(pk), cst, "upper_bound", p);
      if constexpr (OPS) {
        AltProbe<typename KC::K> alt{pk};
        one(x, pk, lb, x->lower_bound(alt), cst, "lower_bound, probe of another type,", p);
        one(x, pk, ub, x->upper_bound(alt), cst, "upper_bound, probe of another type,", p);
      }
    }
    if constexpr (std::is_same_v<KC, CompKey>) {
      for (int f = -1; f <= U / 3 + 1; f++) {
        bt::compound_key<int> pk{f};
        auto lb = ref.begin();
        while (lb != ref.end() && lb->first / 3 < f) // a prefix orders before every key it is a prefix of
          ++lb;
        one(x, pk, lb, x->lower_bound(pk), cst, "lower_bound of a prefix", f);
        one(x, pk, lb, x->upper_bound(pk), cst, "upper_bound of a prefix", f);
      }
    }
  }
  template <typename MM, typename PK, typename RI, typename It>
  void one(MM *x, const PK &, RI want_, It got, const char *cst, const char *what, int p) {
    checks++;
    auto desc = [&] { return std::string(cst) + what + "(probe " + S(p) + ")"; };
    if (want_ == ref.end()) {
      if (got != x->end())
        fail(PROP, desc() + " should be end() but is not");
    } else if (got == x->end())
      fail(PROP, desc() + " is end() but should be key " + S(want_->first));
    else if (kof(got) != want_->first || VC::dec(got.data()) != want_->second)
      fail(PROP, desc() + " is key " + S(kof(got)) + " but should be key " + S(want_->first));
    else {
      // the returned position is usable: stepping on reaches the successor
      auto nx = std::next(want_);
      ++got;
      if (nx == ref.end() ? got != x->end() : (got == x->end() || kof(got) != nx->first))
        fail(PROP, desc() + ": stepping on from the returned position is wrong");
    }
  }
  std::vector<std::pair<uint32_t, uint32_t>> not_nodes; // numbers of allocations which are not nodes of the tree
  int height = 0;
  void level(bool may_grow, const std::string &what) {
    int h = m->height();
    if (h > height + may_grow)
      fail(SHAPE, what + " raises height() from " + S(height) + " to " + S(h));
    height = h;
  }
  void shape() {
    Sut s;
    // every lookup passes through the same number of nodes, height() of them above the leaf
    if (!want(SHAPE))
      return;
    int h = m->height();
    for (int p = -1; p <= 2 * U; p++) {
      auto key = KC::probe(p);
      touch_start(NS, not_nodes);
      auto it = ((const Map *)m)->find(key);
      int n = touch_stop();
      checks++;
      if (n != h + 1 && (n || h || !ref.empty()))
        fail(SHAPE, "height() is " + S(h) + ", but the lookup of probe " + S(p) + " passes through " + S(n) + " nodes");
    }
  }
#ifdef DUMPS
  void dumps() {
    std::vector<long> keys;
    for (auto &kv : ref)
      keys.push_back(KC::key(kv.first));
    std::ostringstream o;
    m->dump(o);
    auto ls = dmp::check_btree(o.str(), keys);
    checks++;
    dmp::check_stats(m->stats(), ls);
  }
#endif
  void growth() {
    auto contents = ref;
    auto toggle = [&](int k, bool by_iter) {
      if (ref.count(k))
        del(k, by_iter);
      else
        put(k);
    };
    for (int k : {0, U / 2, U - 1})
      checks += plateau("erasing and inserting key " + S(k), 1, ref.size(), [&](int r) {
        toggle(k, r & 1);
        toggle(k, r & 1);
      });
    if (!ref.empty()) {
      checks += plateau("assigning to key " + S(ref.begin()->first), 1, ref.size(), [&](int r) { put(ref.begin()->first); });
      for (int dir = 0; dir < 3; dir++)
        checks += plateau("emptying and filling the map", ref.size(), ref.size(), [&](int r) {
          for (auto it = contents.begin(); dir < 2 && it != contents.end(); ++it)
            del(it->first, dir);
          for (auto it = contents.rbegin(); dir == 2 && it != contents.rend(); ++it)
            del(it->first, r & 1);
          for (auto it = contents.begin(); dir != 1 && it != contents.end(); ++it)
            put(it->first);
          for (auto it = contents.rbegin(); dir == 1 && it != contents.rend(); ++it)
            put(it->first);
        });
    }
    if ((int)ref.size() < U)
      checks += plateau("inserting all other keys, and erasing them again,", U - ref.size(), ref.size(), [&](int r) {
        for (int k = 0; k < U; k++)
          if (!contents.count(k))
            put(k);
        for (int k = 0; k < U; k++)
          if (!contents.count(k))
            del(k, r & 1);
      });
  }
  // Other maps of the same type, with other contents, are created, changed and destroyed next to this one.
  Map *tw = nullptr, *tmp = nullptr; // tw is destroyed later than this map
  std::array<int, 3> heights(const Map &but) { // of the maps other than but
    const Map *all[] = {m, tw, tmp};
    std::array<int, 3> h{};
    for (int i = 0; i < 3; i++)
      if (all[i] != &but && all[i])
        h[i] = all[i]->height();
    return h;
  }
  std::map<int, int> tref;
  std::vector<int> some; // the keys looked at
  void twin_is(const Map &x, const std::map<int, int> &r, int k, const char *what) {
    Sut s;
    auto it = x.find(KC::key(k));
    int f = it == x.end() ? -1 : VC::dec(it.data()), e = r.count(k) ? r.at(k) : -1;
    checks++;
    if (f != e)
      fail(TWIN, std::string(what) + ": a search for key " + S(k) + " yields " + S(f) + ", expected " + S(e) + ", although only the contents of another map have changed");
  }
  void twin_are(Map &x, const std::map<int, int> &r, const char *what) {
    for (int k : some)
      twin_is(x, r, k, what);
    if (x.size() != r.size())
      fail(TWIN, std::string(what) + ": size() is " + S(x.size()) + ", expected " + S(r.size()));
  }
  void twin_set(Map &x, std::map<int, int> &r, int k, int v) { // v < 0: erases it
    Sut s;
    auto before = heights(x);
    if (v < 0)
      x.erase(KC::key(k));
    else
      x[KC::key(k)] = VC::val(v);
    auto after = heights(x);
    NotSut n;
    if (before != after)
      fail(TWIN, "a map was changed, and the height of another one with it");
    if (v < 0)
      r.erase(k);
    else
      r[k] = v;
  }
  void twins() {
    some.clear();
    for (int k = 0; k < U; k += 1 + U / 50)
      some.push_back(k);
    std::map<int, int> tmpref;
    tref.clear();
    {
      Sut s;
      tw = new Map();
      tmp = new Map();
    }
    twin_are(*m, ref, "this map, another one created");
    twin_are(*tw, tref, "a new map");
    int i = 0;
    for (int k : some) {
      twin_set(*tw, tref, k, 2000 + i);
      if (i % 2)
        twin_set(*tmp, tmpref, k, 3000 + i);
      if (i % 3 == 0)
        twin_set(*m, ref, k, ref.count(k) ? -1 : 1000 + i);
      twin_is(*m, ref, k, "this map");
      twin_is(*tw, tref, k, "the second map");
      twin_is(*tmp, tmpref, k, "the third map");
      i++;
    }
    twin_are(*m, ref, "this map, others filled");
    twin_are(*tw, tref, "the second map");
    { // iterators of several maps at once
      Sut s;
      auto a = m->begin();
      auto b = tw->rbegin();
      auto c = tmp->begin();
      auto ra = ref.begin();
      auto rb = tref.rbegin();
      auto rc = tmpref.begin();
      while (ra != ref.end() || rb != tref.rend() || rc != tmpref.end()) {
        checks++;
        bool ok = true;
        if (ra != ref.end()) {
          ok &= a != m->end() && kof(a) == ra->first && VC::dec(a.data()) == ra->second;
          if (ok)
            ++a, ++ra;
        }
        if (ok && rb != tref.rend()) {
          ok &= b != tw->rend() && kof(b) == rb->first && VC::dec(b.data()) == rb->second;
          if (ok)
            ++b, ++rb;
        }
        if (ok && rc != tmpref.end()) {
          ok &= c != tmp->end() && kof(c) == rc->first && VC::dec(c.data()) == rc->second;
          if (ok)
            ++c, ++rc;
        }
        if (!ok)
          fail(TWIN, "iterators of several maps, advanced in turn, deliver wrong entries");
      }
    }
    for (int k : some) {
      if (i % 2)
        twin_set(*tw, tref, k, -1);
      if (tmpref.count(k) && i % 3)
        twin_set(*tmp, tmpref, k, -1);
      i++;
    }
    twin_are(*m, ref, "this map, others thinned");
    twin_are(*tmp, tmpref, "the third map");
    {
      Sut s;
      delete tmp;
      tmp = nullptr;
    }
    twin_are(*m, ref, "this map, another one destroyed");
    twin_are(*tw, tref, "the second map, another one destroyed");
    i = 0;
    for (int k : some)
      twin_set(*m, ref, k, i++ % 2 ? 1500 + i : -1);
    twin_are(*m, ref, "this map");
    twin_are(*tw, tref, "the second map");
  }
  void observe() override {
    if (want(TWIN))
      return twins();
    if (want(GROW))
      return growth();
#ifdef DUMPS
    return dumps();
#endif
    Sut s;
    if (want(PROP)) {
      bounds(m, "");
      bounds((const Map *)m, "const ");
    }
    shape();
    if (want(SCAN))
      obs_iter();
    if (want(LIN))
      obs_dict();
    if (want(LIFE)) {
      for (auto &kv : ref) {
        checks++;
        auto it = m->find(KC::key(kv.first));
        if (it == m->end())
          continue;
        if (VC::dec(it.data()) != kv.second)
          fail(LIFE, "the value of key " + S(kv.first) + " changed although only other keys were operated on");
      }
      for (auto &kv : ref) { // both ways to overwrite a value
        if (kv.first & 1)
          (*m)[KC::key(kv.first)] = VC::val(newval(kv.first, 3));
        else {
          auto it = m->find(KC::key(kv.first));
          if (it != m->end())
            it.data() = VC::val(newval(kv.first, 5));
        }
      }
      for (int k = 0; k < U; k += 3)
        if (!ref.count(k))
          m->erase(KC::key(k));
    }
  }
  void destroy() override {
    Sut s;
    delete m;
    m = nullptr;
    checks++;
    if (tw) {
      twin_are(*tw, tref, "the second map, another one destroyed");
      delete tw;
      tw = nullptr;
    }
    if (want(LIFE)) {
      NotSut n;
      if (!trk::live().empty())
        fail(LIFE, S(trk::live().size()) + " key/value objects are still alive after the map was destroyed");
      if (live_blocks())
        fail(LIFE, S(live_blocks()) + " allocations are still live after the map was destroyed:" + describe_live());
    }
  }
  int find_op(int kind, int a, int b) {
    for (size_t i = 0; i < ops.size(); i++)
      if (ops[i].kind == kind && ops[i].a == a && (b < 0 || ops[i].b == b))
        return i;
    abort();
  }
  // realistic node sizes: hundreds of entries per node, offsets beyond 16 bits; few operations from a few trees
  std::vector<SeqUnit> big_units(bool th) {
    std::vector<SeqUnit> us;
    std::vector<int> asc, desc, mix, low, gone, al;
    for (int k = 0; k < U; k++) {
      asc.push_back(k);
      desc.push_back(U - 1 - k);
      mix.push_back((int)((long)k * 7919 % U));
    }
    low = mix;
    for (int k = 0; k < 3 * U / 4; k++)
      low.push_back(k);
    gone = asc;
    for (int k = U - 1; k >= 2; k--)
      gone.push_back(k);
    for (int k : {0, 1, U / 3, U / 2, U / 2 + 1, U - 1})
      al.push_back(k);
    auto add = [&](const char *n, const std::vector<int> &pre) {
      SeqUnit u;
      u.name = n;
      u.prefix = pre;
      u.alphabet = al;
      u.depth = th ? 2 : 1;
      u.shards = 3;
      us.push_back(u);
    };
    add("big, ascending", asc);
    add("big, descending", desc);
    add("big, scattered", mix);
    add("big, scattered, low part gone", low);
    add("big, nearly emptied", gone);
    return us;
  }
  std::vector<SeqUnit> units(bool th) override {
    std::vector<SeqUnit> us;
    std::vector<int> toggles, macros, all;
    for (int k = 0; k < U; k++)
      toggles.push_back(k);
    for (size_t i = first_macro; i < ops.size(); i++)
      macros.push_back(i);
    all = toggles;
    all.insert(all.end(), macros.begin(), macros.end());
    if (big)
      return big_units(th);
    // A: from the empty map, every sequence of single operations over few keys
    {
      SeqUnit u;
      u.name = "small";
      for (int k = 0; k < 7; k++)
        u.alphabet.push_back(k * (U / 7));
      u.depth = th ? 10 : light ? 5 : 7;
      u.shards = 7;
      us.push_back(u);
    }
    // B: macro operations
    {
      SeqUnit u;
      u.name = "macro";
      u.alphabet = macros;
      u.depth = th ? 3 : 2;
      u.shards = th ? 64 : 16;
      us.push_back(u);
    }
    // C: from characteristic trees, every sequence of single operations (each key) of the given depth
    std::vector<std::pair<std::string, std::vector<int>>> seeds;
    auto range = [&](int a, int b, int st) {
      std::vector<int> v;
      if (st > 0)
        for (int k = a; k < b; k += st)
          v.push_back(k);
      else
        for (int k = b - 1; k >= a; k += st)
          v.push_back(k);
      return v;
    };
    auto cat = [](std::vector<int> a, const std::vector<int> &b) {
      a.insert(a.end(), b.begin(), b.end());
      return a;
    };
    seeds.push_back({"asc", range(0, U, 1)});
    seeds.push_back({"desc", range(0, U, -1)});
    seeds.push_back({"asc-half", range(0, U, 2)});
    seeds.push_back({"evens-odds", cat(range(0, U, 2), range(1, U, 2))});
    {
      std::vector<int> v;
      for (int i = 0; i < U / 2; i++) {
        v.push_back(U / 2 - 1 - i);
        v.push_back(U / 2 + i);
      }
      seeds.push_back({"mid-out", v});
      std::vector<int> w(v.rbegin(), v.rend());
      seeds.push_back({"out-mid", w});
    }
    seeds.push_back({"asc-then-thin", cat(range(0, U, 1), range(0, U, 2))});
    seeds.push_back({"asc-cut-low", cat(range(0, U, 1), range(0, U / 2, 1))});
    seeds.push_back({"asc-cut-high", cat(range(0, U, 1), range(U / 2, U, -1))});
    seeds.push_back({"desc-cut-mid", cat(range(0, U, -1), range(U / 4, 3 * U / 4, 1))});
    seeds.push_back({"asc-empty", cat(range(0, U, 1), range(0, U, 1))});
    seeds.push_back({"desc-empty", cat(range(0, U, -1), range(0, U, 1))});
    seeds.push_back({"third", cat(cat(range(0, U, 3), range(1, U, 3)), range(2, U, -3))});
    for (auto &s : seeds) {
      SeqUnit u;
      u.name = "seed-" + s.first;
      u.prefix = s.second;
      u.alphabet = toggles;
      u.depth = th ? (light ? 3 : 4) : light ? 2 : 3;
      u.shards = th ? U : 8;
      us.push_back(u);
      SeqUnit w;
      w.name = "seedmacro-" + s.first;
      w.prefix = s.second;
      w.alphabet = all;
      w.depth = 2;
      w.shards = 8;
      if (!light || th)
        us.push_back(w);
    }
#if defined GROWTH || defined TWINS // every state is much more work
    for (auto &u : us)
      u.depth = std::max(1, u.depth - 1);
#endif
    return us;
  }
};

#ifndef PART
#define PART 0
#endif
#ifdef DUMPS
#if PART == 0
using Mod = M<IntKey, I64Val, 128, 50, 40>;
static Mod mod("int->long 128/50", true);
#elif PART == 1
using Mod = M<IntKey, I64Val, 160, 80, 40>;
static Mod mod("int->long 160/80", true);
#elif PART == 2
using Mod = M<IntKey, I32Val, 128, 0, 40>;
static Mod mod("int->int 128/0", true);
#elif PART == 4
using Mod = M<IntKey, I64Val, 128, 50, 2003>;
static Mod mod("int->long 128/50, tall trees", true, true);
#else
using Mod = M<ExtremeKey, I64Val, 144, 40, 32>;
static Mod mod("extreme ints 144/40", true);
#endif
#elif defined(LIFETIME)
#if PART == 0
using Mod = M<TrkKey, TrkVal, 192, 40, 32>;
static Mod mod("tracked keys and values, 192/40", true);
#elif PART == 1
using Mod = M<TrkKey, TrkVal, 224, 80, 32>;
static Mod mod("tracked keys and values, 224/80", true);
#elif PART == 2
using Mod = M<IntKey, TrkVal, 128, 30, 32>;
static Mod mod("int keys, tracked values, 128/30", true);
#elif PART == 3
using Mod = M<StrKey, StrVal, 512, 50, 32>;
static Mod mod("string keys and values, 512/50", true);
#elif PART == 5
using Mod = M<TrkKey, TrkVal, 192, 40, 1003>;
static Mod mod("tracked keys and values, 192/40, tall trees", true, true);
#else
using Mod = M<IntKey, I32Val, 128, 50, 32>;
static Mod mod("int keys, int values, 128/50", true);
#endif
#else
#if PART == 0
using Mod = M<IntKey, I64Val, 128, 50, 40>;
static Mod mod("int->long 128/50");
#elif PART == 1
using Mod = M<IntKey, I64Val, 128, 20, 40>;
static Mod mod("int->long 128/20", true);
#elif PART == 2
using Mod = M<IntKey, I64Val, 160, 80, 40>;
static Mod mod("int->long 160/80", true);
#elif PART == 3
using Mod = M<IntKey, I32Val, 128, 35, 40>;
static Mod mod("int->int 128/35", true);
#elif PART == 4
using Mod = M<ExtremeKey, I64Val, 144, 40, 32>;
static Mod mod("extreme ints 144/40", true);
#elif PART == 5
using Mod = M<CompKey, I64Val, 144, 50, 36>;
static Mod mod("compound keys 144/50", true);
#elif PART == 6
using Mod = M<StrKey, I32Val, 384, 40, 32>;
static Mod mod("string keys 384/40", true);
#elif PART == 7
using Mod = M<IntKey, I64Val, 192, 0, 40>;
static Mod mod("int->long 192/0 (no merging)", true);
#elif PART == 10
using Mod = M<DescKey, I64Val, 128, 50, 40>;
static Mod mod("descending ints->long 128/50", true);
#elif PART == 11
using Mod = M<NoOrderKey, I64Val, 144, 40, 32>;
static Mod mod("keys without operators 144/40", true);
#elif PART == 12
using Mod = M<ByteKey, I16Val, 112, 40, 40>;
static Mod mod("bytes->16 bit integers 112/40", true);
#elif PART == 13
using Mod = M<AlKey, AlVal, 640, 40, 32>;
static Mod mod("keys and values aligned to 32 bytes 640/40", true);
#elif PART == 14
using Mod = M<IntKey, I64Val, 128, 50, 5003>;
static Mod mod("int->long 128/50, tall trees", true, true);
#elif PART == 8
using Mod = M<IntKey, I32Val, 70000, 20, 20011>;
static Mod mod("int->int, nodes of 70000 bytes", true, true);
#else
using Mod = M<IntKey, WideVal, 8192, 20, 12007>;
static Mod mod("int->200 bytes, nodes of 8192 bytes", true, true);
#endif
#endif

namespace {
struct Reg {
  Reg() { add_model(&mod); }
} reg;
} // namespace
#if PART == 0
int main(int argc, char **argv) { return seq_main(argc, argv); }
#endif
