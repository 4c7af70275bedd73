// Explicit-state exploration of a scan of the concurrent B+tree whose map is modified between its steps by the same
// thread (C15; -DLIFETIME: C16).  A transition is one operation on the map or one step of the scan; in every state
// reached, the scan is also followed to its end.
#include "cbtree.h"
#include "../rt/seq.h"
#include "seq_dict.h"
#include <memory>
using bt::EXCLUSIVE;
using bt::INCLUSIVE;

template <typename C, typename VT, int NS, int TH> struct MI : SeqModel {
  using Map = bt::concurrent_map<typename C::K, VT, CTr<NS, TH, false, false>>;
  using VC = VCodec<VT>;
  struct Cur {
    virtual ~Cur() {}
    virtual bool valid() = 0;
    virtual int key() = 0;
    virtual int val() = 0;
    virtual void next() = 0;
  };
  template <class It> struct EndCur : Cur { // compared with the end of the map
    It it, end;
    bool post;
    EndCur(It i, It e, bool p) : it(std::move(i)), end(std::move(e)), post(p) {}
    bool valid() override { return it != end; }
    int key() override { return C::dec(it.key()); }
    int val() override { return VC::dec(it.data()); }
    void next() override {
      if (post)
        it++;
      else
        ++it;
    }
  };
  template <class It> struct RangeCur : Cur {
    It it;
    RangeCur(It i) : it(std::move(i)) {}
    bool valid() override { return (bool)it; }
    int key() override { return C::dec(it->first); }
    int val() override { return VC::dec(it->second); }
    void next() override { ++it; }
  };
  struct State {
    Map m;
    Cur *cur = nullptr;
    bool fresh = false; // opened, nothing delivered yet
  };
  State *s = nullptr;
  enum Kind { FWD, REV, LB, UB, RANGE, RRANGE, RANGE_X, RRANGE_X } kind;
  int n; // number of keys
  int lo, hi; // limits, doubled positions
  bool rev;
  std::map<int, int> ref;
  int ver[32];
  bool open;
  int last;
  std::string seen;
  unsigned cont;      // keys present ever since the scan began
  unsigned had[2];    // keys which had value version 0 / 1 at some moment since the scan began
  MI(const std::string &nm, Kind k, int nkeys, int l, int h) : kind(k), n(nkeys), lo(l), hi(h) {
    static const char *kn[] = {"forward", "reverse", "lower bound", "upper bound", "range", "reverse range", "exclusive range", "exclusive reverse range"};
    name = nm + ", " + kn[k] + " scan";
    if (k >= LB)
      name += " from " + std::to_string(l) + "/2" + (k >= RANGE ? " to " + std::to_string(h) + "/2" : "");
    rev = k == REV || k == RRANGE || k == RRANGE_X;
  }
  // operations: k toggle; 100+k overwrite; 200 open; 201 step; 202 reclaim
  std::string opname(int o) override {
    return o < 100 ? "toggle(" + S(o) + ")" : o < 200 ? "overwrite(" + S(o - 100) + ")" : o == 200 ? "open" : o == 201 ? "step" : "reclaim";
  }
  static std::string S(int x) { return std::to_string(x); }
  void reset() override {
    trk::reset();
    ref.clear();
    memset(ver, 0, sizeof ver);
    open = false;
    cont = had[0] = had[1] = 0;
    seen.clear();
    Sut u;
    s = new State();
  }
  uint64_t hash() override {
    uint64_t h = heap_hash(s, sizeof(State));
    for (uint64_t x : {(uint64_t)open, (uint64_t)(last + 1000), (uint64_t)cont, (uint64_t)had[0], (uint64_t)had[1]})
      h = (h ^ x) * 0x9E3779B97F4A7C15ull, h ^= h >> 29;
    for (int i = 0; i < n; i++)
      h = (h ^ ver[i]) * 0x9E3779B97F4A7C15ull, h ^= h >> 31;
    return h;
  }
  bool in_range(int k) {
    int d = 2 * k;
    switch (kind) {
    case FWD: case REV: return true;
    case LB: return d >= lo;
    case UB: return d > lo;
    case RANGE: case RRANGE: return d >= lo && d <= hi;
    default: return d > lo && d < hi;
    }
  }
  bool enabled(int o) override { return o < 100 || (o < 200 ? ref.count(o - 100) > 0 : o == 200 ? !open : o == 201 ? open : true); }
  template <class It> Cur *mk(It it, It e) { return new EndCur<It>(std::move(it), std::move(e), n & 1); }
  template <class It> Cur *mkr(It it) { return new RangeCur<It>(std::move(it)); }
  void do_open() {
    cont = had[0] = had[1] = 0;
    for (auto &kv : ref)
      cont |= 1u << kv.first, had[kv.second & 1] |= 1u << kv.first;
    last = rev ? 1000 : -1000;
    seen.clear();
    open = true;
    Sut u;
    auto a = C::probe(lo), b = C::probe(hi);
    Map &m = s->m;
    switch (kind) {
    case FWD: s->cur = mk(m.begin(), m.end()); break;
    case REV: s->cur = mk(m.rbegin(), m.rend()); break;
    case LB: s->cur = mk(m.lower_bound(a), m.end()); break;
    case UB: s->cur = mk(m.upper_bound(a), m.end()); break;
    case RANGE: s->cur = mkr(m.template range_iter<INCLUSIVE, INCLUSIVE>(a, b)); break;
    case RRANGE: s->cur = mkr(m.template rrange_iter<INCLUSIVE, INCLUSIVE>(a, b)); break;
    case RANGE_X: s->cur = mkr(m.template range_iter<EXCLUSIVE, EXCLUSIVE>(a, b)); break;
    default: s->cur = mkr(m.template rrange_iter<EXCLUSIVE, EXCLUSIVE>(a, b)); break;
    }
    s->fresh = true;
    deliver();
  }
  void missing(int until) { // keys between the last one delivered and this one
    for (int k = 0; k < n; k++)
      if ((cont >> k & 1) && in_range(k) && (rev ? k < last && k > until : k > last && k < until))
        fail(SCAN, "the scan delivered" + seen + " and then " + (until < -500 || until > 500 ? "ended" : "went on to " + S(until)) + ", but key " + S(k) +
                       " was present all the time");
  }
  void deliver() {
    checks++;
    bool v;
    int k = 0, x = 0;
    {
      Sut u;
      v = s->cur->valid();
      if (v)
        k = s->cur->key(), x = s->cur->val();
    }
    if (!v) {
      missing(rev ? -1000 : 1000);
      Sut u;
      delete s->cur;
      s->cur = nullptr;
      open = false;
      return;
    }
    seen += " " + S(k) + ":" + S(x);
    if (rev ? k >= last : k <= last)
      fail(SCAN, "keys out of order: the scan delivers" + seen);
    if (k < 0 || k >= n || !in_range(k))
      fail(SCAN, "the scan delivers" + seen + ", which is out of its range");
    if (x / 2 != k || !(had[x & 1] >> k & 1))
      fail(SCAN, "the scan delivers" + seen + ", but this key and value were not in the map at any moment of the scan");
    missing(k);
    last = k;
  }
  void step() {
    {
      Sut u;
      s->cur->next();
    }
    deliver();
  }
  void apply(int o) override {
    checks++;
    if (o == 200)
      do_open();
    else if (o == 201) {
      if (open)
        step();
    }
    else if (o == 202) {
      Sut u;
      s->m.reclaim_all();
    } else if (o >= 100) {
      int k = o - 100;
      ver[k] ^= 1;
      {
        Sut u;
        s->m.Update(C::probe(2 * k), VC::val(2 * k + ver[k]));
      }
      ref[k] = ver[k];
      had[ver[k]] |= 1u << k;
    } else if (ref.count(o)) {
      {
        Sut u;
        s->m.Delete(C::probe(2 * o));
      }
      ref.erase(o);
      cont &= ~(1u << o);
    } else {
      ver[o] ^= 1;
      {
        Sut u;
        s->m.Insert(C::probe(2 * o), VC::val(2 * o + ver[o]));
      }
      ref[o] = ver[o];
      had[ver[o]] |= 1u << o;
    }
  }
  void observe() override {
    while (open)
      step();
    for (int k = 0; k < n; k++) {
      int f;
      {
        Sut u;
        auto o = s->m.Search(C::probe(2 * k));
        f = o ? VC::dec(*o) : -1;
      }
      if (f != (ref.count(k) ? 2 * k + ref[k] : -1))
        fail(LIN, "a search for key " + S(k) + " yields " + S(f));
    }
  }
  void destroy() override {
    {
      Sut u;
      delete s->cur;
      delete s;
    }
    s = nullptr;
    if (want(LIFE)) {
      if (!trk::live().empty())
        fail(LIFE, S(trk::live().size()) + " key or value objects are still alive after the map was destroyed");
      if (live_blocks())
        fail(LIFE, S(live_blocks()) + " allocations are still live after the map was destroyed:" + describe_live());
    }
  }
  struct U {
    std::string n;
    std::vector<int> prefix, alphabet;
    int dq, dt;
  };
  std::vector<U> us;
  std::vector<SeqUnit> units(bool th) override {
    std::vector<SeqUnit> r;
    for (auto &u : us) {
      SeqUnit x;
      x.name = u.n;
      x.prefix = u.prefix;
      x.alphabet = u.alphabet;
      x.depth = th ? u.dt : u.dq;
      x.shards = 4;
      r.push_back(x);
    }
    return r;
  }
};
template <typename C, typename V, int NS, int TH> static void family(const std::string &nm, int n, int dq, int dt) {
  using M = MI<C, V, NS, TH>;
  auto seq = [](int from, int to, int step) {
    std::vector<int> v;
    for (int i = from; step > 0 ? i < to : i >= to; i += step)
      v.push_back(i);
    return v;
  };
  auto cat = [](std::vector<int> x, const std::vector<int> &y) {
    x.insert(x.end(), y.begin(), y.end());
    return x;
  };
  std::vector<std::pair<std::string, std::vector<int>>> trees;
  auto full = seq(0, n, 1), down = seq(n - 1, 0, -1), even = seq(0, n, 2);
  trees.push_back({"full", full});
  trees.push_back({"full, descending", down});
  trees.push_back({"evens", even});
  trees.push_back({"thinned", cat(full, seq(1, n, 2))});
  trees.push_back({"evens, odds", cat(even, seq(1, n, 2))});
  trees.push_back({"middle gone", cat(full, seq(n / 4, 3 * n / 4, 1))});
  for (int kind = 0; kind < 8; kind++) {
    if (n > 12 && kind != M::FWD && kind != M::REV && kind != M::RRANGE)
      continue;
    auto *m = new M(nm + ", node size " + std::to_string(NS) + "/" + std::to_string(TH) + ", " + std::to_string(n) + " keys", (typename M::Kind)kind, n,
                    kind == M::UB || kind >= M::RANGE_X ? 2 : 3, kind == M::RANGE ? 2 * n - 4 : 2 * n - 5);
    for (auto &t : trees)
      for (int steps = 0; steps < n && steps < 12; steps += n > 7 ? 2 : 1) {
        std::vector<int> al = seq(0, n, 1);
        for (int k : {1, n / 2, n - 2})
          al.push_back(100 + k);
        al.push_back(201);
        al.push_back(202);
        auto p = t.second;
        p.push_back(200);
        for (int i = 0; i < steps; i++)
          p.push_back(201);
        m->us.push_back({t.first + ", " + std::to_string(steps) + " steps", p, al, dq, dt});
      }
    add_model(m);
  }
}
int main(int argc, char **argv) {
#ifdef LIFETIME
  family<TrkK, trk::T, 176, 30>("counted keys and values", 7, 3, 4);
#else
  family<LongK, long, 160, 30>("integer keys", 6, 3, 4);
  family<LongK, long, 160, 30>("integer keys", 9, 3, 4);
  family<LongK, long, 160, 15>("integer keys", 9, 2, 3);
  family<LongK, long, 208, 60>("integer keys", 14, 2, 3);
#endif
  return seq_main(argc, argv);
}
