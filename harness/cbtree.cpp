// Explicit-state exploration of the concurrent B+tree used by one thread (C12, C13; -DLIFETIME: C16).
#ifdef DUMPS
#define BTREE_DUMP_ENABLED
#include "dump.h"
#endif
#include "cbtree.h"
#include "seq_dict.h"
using bt::EXCLUSIVE;
using bt::INCLUSIVE;
#ifndef PART
#define PART 0
#endif
template <typename C, typename VT, typename Tr> struct CBAd {
  using V = VT;
  using Map = typename MapOf<C, V, Tr>::M;
  using VC = VCodec<V>;
  static constexpr bool MOVABLE = true, HAS_SIZE = Tr::STAT, CYCLE = false, HEIGHT = true;
  static constexpr int NODE_SIZE = Tr::NODE_SIZE;
  static int height(Map &m) { return m.height(); }
  static inline int U = 0; // keys 0..U-1 are in the universe
  static Map *make(int) { return new Map(); }
  static Map *move(Map &m) { return new Map(std::move(m)); }
  static void after_move(Map &) {}
  static void maint(Map &m, int what) {
    if (what == 0)
      m.reclaim_all();
    else
      m.reserve(what);
  }
  static typename C::K key(uint64_t k) { return C::probe(2 * (int)k); }
  static size_t size(Map &m) {
    if constexpr (Tr::STAT)
      return m.size();
    else
      return 0;
  }
  static std::string S(long v) { return std::to_string(v); }
  static std::string P(int p) { return p & 1 ? S(p / 2) + ".5" : S(p / 2); }
  using Ref = std::map<uint64_t, int>;
  using Ent = std::vector<std::pair<int, int>>;
  static std::string str(const Ent &e) {
    std::string s = "[";
    for (auto &x : e)
      s += " " + S(x.first) + ":" + S(x.second);
    return s + " ]";
  }
  // entries of ref in order whose doubled key is above/at lo and below/at hi
  static Ent expect(const Ref &ref, long lo, bool linc, long hi, bool hinc, bool rev) {
    Ent e;
    for (auto &kv : ref) {
      long d = 2 * (long)kv.first;
      if ((linc ? d >= lo : d > lo) && (hinc ? d <= hi : d < hi))
        e.push_back({(int)kv.first, kv.second});
    }
    if (rev)
      std::reverse(e.begin(), e.end());
    return e;
  }
  template <class It> static void put(Ent &e, It &it) {
    int k = C::dec(it->first), v = VC::dec(it->second);
    bool same = C::dec(it.key()) == k && VC::dec(it.data()) == v && C::dec((*it).first) == k;
    NotSut n;
    e.push_back({same ? k : -999, v});
  }
  static void eq(const Ent &got, const Ent &want, const std::string &what) {
    if (got != want)
      fail(SCAN, what + " delivers " + str(got) + " instead of " + str(want));
  }
  template <bt::range_kind L, bt::range_kind R, typename K1, typename K2>
  static void range(Map &m, const Ref &ref, const K1 &a, const K2 &b, long lo, long hi, const std::string &what) {
    const char *k = L == INCLUSIVE ? (R == INCLUSIVE ? "[]" : "[)") : R == INCLUSIVE ? "(]" : "()";
    size_t lim = ref.size() + 3;
    Ent e;
    {
      Sut s;
      auto it = [&] { // the limits need not outlive the call
        std::unique_ptr<K1> t1(new K1(a));
        std::unique_ptr<K2> t2(new K2(b));
        return m.template range_iter<L, R>(*t1, *t2);
      }();
      for (; it && e.size() < lim; ++it)
        put(e, it);
    }
    eq(e, expect(ref, lo, L == INCLUSIVE, hi, R == INCLUSIVE, false), "a forward scan of " + what + k);
    e.clear();
    {
      Sut s;
      auto it = [&] { // the limits need not outlive the call
        std::unique_ptr<K1> t1(new K1(a));
        std::unique_ptr<K2> t2(new K2(b));
        return m.template rrange_iter<L, R>(*t1, *t2);
      }();
      for (; it && e.size() < lim; ++it)
        put(e, it);
    }
    eq(e, expect(ref, lo, L == INCLUSIVE, hi, R == INCLUSIVE, true), "a reverse scan of " + what + k);
  }
  template <typename K1, typename K2> static void ranges(Map &m, const Ref &ref, const K1 &a, const K2 &b, long lo, long lox, long hi, long hix, const std::string &w) {
    // lo/hi: inclusive limits; lox/hix: exclusive limits (they differ for partial keys)
    range<INCLUSIVE, INCLUSIVE>(m, ref, a, b, lo, hi, w);
    range<INCLUSIVE, EXCLUSIVE>(m, ref, a, b, lo, hix, w);
    range<EXCLUSIVE, INCLUSIVE>(m, ref, a, b, lox, hi, w);
    range<EXCLUSIVE, EXCLUSIVE>(m, ref, a, b, lox, hix, w);
  }
  template <class K> static void bound(Map &m, const Ref &ref, const K &k, bool upper, long from, const std::string &w) {
    // start, then all the way up, and separately down
    size_t lim = ref.size() + 3;
    Ent up, down;
    bool was_end;
    {
      Sut s;
      auto it = upper ? m.upper_bound(k) : m.lower_bound(k);
      auto end = m.end();
      was_end = it == end;
      if (was_end != !(it != end))
        fail(SCAN, "== and != of iterators contradict each other");
      auto it2 = it;
      if (!was_end && !(it2 == it))
        fail(SCAN, "a copied iterator differs from the original");
      for (; it != end && up.size() < lim; ++it)
        put(up, it);
      if (!was_end)
        for (; it2 != end && down.size() < lim; --it2)
          put(down, it2);
    }
    Ent eu = expect(ref, from, !upper, 1000000, true, false);
    eq(up, eu, w + " followed forward");
    if (!eu.empty())
      eq(down, expect(ref, -1000000, true, 2 * eu[0].first, true, true), w + " followed backward");
  }
  // iterators and scans of two maps, advanced in turn
  static void lockstep(Map &m, const Ref &ref, Map &t, const Ref &tref) {
    Ent a, b, c, d;
    size_t lim = ref.size() + tref.size() + 3;
    {
      Sut s;
      auto lo = C::probe(0), hi = C::probe(2 * (U + 8));
      auto i = m.begin(), ie = m.end();
      auto j = t.rbegin(), je = t.rend();
      auto k = m.template rrange_iter<INCLUSIVE, INCLUSIVE>(lo, hi);
      auto l = t.template range_iter<INCLUSIVE, INCLUSIVE>(lo, hi);
      for (size_t n = 0; n < lim && (i != ie || j != je || k || l); n++) {
        if (i != ie)
          put(a, i), ++i;
        if (j != je)
          put(b, j), ++j;
        if (k)
          put(c, k), ++k;
        if (l)
          put(d, l), ++l;
      }
    }
    auto eqt = [](const Ent &got, const Ent &want, const char *what) {
      if (got != want)
        fail(TWIN, std::string(what) + ", advanced in turn with iterators of another map, delivers " + str(got) + " instead of " + str(want));
    };
    eqt(a, expect(ref, -1000000, true, 1000000, true, false), "begin()..end()");
    eqt(b, expect(tref, -1000000, true, 1000000, true, true), "rbegin()..rend()");
    eqt(c, expect(ref, -1000000, true, 1000000, true, true), "a reverse scan");
    eqt(d, expect(tref, -1000000, true, 1000000, true, false), "a forward scan");
    // an iterator of this map is held while one of another map is, which is modified and reclaimed meanwhile
    std::vector<int> ks;
    for (auto &kv : ref)
      if (ks.size() < 30)
        ks.push_back(kv.first);
    for (int order = 0; order < 2; order++) {
      Ent e, f;
      Sut s;
      Map *x = make(0);
      for (int k : ks)
        x->Insert(key(k), VC::val(4000 + k));
      {
        auto first = (order ? *x : m).begin();
        auto second = (order ? m : *x).begin();
        auto &i = order ? second : first, &j = order ? first : second;
        for (int n = 0; n < 3; n++) {
          for (size_t q = n % 2; q < ks.size(); q += 2)
            if (q)
              x->Delete(key(ks[q]));
          maint(*x, 0);
          for (size_t q = n % 2; q < ks.size(); q += 2)
            x->Upsert(key(ks[q]), VC::val(4000 + ks[q]));
          maint(*x, 0);
        }
        size_t lim2 = lim + ks.size();
        for (auto je = x->end(); j != je && f.size() < lim2; ++j)
          put(f, j);
        for (auto ie = m.end(); i != ie && e.size() < lim2; ++i)
          put(e, i);
      }
      delete x;
      NotSut ns;
      // keys which are deleted in between may be missing
      bool ok = ks.empty() ? f.empty() : !f.empty() && f[0].first == ks[0];
      for (size_t n = 0; n < f.size(); n++)
        ok &= f[n].second == 4000 + f[n].first && (!n || f[n - 1].first < f[n].first) && ref.count(f[n].first);
      if (!ok)
        fail(TWIN, "an iterator of a map whose keys are deleted and inserted again, held together with one of another map, delivers " + str(f));
      eqt(e, expect(ref, -1000000, true, 1000000, true, false), "begin()..end(), held while another map was modified");
    }
  }
  static void observe(Map &m, const Ref &ref, long &checks) {
#ifdef DUMPS
    std::vector<long> keys;
    for (auto &kv : ref)
      keys.push_back(key(kv.first));
    std::ostringstream o;
    m.dump(o);
    auto ls = dmp::check_btree(o.str(), keys);
    checks++;
    if (want(STATS) && m.stats().num_elements != ref.size())
      fail(STATS, S(m.stats().num_elements) + " elements are counted in a map of " + S(ref.size()));
    return dmp::check_stats(m.stats(), ls);
#endif
    if constexpr (Tr::STAT) {
      bool e;
      {
        Sut s;
        e = m.empty();
      }
      if (e != ref.empty())
        fail(LIN, std::string("empty() is ") + (e ? "true" : "false") + " with " + S(ref.size()) + " keys present");
    }
    if (!want(SCAN))
      return;
    size_t lim = ref.size() + 3;
    Ent f, c, r, cr, pf, pr;
    {
      Sut s;
      for (auto it = m.begin(), e = m.end(); it != e && f.size() < lim; ++it)
        put(f, it);
      for (auto it = m.cbegin(), e = m.cend(); it != e && c.size() < lim;) {
        put(c, it);
        if (c.size() < 60)
          it++; // copies the iterator with its list of slots
        else
          ++it;
      }
      for (auto it = m.rbegin(), e = m.rend(); it != e && r.size() < lim; ++it)
        put(r, it);
      for (auto it = m.crbegin(), e = m.crend(); it != e && cr.size() < lim;) {
        put(cr, it);
        if (cr.size() < 60)
          it++; // copies the iterator with its list of slots
        else
          ++it;
      }
      // forwards then backwards and the other way round
      auto a = m.begin();
      for (size_t i = 0; i + 1 < ref.size() && a != m.end(); i++)
        ++a;
      for (; a != m.end() && pf.size() < lim; --a)
        put(pf, a);
      auto b = m.rbegin();
      for (size_t i = 0; i + 1 < ref.size() && b != m.rend(); i++)
        ++b;
      for (; b != m.rend() && pr.size() < lim; --b)
        put(pr, b);
    }
    Ent fw = expect(ref, -1000000, true, 1000000, true, false), rv = expect(ref, -1000000, true, 1000000, true, true);
    eq(f, fw, "begin()..end()");
    eq(c, fw, "cbegin()..cend()");
    eq(r, rv, "rbegin()..rend()");
    eq(cr, rv, "crbegin()..crend()");
    eq(pf, rv, "going back from the last entry");
    eq(pr, fw, "a reverse iterator going back from the first entry");
    checks += 6;
    std::vector<int> probes;
    if (U > 100)
      probes = {-1, U / 2 & ~1, U | 1, 2 * (U - 1)};
    else
      for (int p = -1; p <= 2 * U; p += U > 12 ? 5 : 1)
        probes.push_back(p);
    for (int p : probes) {
      auto k = C::probe(p);
      bound(m, ref, k, false, p, "lower_bound(" + P(p) + ")");
      bound(m, ref, k, true, p, "upper_bound(" + P(p) + ")");
      if constexpr (!std::is_same_v<C, DynK>) {
        AltProbe<typename C::K> alt{k};
        bound(m, ref, alt, false, p, "lower_bound(probe of another type " + P(p) + ")");
        bound(m, ref, alt, true, p, "upper_bound(probe of another type " + P(p) + ")");
        {
          Sut s;
          auto f = m.Search(alt);
          int got = f ? VC::dec(*f) : -1, exp = p >= 0 && p % 2 == 0 && ref.count(p / 2) ? ref.at(p / 2) : -1;
          if (got != exp)
            fail(SCAN, "a search with a probe of another type for " + P(p) + " yields " + S(got) + ", expected " + S(exp));
        }
      }
      for (int q : probes) {
        auto k2 = C::probe(q);
        ranges(m, ref, k, k2, p, p, q, q, P(p) + ".." + P(q));
        if constexpr (!std::is_same_v<C, DynK>) {
          AltProbe<typename C::K> alt{k};
          if ((p + q) & 1)
            ranges(m, ref, alt, k2, p, p, q, q, "(probe of another type) " + P(p) + ".." + P(q));
          else
            ranges(m, ref, k, AltProbe<typename C::K>{k2}, p, p, q, q, P(p) + ".." + P(q) + " (probe of another type)");
        }
        checks += 16;
      }
    }
    if constexpr (std::is_same_v<C, CompK>) { // limits given as the first component only
      using PK = bt::compound_key<int>;
      for (int a = -1; a <= U / 3 + 1; a++) {
        long at = 6 * a - 1; // a prefix orders before every key it is a prefix of and equals none
        bound(m, ref, PK{a}, false, at, "lower_bound(partial " + S(a) + ")");
        bound(m, ref, PK{a}, true, at, "upper_bound(partial " + S(a) + ")");
        for (int b = -1; b <= U / 3 + 1; b++) {
          ranges(m, ref, PK{a}, PK{b}, at, at, 6 * b - 1, 6 * b - 1, "partial " + S(a) + ".." + S(b));
          checks += 8;
          auto k2 = C::probe(6 * b + 2);
          ranges(m, ref, PK{a}, k2, at, at, 6 * b + 2, 6 * b + 2, "partial " + S(a) + ".." + P(6 * b + 2));
          auto k1 = C::probe(6 * a + 2);
          ranges(m, ref, k1, PK{b}, 6 * a + 2, 6 * a + 2, 6 * b - 1, 6 * b - 1, P(6 * a + 2) + "..partial " + S(b));
          checks += 16;
        }
      }
    }
  }
};
template <typename C, typename V, int NS, int TH, bool STATS = true> static void family(const std::string &n, int nkeys, int dq, int dt, int pq = 2, int pt = 3) {
  using Ad = CBAd<C, V, CTr<NS, TH, STATS, false>>;
  struct M : AM<Ad> {
    using AM<Ad>::AM;
    int nk;
    void reset() override {
      Ad::U = nk;
      AM<Ad>::reset();
    }
  };
  auto *a = new M("");
  a->nk = nkeys;
  a->name = n + ", node size " + std::to_string(NS) + ", merge threshold " + std::to_string(TH);
  std::vector<int> al, rev;
  for (int i = 0; i < nkeys; i++)
    al.push_back(a->addkey(i));
  a->ghosts = {(uint64_t)nkeys, (uint64_t)nkeys + 3};
  rev.assign(al.rbegin(), al.rend());
  std::vector<int> full = al, half, churn, emptied, mid;
  for (int i = 0; i < nkeys; i += 2)
    half.push_back(al[i]);
  churn = al;
  for (int i = 1; i < nkeys; i++)
    if (i != nkeys / 2)
      churn.push_back(al[i]);
  emptied = al;
  for (int i : rev)
    emptied.push_back(i);
  mid = al; // middle leaves empty
  for (int i = 2; i < nkeys - 2; i++)
    mid.push_back(al[i]);
  al.push_back(a->op_maint());
  al.push_back(a->op_move());
  a->unit("empty", {}, al, dq, dt, 4);
  a->unit("full", full, al, pq, pt, 2);
  a->unit("full-rev", rev, al, pq, pt, 2);
  a->unit("half", half, al, pq, pt, 2);
  a->unit("churned", churn, al, pq, pt, 2);
  a->unit("emptied", emptied, al, pq, pt, 2);
  a->unit("emptied middle", mid, al, pq, pt, 2);
  // few keys, long histories
  std::vector<int> few = {0, nkeys / 2, a->op_churn(1), a->op_churn(nkeys - 1), a->op_over(0), a->op_over(nkeys / 2)};
  a->unit("full, few", full, few, pq + 1, pt + 2, 2);
  a->unit("full-rev, few", rev, few, pq + 1, pt + 2, 2);
  a->unit("churned, few", churn, few, pq + 1, pt + 2, 2);
  a->unit("empty, few", {}, few, dq, dt, 2);
  // a root leaf with dead entries, and trees shaped by other orders
  a->unit("root leaf churned", {0, 0, 1, 1, 2}, al, pq, pt, 2);
  a->unit("root leaf churned, full", {0, 0, 1, 1, 2, 3}, al, pq, pt, 2);
  auto seq = [](int from, int to, int step) {
    std::vector<int> v;
    for (int i = from; step > 0 ? i < to : i >= to; i += step)
      v.push_back(i);
    return v;
  };
  auto cat = [](std::vector<int> x, const std::vector<int> &y) {
    x.insert(x.end(), y.begin(), y.end());
    return x;
  };
  const int N = nkeys;
  a->unit("thinned", cat(full, seq(0, N, 2)), al, pq, pt, 2);
  a->unit("thinned, refilled", cat(cat(full, seq(1, N, 2)), seq(1, N, 4)), al, pq, pt, 2);
  a->unit("evens, odds", cat(seq(0, N, 2), seq(1, N, 2)), al, pq, pt, 2);
  a->unit("low half gone", cat(full, seq(0, N / 2, 1)), al, pq, pt, 2);
  a->unit("high half gone", cat(rev, seq(N - 1, N / 2, -1)), al, pq, pt, 2);
  a->unit("middle gone and back", cat(cat(full, seq(N / 4, 3 * N / 4, 1)), seq(N / 4, 3 * N / 4, 1)), al, pq, pt, 2);
  add_model(a);
}
// Nodes of realistic size: hundreds of entries or children per node, offsets beyond 16 bits.
struct Wide {
  int v;
  char fill[196];
};
template <> struct VCodec<Wide> {
  static Wide val(int v) {
    Wide w = {};
    w.v = v;
    return w;
  }
  static int dec(const Wide &w) { return w.v; }
};
template <typename V, int NS, typename C = LongK> static void big(const std::string &n, int nkeys) {
  using Ad = CBAd<C, V, CTr<NS, 20, true, false>>;
  struct M : AM<Ad> {
    using AM<Ad>::AM;
    int nk;
    void reset() override {
      Ad::U = nk;
      AM<Ad>::reset();
    }
  };
  auto *a = new M("");
  a->nk = nkeys;
  a->name = n + ", node size " + std::to_string(NS);
  std::vector<int> asc, desc, mix, low, gone, al;
  for (int i = 0; i < nkeys; i++) {
    asc.push_back(a->addkey(i));
    desc.push_back(nkeys - 1 - i);
    mix.push_back((int)(i * 7919L % nkeys));
  }
  a->ghosts = {(uint64_t)nkeys, (uint64_t)nkeys + 3};
  low = mix;
  for (int k = 0; k < 3 * nkeys / 4; k++)
    low.push_back(k);
  gone = asc;
  for (int k = nkeys - 1; k >= 2; k--)
    gone.push_back(k);
  al = {0, 1, nkeys / 3, nkeys / 2, nkeys / 2 + 1, nkeys - 1, a->op_move(), a->op_maint()};
  a->unit("big, ascending", asc, al, 1, 2, 4);
  a->unit("big, descending", desc, al, 1, 2, 4);
  a->unit("big, scattered", mix, al, 1, 2, 4);
  a->unit("big, scattered, low part gone", low, al, 1, 2, 4);
  a->unit("big, nearly emptied", gone, al, 1, 2, 4);
  add_model(a);
}
namespace {
struct Reg {
  Reg() {
#ifdef LIFETIME
#if PART == 0
    family<TrkK, trk::T, 176, 30>("counted keys and values", 6, 5, 6);
    family<TrkK, trk::T, 176, 30>("counted keys and values", 14, 1, 2, 2, 3);
#elif PART == 1
    family<TrkK, trk::T, 224, 40>("counted keys and values", 8, 4, 5);
    family<TrkK, trk::T, 224, 40>("counted keys and values", 30, 1, 2, 1, 2);
#elif PART == 2
    big<trk::T, 176, TrkK>("counted keys and values, tall trees", 1003);
#endif
#elif defined(DUMPS)
#if PART == 0
    family<LongK, long, 160, 30>("integer keys", 5, 5, 6);
    family<LongK, long, 160, 30>("integer keys", 8, 3, 5);
    family<LongK, long, 160, 30>("integer keys", 14, 2, 3, 1, 2);
#elif PART == 1
    family<LongK, long, 208, 40>("integer keys", 9, 3, 4);
    family<LongK, long, 208, 60>("integer keys", 24, 1, 2, 1, 2);
#elif PART == 2
    big<long, 160>("integer keys, tall trees", 2003);
#endif
#elif PART == 0
    family<LongK, long, 160, 30>("integer keys", 5, 6, 7);
    family<LongK, long, 160, 30>("integer keys", 8, 3, 5);
    family<LongK, long, 160, 30>("integer keys", 14, 2, 3, 1, 2);
    family<LongK, long, 160, 15, false>("integer keys", 7, 4, 5);
#elif PART == 1
    family<LongK, long, 208, 40>("integer keys", 9, 3, 4);
    family<LongK, long, 208, 60>("integer keys", 24, 1, 2, 1, 2);
    family<CompK, long, 208, 40>("compound keys", 8, 3, 5);
#elif PART == 2
    family<StrK, long, 320, 30>("string keys", 7, 4, 5);
    family<ByteK, unsigned short, 144, 30>("byte keys, 16 bit values", 12, 2, 3, 2, 3);
#elif PART == 3
    family<DynK, long, 160, 30>("keys only the caller can compare", 7, 4, 5);
    family<DynK, long, 208, 40, false>("keys only the caller can compare", 14, 2, 3, 1, 2);
#elif PART == 4
    family<AlK, al::A, 640, 30>("keys and values aligned to 32 bytes", 8, 3, 4, 2, 3);
    big<long, 160>("integer keys, tall trees", 5003); // 12 levels
#else
    big<long, 8192>("integer keys and values", 2003);
    big<long, 70000>("integer keys and values", 9001);
    big<Wide, 8192>("integer keys, wide values", 12007);
#endif
  }
} reg;
} // namespace
#if PART == 0
int main(int argc, char **argv) { return seq_main(argc, argv); }
#endif
