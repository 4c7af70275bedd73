// Client programs for dictionary-like concurrent containers: threads run short operation
// sequences; every schedule's history is checked for linearizability, then contents, size, leaks.
#pragma once
#include "../rt/conc.h"
#include "growth.h"
#include <algorithm>
#include <cstring>
#include <functional>
#include <map>
#include <optional>
#include <string>
#include <vector>
using namespace rt;

constexpr int SIZE_QUERY = OTHER + 100; // not part of the history
struct DOp {
  int op, key;
};
// "i1 u2 m3 d4 s5": insert, upsert, update (modify), delete, search of key 1..5; "z": size
inline std::vector<DOp> parse_ops(const std::string &s) {
  std::vector<DOp> r;
  for (size_t i = 0; i < s.size();) {
    char c = s[i++];
    if (c == ' ')
      continue;
    int op = c == 'i' ? INSERT : c == 'u' ? UPSERT : c == 'm' ? UPDATE : c == 'd' ? DELETE : c == 's' ? SEARCH : c == 'z' ? SIZE_QUERY : OTHER;
    int k = 0;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9')
      k = k * 10 + (s[i++] - '0');
    r.push_back({op, k});
  }
  return r;
}
// Adapter A: void make(int variant); void destroy(); int ins(k,v) 1/0; int ups/upd/del/find -> old/found or NONE;
//            size_t size(); bool has_size(); void reclaim(); void other(int k);   (all called with in_sut set)
template <class A> struct DictProgram : Program {
  A a;
  int variant = 0;
  std::vector<DOp> init;
  std::vector<int> bulk; // further initial keys that no thread touches
  std::vector<std::vector<DOp>> th;
  std::vector<int> universe;
  std::vector<int> untouched; // subset of bulk checked at the end
  int hist_kind = LIN;        // how histories without a sequential explanation are reported
  bool at_end_usable = true;  // run a few operations after the threads are done

  // what a size read while the threads run may be: each can still be missing any of their operations
  void size_query() {
    size_t sz, ins = 0, del = 0;
    point();
    {
      Sut s;
      NoWait w("size()");
      sz = a.size();
    }
    if (!want(SIZE))
      return;
    for (auto &t : th)
      for (auto &o : t)
        ins += o.op == INSERT || o.op == UPSERT, del += o.op == DELETE;
    size_t lo = st.size() > del ? st.size() - del : 0, hi = st.size() + ins;
    if (sz < lo || sz > hi)
      fail(SIZE, "size() returns " + std::to_string((ptrdiff_t)sz) + " while the map cannot have held less than " + std::to_string(lo) + " or more than " + std::to_string(hi) +
                     " keys; " + history_str());
  }
  // adapters of maps whose searches never wait
  template <class X> auto search(X &x, int k, int) -> decltype(X::searches_never_wait(), int()) {
    NoWait w("a search");
    return x.find(k);
  }
  template <class X> int search(X &x, int k, long) { return x.find(k); }
  void run(const DOp &o, int val) {
    if (o.op == SIZE_QUERY)
      return size_query();
    if (o.op == OTHER) {
      point();
      Sut s;
      a.other(o.key);
      return;
    }
    int h = inv(o.op, o.key, val), r;
    {
      Sut s;
      switch (o.op) {
      case INSERT: r = a.ins(o.key, val); break;
      case UPSERT: r = a.ups(o.key, val); break;
      case UPDATE: r = a.upd(o.key, val); break;
      case DELETE: r = a.del(o.key); break;
      default: r = search(a, o.key, 0);
      }
    }
    resp(h, r);
  }
  std::vector<std::pair<uint32_t, uint32_t>> not_nodes;
  // adapters of trees: every lookup passes through height() nodes
  template <class X> auto shape(X &x, int) -> decltype(x.height(), void()) {
    if (!want(SHAPE))
      return;
    int h, n;
    {
      Sut s;
      h = x.height();
    }
    for (int k : universe) {
      {
        Sut s;
        touch_start(X::NODE, not_nodes);
        x.find(k);
        n = touch_stop();
      }
      if (n != h)
        fail(SHAPE, "all threads are done, height() is " + std::to_string(h) + ", but the search for key " + std::to_string(k) + " passes through " + std::to_string(n) +
                        " nodes; " + history_str());
    }
  }
  template <class X> void shape(X &, long) {}
  template <class X> auto rest(X &x, const std::vector<int> &present, int) -> decltype(x.at_rest(present), void()) { x.at_rest(present); }
  template <class X> void rest(X &, const std::vector<int> &, long) {}
  // operations before the threads start: not part of the history
  std::vector<std::pair<int, int>> st;
  void quiet(const DOp &o, int val) {
    Sut s;
    auto it = st.begin();
    while (it != st.end() && it->first != o.key)
      ++it;
    NotSut n;
    switch (o.op) {
    case INSERT: case UPSERT: {
      Sut s2;
      a.ups(o.key, val);
    }
      if (it != st.end()) it->second = val;
      else st.push_back({o.key, val});
      break;
    case DELETE: {
      Sut s2;
      a.del(o.key);
    }
      if (it != st.end()) st.erase(it);
      break;
    default:;
    }
  }
  void setup() override {
    st.clear();
    {
      Sut s;
      a.make(variant);
    }
    not_nodes.assign(1, {0, blocks_so_far()});
    for (int k : bulk)
      quiet({INSERT, k}, 100 + k % 100);
    for (auto &o : init)
      quiet(o, 100 + o.key % 100);
    for (int k : universe)
      for (auto &p : st)
        if (p.first == k)
          init_entry(k, p.second);
  }
  void thread(int t) override {
    int v = (t + 1) * 10;
    for (auto &o : th[t])
      run(o, v++);
  }
  void finish() override {
    // what searches find afterwards is part of the history
    size_t found = 0, expect = 0;
    std::vector<int> present;
    for (int k : universe) {
      int h = inv(SEARCH, k, 0), r;
      {
        Sut s;
        r = a.find(k);
      }
      resp(h, r);
      found += r != NONE;
      if (r != NONE)
        present.push_back(k);
    }
    for (auto &p : st) {
      bool u = false;
      for (int k : universe)
        u |= k == p.first;
      if (u)
        continue;
      expect++;
      int r;
      {
        Sut s;
        r = a.find(p.first);
      }
      if (r != p.second)
        fail(LIN, "key " + std::to_string(p.first) + ", which no thread touched, is " + (r == NONE ? "lost" : "changed to " + std::to_string(r)) + " after: " + history_str());
      found += r != NONE;
      if (r != NONE)
        present.push_back(p.first);
    }
    std::sort(present.begin(), present.end());
    rest(a, present, 0);
    shape(a, 0);
    if (want(hist_kind))
      check_linearizable(hist_kind);
    if (want(SIZE) && a.has_size()) {
      size_t sz;
      {
        Sut s;
        sz = a.size();
      }
      if (sz != found)
        fail(SIZE, "all threads are done and " + std::to_string(found) + " keys are found, but size() is " + std::to_string(sz) + "; " + history_str());
      a.size_extra(found);
    }
    if (want(GROW)) {
      Sut s;
      int k = universe[(universe.size() - 1) / 2];
      if (a.find(k) == NONE)
        a.ups(k, 50);
      plateau("all threads are done; deleting and inserting key " + std::to_string(k), 8, found, [&](int r) {
        a.del(k);
        a.ups(k, 50 + r % 7);
      });
    }
    if (at_end_usable)
      for (int k : universe) { // the container must stay usable
        Sut s;
        int b = a.find(k);
        int o = a.ups(k, 77);
        int c = a.find(k);
        int d = a.del(k);
        int e = a.find(k);
        NotSut n;
        if (o != b || c != 77 || d != 77 || e != NONE)
          fail(LIN, "after the threads finished, operations on key " + std::to_string(k) + " go wrong: search " + std::to_string(b) + " upsert " +
                        std::to_string(o) + " search " + std::to_string(c) + " delete " + std::to_string(d) + " search " + std::to_string(e) + " after " +
                        history_str());
      }
    {
      Sut s;
      a.reclaim();
      a.destroy();
    }
    if (live_blocks() != 0)
      fail(MEM, std::to_string(live_blocks()) + " allocations are never freed:" + describe_live() + " after " + history_str());
    a.final_checks();
  }
  void cleanup() override { a.cleanup(); }
};

// Every thread uses a container of its own: each must behave as if it were alone.
template <class A> struct TwinProgram : Program {
  std::vector<A> a;
  std::vector<std::vector<std::pair<int, int>>> ref;
  int variant = 0;
  std::vector<DOp> init;
  std::vector<int> bulk, universe;
  std::vector<std::vector<DOp>> th;
  int *at(int t, int k) {
    for (auto &p : ref[t])
      if (p.first == k)
        return &p.second;
    return nullptr;
  }
  void step(int t, const DOp &o, int val, bool check) {
    int *e = at(t, o.key), old = e ? *e : NONE, r = 0, want_r = old;
    {
      std::optional<NoWait> w;
      if (check)
        w.emplace("an operation on a container which no other thread uses");
      Sut s;
      switch (o.op) {
      case INSERT: r = a[t].ins(o.key, val); break;
      case UPSERT: r = a[t].ups(o.key, val); break;
      case UPDATE: r = a[t].upd(o.key, val); break;
      case DELETE: r = a[t].del(o.key); break;
      case SEARCH: r = a[t].find(o.key); break;
      case SIZE_QUERY:
        if (a[t].has_size())
          r = (int)a[t].size();
        break;
      default: a[t].other(o.key);
      }
    }
    if (o.op == INSERT)
      want_r = old == NONE;
    if (o.op == SIZE_QUERY)
      want_r = a[t].has_size() ? ref[t].size() : 0;
    if (o.op == OTHER)
      want_r = r;
    if (check && r != want_r)
      fail(TWIN, "T" + std::to_string(t + 1) + " is the only user of its container, but its operation on key " + std::to_string(o.key) + " returns " + std::to_string(r) + ", expected " + std::to_string(want_r));
    if ((o.op == INSERT && !e) || o.op == UPSERT || (o.op == UPDATE && e)) {
      if (e)
        *e = val;
      else
        ref[t].push_back({o.key, val});
    } else if (o.op == DELETE && e) {
      for (size_t i = 0; i < ref[t].size(); i++)
        if (ref[t][i].first == o.key) {
          ref[t][i] = ref[t].back();
          ref[t].pop_back();
          break;
        }
    }
  }
  void all(int t, const char *when) {
    for (auto k : universe)
      step(t, {SEARCH, k}, 0, true);
    for (auto k : bulk)
      step(t, {SEARCH, k}, 0, true);
    step(t, {SIZE_QUERY, 0}, 0, true);
    (void)when;
  }
  void setup() override {
    a.assign(th.size(), A());
    ref.assign(th.size(), {});
    for (size_t t = 0; t < th.size(); t++) {
      Sut s;
      a[t].make(variant);
    }
    for (size_t t = 0; t < th.size(); t++) {
      for (int k : bulk)
        step(t, {INSERT, k}, 100 * (t + 1) + k % 100, false);
      for (auto &o : init)
        if (o.op == INSERT || o.op == UPSERT || o.op == DELETE)
          step(t, {o.op == INSERT ? UPSERT : o.op, o.key}, 100 * (t + 1) + o.key % 100, false);
    }
  }
  void thread(int t) override {
    int v = 50 * (t + 1);
    for (auto &o : th[t]) {
      point();
      step(t, o, v++, true);
    }
  }
  void finish() override {
    for (size_t t = 0; t < th.size(); t++)
      all(t, "all threads are done");
    for (size_t t = 0; t < th.size(); t++) {
      {
        Sut s;
        a[t].reclaim();
        a[t].destroy();
      }
      for (size_t u = t + 1; u < th.size(); u++)
        all(u, "another container was destroyed");
    }
  }
  void cleanup() override {
    for (auto &x : a)
      x.cleanup();
  }
};

inline std::vector<std::string> split_bar(const std::string &s) {
  std::vector<std::string> r(1);
  for (char c : s)
    if (c == '|')
      r.emplace_back();
    else
      r.back() += c;
  return r;
}
template <class A> struct Gen {
  // init "i1 i2", threads "d1 | i2"
  static DictProgram<A> *make(const std::string &label, int variant, const std::string &init, const std::string &threads, int bq, int bt, int shards = 1,
                              const std::vector<int> &bulk = {}) {
    auto *p = new DictProgram<A>;
    p->variant = variant;
    p->init = parse_ops(init);
    p->bulk = bulk;
    for (auto &t : split_bar(threads))
      p->th.push_back(parse_ops(t));
    p->nthreads = p->th.size();
    auto addu = [&](int k) {
      for (int u : p->universe)
        if (u == k)
          return;
      p->universe.push_back(k);
    };
    for (auto &o : p->init)
      addu(o.key);
    for (auto &t : p->th)
      for (auto &o : t)
        if (o.op != OTHER && o.op != SIZE_QUERY)
          addu(o.key);
    p->name = label + ": [" + init + "] " + threads;
    p->max_bound_quick = bq;
    p->max_bound_thorough = bt;
    p->shards = shards;
#ifdef TWINS
    auto *q = new TwinProgram<A>;
    q->variant = variant;
    q->init = p->init;
    q->bulk = p->bulk;
    q->th = p->th;
    q->nthreads = p->nthreads;
    q->universe = p->universe;
    q->name = p->name + " (a container for each thread)";
    q->max_bound_quick = bq;
    q->max_bound_thorough = bt;
    q->shards = shards;
    if (bq >= 0)
      add_program(q);
    return p;
#endif
    if (bq >= 0)
      add_program(p);
    return p;
  }
  // all unordered pairs of single operations
  static void cross(const std::string &label, int variant, const std::string &init, const std::vector<std::string> &ops, int bq, int bt, int shards = 1,
                    const std::vector<int> &bulk = {}) {
    for (size_t i = 0; i < ops.size(); i++)
      for (size_t j = i; j < ops.size(); j++) {
        if (ops[i][0] == 's' && ops[j][0] == 's')
          continue;
        make(label, variant, init, ops[i] + " | " + ops[j], bq, bt, shards, bulk);
      }
  }
};
