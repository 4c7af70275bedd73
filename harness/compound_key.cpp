// C04: every pair and triple of compound keys of 1 to 7 components over small ordered component domains.
#include "indexes/btree/key.h"
#include "../rt/seq.h"
#include <algorithm>
#include <climits>
#include <cstdio>
#include <cstring>
#include <string>
#include <variant>
#include <vector>
namespace bt = indexes::btree;
template <typename T> struct Dom;
template <> struct Dom<int> { static std::vector<int> v() { return {INT_MIN, -1, 0, 7, INT_MAX}; } };
template <> struct Dom<long> { static std::vector<long> v() { return {LONG_MIN, -1, 0, 7, LONG_MAX}; } };
template <> struct Dom<unsigned char> { static std::vector<unsigned char> v() { return {0, 1, 127, 128, 255}; } };
template <> struct Dom<unsigned> { static std::vector<unsigned> v() { return {0, 1, 0x7fffffff, 0x80000000u, UINT_MAX}; } };
template <> struct Dom<char> { static std::vector<char> v() { return {CHAR_MIN, 'A', 'a', 'b', CHAR_MAX}; } };
template <> struct Dom<short> { static std::vector<short> v() { return {SHRT_MIN, -1, 0, 256, SHRT_MAX}; } };
template <> struct Dom<bool> { static std::vector<bool> v() { return {false, true}; } };
template <> struct Dom<double> { static std::vector<double> v() { return {-1e300, -0.5, 0, 0.5, 1e300}; } };
template <> struct Dom<std::string> { static std::vector<std::string> v() { return {"", "a", "aa", "ab", "b"}; } };
static uint64_t states, trans, triples, families, longest;
static std::string bad, sample;
template <typename K> struct E { K k; std::vector<int> r; };
static std::string show(const std::vector<int> &r) {
  std::string s = "(";
  for (int x : r)
    s += (s.size() > 1 ? "," : "") + std::to_string(x);
  return s + ")";
}
static int cmp(const std::vector<int> &a, const std::vector<int> &b) {
  for (size_t i = 0; i < a.size() && i < b.size(); i++)
    if (a[i] != b[i])
      return a[i] < b[i] ? -1 : 1;
  return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}
// DESC: the descending variant, whose components compare the other way round. Where a prefix of a key orders is then left
// open, but it must order somewhere.
template <bool DESC, typename... T> using Key = std::conditional_t<DESC, bt::compound_key_greater<T...>, bt::compound_key<T...>>;
template <bool DESC, typename Tup, typename I> struct Prefix;
template <bool DESC, typename Tup, size_t... I> struct Prefix<DESC, Tup, std::index_sequence<I...>> {
  using type = Key<DESC, std::tuple_element_t<I, Tup>...>;
  template <typename T> static T pick(int i, int dom) {
    auto d = Dom<T>::v();
    return d[i * (d.size() - 1) / (dom - 1)];
  }
  static type make(const std::vector<int> &r, int dom) { return type{pick<std::tuple_element_t<I, Tup>>(r[I], dom)...}; }
};
// Keys which are the prefixes (length 1 to n) of n components, each over `dom' values spread over its domain, the extremes among them.
template <bool DESC, typename Tup, typename L> struct Keys;
template <bool DESC, typename Tup, size_t... L> struct Keys<DESC, Tup, std::index_sequence<L...>> {
  template <size_t N> using P = Prefix<DESC, Tup, std::make_index_sequence<N + 1>>;
  struct Any {
    std::variant<typename P<L>::type...> k;
    std::vector<int> r;
  };
  template <size_t N> static void fill(std::vector<Any> &keys, int dom) {
    std::vector<int> r(N + 1, 0);
    for (;;) {
      keys.push_back({P<N>::make(r, dom), r});
      size_t i = 0;
      while (i <= N && ++r[i] == dom)
        r[i++] = 0;
      if (i > N)
        return;
    }
  }
  static void family(const char *name, int dom) {
  std::vector<Any> keys;
  (fill<L>(keys, dom), ...);
  size_t n = keys.size();
  families++;
  longest = std::max<uint64_t>(longest, sizeof...(L));
  states += n;
  std::vector<std::vector<char>> lt(n, std::vector<char>(n));
  for (size_t a = 0; a < n; a++)
    for (size_t b = 0; b < n; b++) {
      trans++;
      int c = cmp(keys[a].r, keys[b].r);
      std::visit(
          [&](const auto &x, const auto &y) {
            lt[a][b] = x < y;
            const char *op = nullptr;
            if (DESC) {
              bool prefix = std::equal(keys[a].r.begin(), keys[a].r.begin() + std::min(keys[a].r.size(), keys[b].r.size()), keys[b].r.begin());
              c = !prefix ? -c : c ? (x < y ? -1 : 1) : 0;
            }
            if ((x < y) != (c < 0)) op = "<";
            else if ((x > y) != (c > 0)) op = ">";
            else if ((x <= y) != (c <= 0)) op = "<=";
            else if ((x >= y) != (c >= 0)) op = ">=";
            else if ((x == y) != (c == 0)) op = "==";
            else if ((x != y) != (c != 0)) op = "!=";
            if (op && bad.empty())
              bad = std::string(name) + ": key " + show(keys[a].r) + " " + op + " key " + show(keys[b].r) + " (component ranks) gives the wrong answer";
          },
          keys[a].k, keys[b].k);
    }
  for (size_t a = 0; a < n; a++)
    for (size_t b = 0; b < n; b++)
      for (size_t c = 0; c < n; c++) {
        triples++;
        bool viol = (lt[a][b] && lt[b][c] && !lt[a][c]) || (!lt[a][b] && !lt[b][a] && !lt[b][c] && !lt[c][b] && (lt[a][c] || lt[c][a]));
        if (viol && bad.empty())
          bad = std::string(name) + ": not a strict weak order on " + show(keys[a].r) + show(keys[b].r) + show(keys[c].r);
      }
  // assignment and construction keep the components
  for (auto &e : keys)
    std::visit(
        [&](const auto &x) {
          auto y = x;
          std::decay_t<decltype(x)> z;
          z = x;
          if (!(y == x) || !(z == x) || y < x || x < z)
            if (bad.empty())
              bad = std::string(name) + ": a copy of key " + show(e.r) + " differs from it";
        },
        e.k);
  sample = std::string(name) + ": " + std::to_string(n) + " keys, all pairs, all triples";
  }
};
template <bool DESC, typename... T> static void fam(const char *name, int dom) {
  Keys<DESC, std::tuple<T...>, std::make_index_sequence<sizeof...(T)>>::family(name, dom);
}
template <typename A, typename B, typename C, bool DESC = false> static void family(const char *name) { fam<DESC, A, B, C>(name, 5); }
// keys whose components have different but comparable types
static void mixed() {
  bt::compound_key<int, int> a{1, 2};
  bt::compound_key<long> b{1};
  bt::compound_key<long, short> c{1, 2}, d{1, 3}, e{0, 9};
  trans += 8;
  if (!(b < a) || a < b || a < c || c < a || !(a < d) || !(e < a) || !(a > b) || !(a <= c) || !(a >= c))
    bad = "keys with different integer component types compare wrongly";
}
int main(int argc, char **argv) {
  const char *out = "";
  bool th = false;
  for (int i = 1; i + 1 < argc; i++) {
    if (!strcmp(argv[i], "--out")) out = argv[i + 1];
    if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    if (!strcmp(argv[i], "--replay")) out = "";
  }
  mixed();
  family<int, int, int>("<int,int,int>");
  family<std::string, int, std::string>("<string,int,string>");
  family<double, unsigned char, long>("<double,uchar,long>");
  family<long, std::string, double>("<long,string,double>");
  family<int, std::string, long, true>("descending <int,string,long>");
  family<std::string, unsigned char, int, true>("descending <string,uchar,int>");
  // more components, fewer values for each
  fam<false, int, std::string, double, long>("<int,string,double,long>", 3);
  fam<false, std::string, long, unsigned char, int, std::string, double>("six components", 2);
  fam<true, int, double, std::string, unsigned char, long>("descending, five components", 2);
  fam<false, unsigned char, unsigned char, unsigned char, unsigned char>("<uchar,uchar,uchar,uchar>", 3);
  fam<false, unsigned, unsigned>("<unsigned,unsigned>", 5);
  fam<false, short, short, short>("<short,short,short>", 5);
  fam<false, char, unsigned, short, bool>("<char,unsigned,short,bool>", 2);
  fam<true, bool, char, unsigned>("descending <bool,char,unsigned>", 2);
  if (th) {
    fam<false, char, unsigned, short, char>("<char,unsigned,short,char>", 4);
    fam<true, short, int, char, long>("descending <short,int,char,long>", 4);
    fam<false, std::string, int, short, char, long, double, unsigned>("seven components", 2);
    family<unsigned char, long, std::string>("<uchar,long,string>");
    family<int, double, unsigned char>("<int,double,uchar>");
    family<std::string, std::string, std::string>("<string,string,string>");
  }
  std::string v = "null";
  if (!bad.empty()) {
    std::string m;
    for (char c : bad) m += c == '"' || c == '\\' ? ' ' : c;
    v = "{\"kind\":128,\"msg\":\"" + m + "\",\"program\":\"compound keys\",\"bound\":0,\"shard\":0,\"nshards\":1,\"choices\":\"\"}";
  }
  char js[4000];
  snprintf(js, sizeof js,
           "{\"engine\":\"seq\",\"states\":%lu,\"transitions\":%lu,\"paths\":%lu,\"checks\":%lu,\"maxdepth\":%lu,\"units\":1,\"units_complete\":1,\"models\":%lu,"
           "\"exhaustive\":%s,\"samples\":[\"%s\"],\"wall\":0,\"violation\":%s}\n",
           states, trans, trans + triples, 6 * trans + triples, longest, families, bad.empty() ? "true" : "false", sample.c_str(), v.c_str());
  FILE *f = *out ? fopen(out, "w") : stdout;
  fputs(js, f);
  return bad.empty() ? 0 : 1;
}
