// Reads the text printed by the maps' dump() and compares it with the contents of the map.
#pragma once
#include "../rt/rt.h"
#include <algorithm>
#include <cctype>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
namespace dmp {
using rt::DUMP;
using rt::fail;
using rt::want;
// one line per level, one group |k, k, ...| per node
using Level = std::vector<std::vector<long>>;
inline std::string shorten(const std::string &s) { return s.size() > 600 ? s.substr(0, 600) + "..." : s; }
inline std::vector<Level> levels(const std::string &text) {
  std::vector<Level> r;
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    Level l;
    for (size_t p = line.find('|'); p != std::string::npos;) {
      size_t q = line.find('|', p + 1);
      if (q == std::string::npos)
        break;
      std::vector<long> ks;
      for (size_t i = p + 1; i < q;) {
        if (line[i] == '-' || isdigit((unsigned char)line[i])) {
          char *e;
          ks.push_back(strtol(line.c_str() + i, &e, 10));
          i = e - line.c_str();
        } else
          i++;
      }
      l.push_back(ks);
      p = line.find('|', q + 1);
    }
    if (!l.empty())
      r.push_back(l);
  }
  return r;
}
// keys: the contents in order. Returns the levels.
inline std::vector<Level> check_btree(const std::string &text, const std::vector<long> &keys) {
  auto ls = levels(text);
  if (!want(DUMP))
    return ls;
  auto bad = [&](const std::string &m) { fail(DUMP, m + "; dump: " + shorten(text)); };
  if (ls.empty()) {
    if (!keys.empty())
      bad("the dump of a map with " + std::to_string(keys.size()) + " keys shows no node");
    return ls;
  }
  std::vector<long> got;
  for (auto &n : ls.back())
    got.insert(got.end(), n.begin(), n.end());
  if (got != keys) {
    size_t i = 0;
    while (i < got.size() && i < keys.size() && got[i] == keys[i])
      i++;
    bad("the last level of the dump lists " + std::to_string(got.size()) + " keys for a map of " + std::to_string(keys.size()) + ", the first difference at position " + std::to_string(i));
  }
  for (size_t l = 0; l + 1 < ls.size(); l++) {
    size_t kids = 0;
    for (auto &n : ls[l])
      kids += n.size() + 1;
    if (kids != ls[l + 1].size())
      bad("level " + std::to_string(l) + " of the dump has " + std::to_string(kids) + " child positions, the level below it " + std::to_string(ls[l + 1].size()) + " nodes");
  }
  if (ls[0].size() != 1)
    bad("the first level of the dump has " + std::to_string(ls[0].size()) + " nodes");
  // every key printed for an inner node separates the subtrees left and right of it
  std::vector<size_t> pos(ls.size(), 0);
  std::function<void(size_t, const long *, const long *)> walk = [&](size_t l, const long *lo, const long *hi) {
    auto &n = ls[l][pos[l]++];
    for (size_t i = 0; i < n.size(); i++)
      if ((i && n[i - 1] >= n[i]) || (lo && n[i] < *lo) || (hi && n[i] >= *hi))
        bad("key " + std::to_string(n[i]) + " on level " + std::to_string(l) + " of the dump is out of order");
    if (l + 1 < ls.size())
      for (size_t i = 0; i <= n.size(); i++)
        walk(l + 1, i ? &n[i - 1] : lo, i < n.size() ? &n[i] : hi);
  };
  walk(0, nullptr, nullptr);
  return ls;
}
// A radix tree: "{HEXKEY, value}" once per entry; every node printed ("0x...=") is the root or referred to ("[XX, 0x...]") once.
inline void check_art(const std::string &text, const std::map<uint64_t, int> &ref, const std::function<int(long)> &dec) {
  auto bad = [&](const std::string &m) { fail(DUMP, m + "; dump: " + shorten(text)); };
  std::map<uint64_t, int> got;
  for (size_t p = text.find('{'); p != std::string::npos; p = text.find('{', p + 1)) {
    char *e;
    uint64_t k = strtoull(text.c_str() + p + 1, &e, 16);
    while (*e == ',' || *e == ' ')
      e++;
    if (!got.emplace(k, dec(strtol(e, nullptr, 10))).second)
      bad("the dump lists a key twice");
  }
  for (auto &kv : ref)
    if (!got.count(kv.first))
      bad("the dump omits a key");
    else if (got[kv.first] != kv.second)
      bad("the dump shows value " + std::to_string(got[kv.first]) + " for a key with value " + std::to_string(kv.second));
  if (got.size() != ref.size())
    bad("the dump lists " + std::to_string(got.size()) + " keys for a map of " + std::to_string(ref.size()));
  std::multiset<uint64_t> nodes, refs;
  for (size_t p = text.find("0x"); p != std::string::npos; p = text.find("0x", p + 2)) {
    char *e;
    uint64_t a = strtoull(text.c_str() + p, &e, 16);
    (*e == '=' ? nodes : refs).insert(a);
  }
  for (auto a : refs)
    if (nodes.count(a) != 1 || refs.count(a) != 1)
      bad("a node is referred to " + std::to_string(refs.count(a)) + " times and printed " + std::to_string(nodes.count(a)) + " times");
  if (!nodes.empty() && nodes.size() != refs.size() + 1)
    bad("the dump prints " + std::to_string(nodes.size()) + " nodes and refers to " + std::to_string(refs.size()));
}
// The counters of structural changes, against the nodes there are.
template <class St> void check_stats(const St &st, const std::vector<Level> &ls) {
  using rt::STATS;
  if (!want(STATS))
    return;
  long leaves = ls.empty() ? 0 : ls.back().size(), inner = 0;
  for (size_t i = 0; i + 1 < ls.size(); i++)
    inner += ls[i].size();
  // the first leaf, and each further level's first node, come into being without a split; a root that is left with one child
  // (and is dropped) goes without a merge
  long lsplit = st.num_leaf_splits, lmerge = st.num_leaf_merges, isplit = st.num_inner_splits, imerge = st.num_inner_merges;
  auto n = [](long x) { return std::to_string(x); };
  if (leaves != (ls.empty() ? 0 : 1) + lsplit - lmerge)
    fail(STATS, n(lsplit) + " leaf splits and " + n(lmerge) + " leaf merges are counted, but the map has " + n(leaves) + " leaves");
  if (inner != (ls.empty() ? 0 : (long)ls.size() - 1) + isplit - imerge)
    fail(STATS, n(isplit) + " splits and " + n(imerge) + " merges of inner nodes are counted, but the map has " + n(inner) + " inner nodes on " + n((long)ls.size() - 1) + " levels");
  std::ostringstream o;
  {
    rt::NotSut ns;
    st.dump(o);
  }
  std::string text = o.str();
  for (auto &f : std::vector<std::pair<const char *, size_t>>{{"Num Leaf Splits = ", st.num_leaf_splits}, {"Num Inner Splits = ", st.num_inner_splits}, {"Num Leaf Trims = ", st.num_leaf_trims}, {"Num Inner Trims = ", st.num_inner_trims}, {"Num Leaf Merges = ", st.num_leaf_merges}, {"Num Inner Merges = ", st.num_inner_merges}, {"Num Pessimistic Reads = ", st.num_pessimistic_reads}, {"Num Optimistic Fails = ", st.num_optimistic_fails}, {"Num Retries = ", st.num_retrys}})
    if (text.find(f.first + std::to_string(f.second) + "\n") == std::string::npos)
      fail(STATS, std::string("the printed statistics do not show ") + f.first + std::to_string(f.second) + ": " + text);
}
} // namespace dmp
