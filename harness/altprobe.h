#pragma once
// a probe of a type of its own that orders like the key it holds
template <typename K> struct AltProbe {
  K k;
  friend bool operator<(const AltProbe &a, const K &b) { return a.k < b; }
  friend bool operator<(const K &a, const AltProbe &b) { return a < b.k; }
  friend bool operator==(const AltProbe &a, const K &b) { return a.k == b; }
  friend bool operator==(const K &a, const AltProbe &b) { return a == b.k; }
  friend bool operator!=(const AltProbe &a, const K &b) { return !(a.k == b); }
  friend bool operator!=(const K &a, const AltProbe &b) { return !(a == b.k); }
  friend bool operator>(const AltProbe &a, const K &b) { return b < a.k; }
  friend bool operator>(const K &a, const AltProbe &b) { return b.k < a; }
  friend bool operator<=(const AltProbe &a, const K &b) { return !(b < a.k); }
  friend bool operator<=(const K &a, const AltProbe &b) { return !(b.k < a); }
  friend bool operator>=(const AltProbe &a, const K &b) { return !(a.k < b); }
  friend bool operator>=(const K &a, const AltProbe &b) { return !(a < b.k); }
};
