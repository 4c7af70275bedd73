// Memory under repeated operations (GROW).
#pragma once
#include "../rt/rt.h"
#include <algorithm>
#include <string>
// Repeats a cycle of about `ops` operations that ends with the contents it started with: the memory held reaches a plateau.
template <class F> long plateau(const std::string &what, int ops, size_t nkeys, F cycle) {
  // longer the more there is to fill with what is dead
  const int FIRST = 8 + (56 + rt::live_bytes() / 16) / ops, ALL = 4 * FIRST;
  size_t most = 0;
  for (int i = 0; i < ALL; i++) {
    cycle(i);
    size_t b = rt::live_bytes();
    if (i < FIRST)
      most = std::max(most, b);
    else if (b > most) {
      rt::NotSut n;
      rt::fail(rt::GROW, what + " over and over grows the map from at most " + std::to_string(most) + " bytes (the first " + std::to_string(FIRST) + " times) to " + std::to_string(b) +
                             " bytes (" + std::to_string(i + 1) + " times), with the same " + std::to_string(nkeys) + " keys");
      break;
    }
  }
  return 1;
}
