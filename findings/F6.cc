// C02: (C++14 header) a = b with a non-const b took the converting assignment when T accepts anything.
#include "common.h"
struct G { int k = 0; G() {} G(const G&) = default; G& operator=(const G&) = default;
  template <class U, class = typename std::enable_if<!std::is_same<typename std::decay<U>::type, G>::value>::type> G(U&&) : k(7) {}
  template <class U, class = typename std::enable_if<!std::is_same<typename std::decay<U>::type, G>::value>::type> G& operator=(U&&) { k = 7; return *this; } };
int main() { xyz::indirect<G> a, b; b->k = 1; a = b; CHECK(a->k == 1); }
