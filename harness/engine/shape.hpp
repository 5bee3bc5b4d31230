// structure put on top of a random vector: the regular, repetitive and partly
// empty vectors that an optimised path could single out
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <cstddef>
#include <cstdint>
namespace shape {
constexpr size_t COUNT = 14;
static const char* const NAMES[COUNT] = { "constant",     "constant but one", "upper half zero", "lower half zero", "odd places zero",
                                          "even places zero", "two equal halves", "two opposite halves", "palindrome",  "both ends zero",
                                          "zero tail",    "zero head",        "periodic",        "all zero" };
template<class V, class NEG>
static inline void
apply(V& v, const size_t kind, const uint64_t x, NEG neg)
{
  const size_t n = v.size();
  if (n < 2)
    return;
  using E = typename V::value_type;
  const E z = E(0);
  const auto at = static_cast<size_t>(x % n);
  switch (kind) {
    case 0:
      std::fill(v.begin(), v.end(), E(v[at]));
      break;
    case 1: {
      const E other = v[(at + 1) % n];
      std::fill(v.begin(), v.end(), E(v[at]));
      v[at] = other;
      break;
    }
    case 2:
      std::fill(v.begin() + static_cast<long>(n / 2), v.end(), z);
      break;
    case 3:
      std::fill(v.begin(), v.begin() + static_cast<long>(n / 2), z);
      break;
    case 4:
      for (size_t i = 1; i < n; i += 2)
        v[i] = z;
      break;
    case 5:
      for (size_t i = 0; i < n; i += 2)
        v[i] = z;
      break;
    case 6:
      for (size_t i = 0; i < n / 2; i++)
        v[n / 2 + i] = v[i];
      break;
    case 7:
      for (size_t i = 0; i < n / 2; i++)
        v[n / 2 + i] = neg(v[i]);
      break;
    case 8:
      for (size_t i = 0; i < n / 2; i++)
        v[n - 1 - i] = v[i];
      break;
    case 9:
      v[0] = v[n - 1] = z;
      break;
    case 10:
      std::fill(v.begin() + static_cast<long>(at), v.end(), z);
      break;
    case 11:
      std::fill(v.begin(), v.begin() + static_cast<long>(at), z);
      break;
    case 12: {
      const size_t p = 1 + static_cast<size_t>(x % 9);
      for (size_t i = p; i < n; i++)
        v[i] = v[i - p];
      break;
    }
    default:
      std::fill(v.begin(), v.end(), z);
  }
}
// one vector in `per` gets a structure
template<class V, class NEG>
static inline void
some(pbt::Ctx& c, V& v, const uint64_t per, NEG neg)
{
  const uint64_t k = c.t.below(per * COUNT + 1);
  if (k == 0 || k > COUNT)
    return;
  apply(v, static_cast<size_t>(k - 1), c.t.u64(), neg);
  c.label(NAMES[k - 1]);
}
template<class V>
static inline void
some(pbt::Ctx& c, V& v, const uint64_t per)
{
  some(c, v, per, [](const typename V::value_type& x) { return -x; });
}
}
