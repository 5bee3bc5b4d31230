#pragma once
// Big-integer polynomials: generators and reference products (Kronecker
// substitution into one GMP integer for large sizes, schoolbook for small).
#include "pbt.hpp"
#include <gmpxx.h>
namespace big {
using vec = std::vector<mpz_class>;

inline mpz_class
number(pbt::Tape& t, const size_t bits)
{
  mpz_class v = 0;
  for (size_t i = 0; i < bits; i += 64) {
    v <<= 64;
    v += mpz_class(static_cast<unsigned long>(t.u64()));
  }
  mpz_class m = (mpz_class(1) << bits) - 1;
  v &= m;
  return t.below(2) ? mpz_class(-v) : v;
}
struct shape_t
{
  size_t bits_a, bits_b;
  int kind_a, kind_b;
};
inline size_t
bits(pbt::Tape& t, size_t max)
{
  switch (t.pick({ 3, 2, 2 })) {
    case 0:
      return 1 + t.below(16);
    case 1:
      return 1 + t.below(std::min<size_t>(130, max));
    default:
      return 1 + t.below(max);
  }
}
inline shape_t
shape(pbt::Tape& t, size_t max)
{
  return { bits(t, max), bits(t, max), static_cast<int>(t.pick({ 4, 2, 1, 1, 1 })), static_cast<int>(t.pick({ 4, 2, 1, 1, 1 })) };
}
// numbers of one polynomial derived from a key, to keep the tape short
inline mpz_class
derived(uint64_t key, size_t i, size_t nb)
{
  uint64_t x = key ^ (i * 0x9e3779b97f4a7c15ull);
  mpz_class v = 0;
  for (size_t k = 0; k < nb; k += 64) {
    v <<= 64;
    v += mpz_class(static_cast<unsigned long>(pbt::Rng::splitmix(x)));
  }
  v &= (mpz_class(1) << nb) - 1;
  return pbt::Rng::splitmix(x) & 1 ? mpz_class(-v) : v;
}
// kind 0: dense, 1: sparse (few terms), 2: all extreme (+-(2^bits - 1)),
// 3: one sign only, 4: mostly zero / one
inline vec
poly(pbt::Tape& t, size_t n, size_t nb, int kind)
{
  vec a(n);
  const uint64_t key = t.u64();
  switch (kind) {
    case 0:
      for (size_t i = 0; i < n; i++)
        a[i] = key ? derived(key, i, nb) : mpz_class(0);
      break;
    case 1:
      for (size_t k = 1 + t.below(4); k > 0; k--)
        a[t.below(n)] = number(t, nb);
      break;
    case 2:
      for (size_t i = 0; i < n; i++) {
        a[i] = (mpz_class(1) << nb) - 1;
        if (derived(key, i, 1) != 0)
          a[i] = -a[i];
      }
      break;
    case 3:
      for (size_t i = 0; i < n; i++)
        a[i] = -abs(derived(key, i, nb));
      break;
    default:
      for (size_t i = 0; i < n; i++)
        a[i] = derived(key, i, 2) > 2 ? 1 : 0;
  }
  return a;
}
inline std::string
show(const vec& v, size_t max = 6)
{
  std::string s = "[";
  for (size_t i = 0; i < std::min(v.size(), max); i++)
    s += (i ? "," : "") + v[i].get_str().substr(0, 40);
  return s + (v.size() > max ? ",...]" : "]");
}
// full product, 2n coefficients
inline vec
mul_full(const vec& a, const vec& b)
{
  const size_t n = a.size();
  vec r(2 * n);
  if (n <= 16) {
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++)
        r[i + j] += a[i] * b[j];
    return r;
  }
  size_t ba = 1, bb = 1;
  for (size_t i = 0; i < n; i++) {
    ba = std::max(ba, mpz_sizeinbase(a[i].get_mpz_t(), 2));
    bb = std::max(bb, mpz_sizeinbase(b[i].get_mpz_t(), 2));
  }
  // evaluate at 2^w, with room for the sign
  const size_t w = ba + bb + 14;
  auto pack = [&](const vec& v) {
    std::function<mpz_class(size_t, size_t)> go = [&](size_t lo, size_t len) -> mpz_class {
      if (len == 1)
        return v[lo];
      const size_t h = len / 2;
      return go(lo, h) + (go(lo + h, len - h) << (w * h));
    };
    return go(0, n);
  };
  mpz_class p = pack(a) * pack(b);
  // unpack, low to high: signed digits
  std::function<void(mpz_class, size_t, size_t)> un = [&](mpz_class v, size_t lo, size_t len) {
    if (len == 1) {
      r[lo] = v;
      return;
    }
    const size_t h = len / 2;
    mpz_class low, B = mpz_class(1) << (w * h);
    mpz_fdiv_r_2exp(low.get_mpz_t(), v.get_mpz_t(), w * h);
    // signed remainder in [-B/2, B/2)
    if (low >= (B >> 1))
      low -= B;
    mpz_class high = (v - low) >> (w * h);
    un(low, lo, h);
    un(high, lo + h, len - h);
  };
  un(p, 0, 2 * n);
  return r;
}
inline vec
mul(const vec& a, const vec& b)
{
  const auto f = mul_full(a, b);
  vec r(a.size());
  for (size_t i = 0; i < a.size(); i++)
    r[i] = f[i] - f[a.size() + i];
  return r;
}
}
