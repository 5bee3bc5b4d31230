#pragma once
// The library's transforms and trees against the model's.
#include "sigtools.hpp"

namespace tt {
using ref::cld;
using ref::cvec;
using ref::ld;
using cd = std::complex<double>;
using dvec = std::vector<cd>;
using st::ivec;
using pbt::Rng;

// position i of the library's transform is the evaluation at root order[i] of
// the model (found by transforming x)
template<size_t LG>
const std::vector<size_t>&
order()
{
  static const std::vector<size_t> o = [] {
    constexpr size_t n = 1ul << LG;
    std::vector<size_t> r(n, 0);
    if constexpr (LG > 0) {
      dvec x(n, cd(0));
      x[1] = 1;
      fft::fft<LG>(x.data());
      for (size_t i = 0; i < n; i++) {
        const ld a = std::atan2(static_cast<ld>(x[i].imag()), static_cast<ld>(x[i].real())) * n / 3.14159265358979323846L;
        auto k = static_cast<int64_t>(std::llround((static_cast<double>(a) - 1) / 2)) % static_cast<int64_t>(n);
        r[i] = static_cast<size_t>(k < 0 ? k + static_cast<int64_t>(n) : k);
      }
    }
    return r;
  }();
  return o;
}
template<size_t LG>
cvec
own(const cd* p)
{
  const auto& o = order<LG>();
  cvec r(o.size());
  for (size_t i = 0; i < r.size(); i++)
    r[o[i]] = cld(p[i].real(), p[i].imag());
  return r;
}
template<size_t LG>
void
to_lib(const cvec& v, cd* p)
{
  const auto& o = order<LG>();
  for (size_t i = 0; i < v.size(); i++)
    p[i] = cd(static_cast<double>(v[o[i]].real()), static_cast<double>(v[o[i]].imag()));
}
// The library keeps a tree of height H for degree n as levels of n values:
// the node of level L at offset k holds n >> L values at L * n + k; its
// children follow at k and at k + (n >> (L + 1)).
template<size_t LG, size_t H>
ref::tree
own_tree(const cd* T, const size_t off = 0)
{
  constexpr size_t n = 1ul << LG, full = 1ul << H, level = H - LG;
  ref::tree t;
  if constexpr (LG == 0) {
    t.leaf = T[level * full + off].real();
  } else {
    t.l10 = own<LG>(T + level * full + off);
    t.kids.push_back(own_tree<LG - 1, H>(T, off));
    t.kids.push_back(own_tree<LG - 1, H>(T, off + n / 2));
  }
  return t;
}
template<size_t LG, size_t H>
void
lib_tree(const ref::tree& t, cd* T, const size_t off = 0)
{
  constexpr size_t n = 1ul << LG, full = 1ul << H, level = H - LG;
  if constexpr (LG == 0) {
    T[level * full + off] = static_cast<double>(t.leaf);
  } else {
    to_lib<LG>(t.l10, T + level * full + off);
    lib_tree<LG - 1, H>(t.kids[0], T, off);
    lib_tree<LG - 1, H>(t.kids[1], T, off + n / 2);
  }
}
// leaf D -> sigma / sqrt(D)
inline void
normalise(ref::tree& t, const ld sigma)
{
  if (t.kids.empty())
    t.leaf = sigma / std::sqrt(t.leaf);
  for (auto& k : t.kids)
    normalise(k, sigma);
}

// ------------------------------------------------------- keys from other keys
// a(x^k), k odd
inline ivec
automorphism(const ivec& a, const uint64_t k)
{
  const size_t n = a.size();
  ivec r(n);
  for (size_t i = 0; i < n; i++) {
    const uint64_t e = i * k % (2 * n);
    r[e % n] = e >= n ? -a[i] : a[i];
  }
  return r;
}
// a * x^e
inline ivec
shift(const ivec& a, const uint64_t e)
{
  const size_t n = a.size();
  ivec r(n);
  for (size_t i = 0; i < n; i++) {
    const uint64_t j = (i + e) % (2 * n);
    r[j % n] = j >= n ? -a[i] : a[i];
  }
  return r;
}
inline ivec
neg(ivec a)
{
  for (auto& x : a)
    x = -x;
  return a;
}
inline bool
in_range(const ivec& a, const int64_t m)
{
  for (auto x : a)
    if (x < -m || x > m)
      return false;
  return true;
}
// A valid key that differs from the corpus key by an automorphism, powers of x,
// exchange of the two halves and multiples of (f, g) added to (F, G) where the
// format's ranges allow it.
template<size_t N>
lib::key
variant(pbt::Tape& t, bool add_multiples = true)
{
  lib::key k = lib::pick_key<N>(t);
  if (t.below(4) == 0)
    return k;
  const uint64_t a = 2 * t.below(N) + 1, i = t.below(2 * N), j = t.below(2 * N);
  for (auto* p : { &k.f, &k.g, &k.F, &k.G })
    *p = automorphism(*p, a);
  k.f = shift(k.f, i);
  k.G = shift(k.G, 2 * N - i);
  k.g = shift(k.g, j);
  k.F = shift(k.F, 2 * N - j);
  if (t.below(2) && ref::invertible(k.g) && in_range(k.G, 127)) {
    std::swap(k.f, k.g);
    const ivec F = neg(k.G);
    k.G = neg(k.F);
    k.F = F;
  }
  if (add_multiples)
    for (size_t m = t.below(3); m > 0; m--) {
      const uint64_t e = t.below(2 * N);
      const ivec u = shift(k.f, e), v = shift(k.g, e);
      ivec F = k.F, G = k.G;
      for (size_t x = 0; x < N; x++)
        F[x] += u[x], G[x] += v[x];
      if (in_range(F, 127))
        k.F = F, k.G = G;
    }
  k.h = ref::divq(ref::modv(k.g), ref::modv(k.f));
  return k;
}
// The same f and g with long F and G: multiples are added which make one
// coefficient of G large while F stays within its limits.
template<size_t N>
inline void
unreduce(pbt::Tape& t, lib::key& k)
{
  const uint64_t at = t.below(N), first = t.below(N);
  const int64_t goal = 128 + static_cast<int64_t>(t.below(200)), want = t.below(2) ? 1 : -1;
  for (uint64_t x = 0; x < N && want * k.G[at] < goal; x++) {
    const uint64_t j = (first + x) % N;
    // coefficient at of x^j g
    const int64_t v = at >= j ? k.g[at - j] : -k.g[at + N - j];
    if (std::abs(v) < 3)
      continue;
    const uint64_t e = want * v > 0 ? j : j + N;
    const ivec u = shift(k.f, e), w = shift(k.g, e);
    ivec F = k.F, G = k.G;
    for (size_t i = 0; i < N; i++)
      F[i] += u[i], G[i] += w[i];
    if (in_range(F, 127))
      k.F = F, k.G = G;
  }
}
inline std::string
show(const lib::key& k)
{
  return pbt::cat("f=", ref::show(k.f, 8), " g=", ref::show(k.g, 8), " F=", ref::show(k.F, 8), " G=", ref::show(k.G, 8));
}
}
