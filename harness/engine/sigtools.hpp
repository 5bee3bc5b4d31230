#pragma once
// Building signatures and verification instances with chosen vectors.
#include "lib.hpp"

namespace st {
using ref::bytes;
using ref::ivec;
using pbt::Rng;

inline int64_t
uni(Rng& r, const int64_t lo, const int64_t hi)
{
  const auto span = static_cast<uint64_t>(hi - lo) + 1;
  return lo + static_cast<int64_t>((static_cast<unsigned __int128>(r.next()) * span) >> 64);
}
inline double
u01(Rng& r)
{
  return (static_cast<double>(r.next() >> 11) + 0.5) * 0x1p-53;
}
inline double
gauss(Rng& r)
{
  return std::sqrt(-2 * std::log(u01(r))) * std::cos(6.283185307179586 * u01(r));
}
inline ivec
gauss_vec(Rng& r, const size_t n, const double s)
{
  ivec v(n);
  for (auto& x : v)
    x = std::llround(s * gauss(r));
  return v;
}
inline int64_t
isqrt(const int64_t x)
{
  auto r = static_cast<int64_t>(std::sqrt(static_cast<double>(x)));
  while (r * r > x)
    r--;
  while ((r + 1) * (r + 1) <= x)
    r++;
  return r;
}
inline std::array<int64_t, 4>
four_squares(const int64_t r)
{
  for (int64_t a = isqrt(r); a >= 0; a--)
    for (int64_t b = isqrt(r - a * a); b >= 0; b--) {
      const int64_t rest = r - a * a - b * b;
      if (rest > 2 * b * b && b > 0 && rest > 2 * a * a)
        break;
      for (int64_t c = isqrt(rest); 2 * c * c >= rest && c >= 0; c--) {
        const int64_t d = isqrt(rest - c * c);
        if (d * d == rest - c * c)
          return { a, b, c, d };
        if (c == 0)
          break;
      }
    }
  return { 0, 0, 0, 0 }; // cannot happen (Lagrange)
}
// A vector of n integers in [-lim, lim] (lo end may be -lim) whose squared norm
// is exactly `target`; empty if it cannot be done.  shape: 0 Gaussian, 1 few
// large entries, 2 all of similar size
inline ivec
exact_norm(Rng& r, const size_t n, const int64_t target, const int64_t lim, const int shape)
{
  if (target < 0 || target > static_cast<int64_t>(n - 4) * lim * lim)
    return {};
  ivec v(n, 0);
  int64_t left = target;
  // positions in random order; the last four stay free
  std::vector<size_t> p(n);
  for (size_t i = 0; i < n; i++)
    p[i] = i;
  for (size_t i = n - 1; i > 0; i--)
    std::swap(p[i], p[static_cast<size_t>(uni(r, 0, static_cast<int64_t>(i)))]);
  const double rms = std::sqrt(static_cast<double>(target) / static_cast<double>(n));
  for (size_t k = 0; k + 4 < n && left > 20000; k++) {
    double m = rms;
    if (shape == 0)
      m = rms * std::fabs(gauss(r));
    else if (shape == 1)
      m = static_cast<double>(lim) * (0.4 + 0.6 * u01(r));
    else
      m = rms * (0.9 + 0.2 * u01(r));
    auto a = std::min<int64_t>({ lim, std::llround(m), isqrt(left) });
    v[p[k]] = a;
    left -= a * a;
  }
  // top up where there is room
  for (size_t k = 0; k + 4 < n && left > 20000; k++) {
    const int64_t a = std::min(lim, isqrt(v[p[k]] * v[p[k]] + left));
    left -= a * a - v[p[k]] * v[p[k]];
    v[p[k]] = a;
  }
  if (left > 20000)
    return {};
  const auto q = four_squares(left);
  for (size_t k = 0; k < 4; k++) {
    if (q[k] > lim)
      return {};
    v[p[n - 4 + k]] = q[k];
  }
  for (auto& x : v)
    if (r.next() & 1)
      x = -x;
  return v;
}
// changes single entries (by +-1) until the polynomial is invertible modulo q
inline void
make_invertible(Rng& r, ivec& v)
{
  while (!ref::invertible(v))
    v[static_cast<size_t>(uni(r, 0, static_cast<int64_t>(v.size()) - 1))] += (r.next() & 1) ? 1 : -1;
}
// a signature: header, salt, encoding of s2; empty if it does not fit
template<size_t N>
bytes
make_sig(const bytes& salt, const ivec& s2)
{
  auto b = ref::compress(s2, ref::P<N>::sigbits);
  if (!b)
    return {};
  bytes s(1, ref::P<N>::sighdr);
  s.insert(s.end(), salt.begin(), salt.end());
  s.insert(s.end(), b->begin(), b->end());
  return s;
}
inline bytes
rnd_bytes(Rng& r, const size_t n)
{
  bytes b(n);
  for (auto& x : b)
    x = static_cast<uint8_t>(r.next() >> 56);
  return b;
}
// makes s2 fit the signature length by shrinking its largest entries
template<size_t N>
void
fit(ivec& s2)
{
  while (ref::sig_bitlen(s2) > ref::P<N>::sigbits) {
    size_t m = 0;
    for (size_t i = 1; i < s2.size(); i++)
      if (std::llabs(s2[i]) > std::llabs(s2[m]))
        m = i;
    s2[m] /= 2;
  }
}
// h with s1 + s2 h = c
inline ivec
solve_h(const ivec& c, const ivec& s1, const ivec& s2)
{
  ivec d(c.size());
  for (size_t i = 0; i < c.size(); i++)
    d[i] = ref::mod(c[i] - s1[i]);
  return ref::divq(d, ref::modv(s2));
}

#ifdef FALCON_UNDER_TEST_FULL
constexpr int32_t
beta2(const size_t n)
{
  return n == 512 ? 34034726 : 70265242;
}
template<size_t N>
bool
lib_verify_pk(const bytes& pk, const bytes& msg, const bytes& sig)
{
  bytes s = sig; // exact-size heap copies
  return falcon::verify<N>(pk.data(), msg.data(), msg.size(), s.data());
}
template<size_t N>
bool
lib_verify_h(const ivec& h, const bytes& msg, const bytes& sig)
{
#ifndef PBT_PUBLIC_ONLY
  const auto hh = lib::to_ff<N>(h);
  return verification::verify<N, beta2(N)>(hh.data(), msg.data(), msg.size(), sig.data());
#else
  return lib_verify_pk<N>(ref::encode_pk<N>(h), msg, sig);
#endif
}
#endif
}
