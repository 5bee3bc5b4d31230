#pragma once
// Reference model of the Falcon specification, written from the specification
// and independent of /repo (it shares only the SHAKE256 sponge of the shim,
// which stands in for the missing submodule).  Slow and simple on purpose.
#include "shake256.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <functional>
#include <optional>
#include <string>
#include <vector>

namespace ref {

constexpr int64_t Q = 12289;
using ivec = std::vector<int64_t>;
using bytes = std::vector<uint8_t>;
using ld = long double;
using cld = std::complex<long double>;
using cvec = std::vector<cld>;
using u128 = unsigned __int128;

template<size_t N>
struct P
{
  static_assert(N == 512 || N == 1024);
  static constexpr size_t logn = N == 512 ? 9 : 10;
  static constexpr size_t pklen = N == 512 ? 897 : 1793;
  static constexpr size_t sklen = N == 512 ? 1281 : 2305;
  static constexpr size_t siglen = N == 512 ? 666 : 1280;
  static constexpr size_t sigbits = (siglen - 41) * 8;
  static constexpr int64_t beta2 = N == 512 ? 34034726 : 70265242;
  static constexpr double sigma = N == 512 ? 165.736617183 : 168.388571447;
  static constexpr double sigma_min = N == 512 ? 1.277833697 : 1.298280334;
  static constexpr int fgbits = N == 512 ? 6 : 5;
  static constexpr int fgmax = N == 512 ? 31 : 15;
  static constexpr uint8_t pkhdr = logn;
  static constexpr uint8_t skhdr = 0x50 | logn;
  static constexpr uint8_t sighdr = 0x30 | logn;
};
constexpr double SIGMA_MAX = 1.8205;

// ---------------------------------------------------------------- Z_q, rings
inline int64_t
mod(const int64_t a, const int64_t m = Q)
{
  const int64_t r = a % m;
  return r < 0 ? r + m : r;
}
// representative in (-q/2, q/2]
inline int64_t
centre(const int64_t a)
{
  const int64_t r = mod(a);
  return r > Q / 2 ? r - Q : r;
}
inline int64_t
powq(int64_t b, uint64_t e)
{
  int64_t r = 1;
  b = mod(b);
  for (; e; e >>= 1) {
    if (e & 1)
      r = r * b % Q;
    b = b * b % Q;
  }
  return r;
}
inline int64_t
invq(const int64_t a)
{
  return powq(a, Q - 2);
}

// a * b modulo x^n + 1, over the integers (operands must be small enough)
inline ivec
mul(const ivec& a, const ivec& b)
{
  const size_t n = a.size();
  ivec t(2 * n, 0);
  for (size_t i = 0; i < n; i++)
    if (a[i])
      for (size_t j = 0; j < n; j++)
        t[i + j] += a[i] * b[j];
  ivec r(n);
  for (size_t i = 0; i < n; i++)
    r[i] = t[i] - t[n + i];
  return r;
}
inline ivec
modv(const ivec& a)
{
  ivec r(a.size());
  for (size_t i = 0; i < a.size(); i++)
    r[i] = mod(a[i]);
  return r;
}
// schoolbook product modulo x^n + 1 and q
inline ivec
mulq(const ivec& a, const ivec& b)
{
  return modv(mul(modv(a), modv(b))); // 1024 * 12288^2 < 2^38
}

// evaluations over Z_q at psi^(2j+1), psi a primitive 2n-th root of unity
inline int64_t
psi_of(const size_t n)
{
  static std::array<int64_t, 16> cache{};
  size_t lg = 0;
  while ((1ull << lg) < n)
    lg++;
  if (!cache[lg])
    for (int64_t g = 2; g < Q; g++) {
      const int64_t w = powq(g, (Q - 1) / (2 * n));
      if (powq(w, n) == Q - 1) {
        cache[lg] = w;
        break;
      }
    }
  return cache[lg];
}
inline ivec
evalq(const ivec& a, const int64_t psi)
{
  const size_t n = a.size();
  if (n == 1)
    return { mod(a[0]) };
  ivec e(n / 2), o(n / 2);
  for (size_t i = 0; i < n / 2; i++)
    e[i] = a[2 * i], o[i] = a[2 * i + 1];
  const ivec E = evalq(e, psi * psi % Q), O = evalq(o, psi * psi % Q);
  ivec r(n);
  int64_t w = psi;
  const int64_t w2 = psi * psi % Q;
  for (size_t j = 0; j < n / 2; j++) {
    const int64_t t = w * O[j] % Q;
    r[j] = mod(E[j] + t);
    r[j + n / 2] = mod(E[j] - t);
    w = w * w2 % Q;
  }
  return r;
}
inline ivec
evalq(const ivec& a)
{
  return evalq(a, psi_of(a.size()));
}
inline ivec
interpq(const ivec& v, const int64_t psi)
{
  const size_t n = v.size();
  if (n == 1)
    return v;
  const int64_t inv2 = invq(2), ip = invq(psi), ip2 = ip * ip % Q;
  ivec E(n / 2), O(n / 2);
  int64_t w = ip;
  for (size_t j = 0; j < n / 2; j++) {
    E[j] = mod((v[j] + v[j + n / 2]) * inv2);
    O[j] = mod(mod((v[j] - v[j + n / 2]) * inv2) * w);
    w = w * ip2 % Q;
  }
  const ivec e = interpq(E, psi * psi % Q), o = interpq(O, psi * psi % Q);
  ivec r(n);
  for (size_t i = 0; i < n / 2; i++)
    r[2 * i] = e[i], r[2 * i + 1] = o[i];
  return r;
}
inline ivec
interpq(const ivec& v)
{
  return interpq(v, psi_of(v.size()));
}
inline bool
invertible(const ivec& a)
{
  for (auto v : evalq(a))
    if (v == 0)
      return false;
  return true;
}
// a / b for invertible b
inline ivec
divq(const ivec& a, const ivec& b)
{
  ivec x = evalq(a);
  const ivec y = evalq(b);
  for (size_t i = 0; i < x.size(); i++)
    x[i] = x[i] * invq(y[i]) % Q;
  return interpq(x);
}
// fast product (used where schoolbook would dominate the run; the two are
// compared with each other by C14)
inline ivec
mulq_fast(const ivec& a, const ivec& b)
{
  ivec x = evalq(modv(a));
  const ivec y = evalq(modv(b));
  for (size_t i = 0; i < x.size(); i++)
    x[i] = x[i] * y[i] % Q;
  return interpq(x);
}

inline int64_t
norm2(const ivec& a)
{
  int64_t r = 0;
  for (auto v : a)
    r += v * v;
  return r;
}

// -------------------------------------------------------------------- codecs
struct bit_writer
{
  bytes b{};
  size_t n = 0;
  void put(const unsigned bit)
  {
    if (n % 8 == 0)
      b.push_back(0);
    if (bit)
      b.back() |= static_cast<uint8_t>(0x80 >> (n % 8));
    n++;
  }
};
inline unsigned
bit_at(const uint8_t* p, size_t i)
{
  return (p[i >> 3] >> (7 - (i & 7))) & 1;
}

// Golomb-Rice encoding of s, as a bit string (specification, Compress)
inline bit_writer
sig_bits(const ivec& s)
{
  bit_writer w;
  for (auto v : s) {
    const auto a = static_cast<uint64_t>(v < 0 ? -v : v);
    w.put(v < 0);
    for (int j = 6; j >= 0; j--)
      w.put((a >> j) & 1);
    for (uint64_t k = 0; k < (a >> 7); k++)
      w.put(0);
    w.put(1);
  }
  return w;
}
inline size_t
sig_bitlen(const ivec& s)
{
  size_t n = 0;
  for (auto v : s)
    n += 9 + static_cast<size_t>((v < 0 ? -v : v) >> 7);
  return n;
}
// Compress: the padded body, or nothing if it does not fit
inline std::optional<bytes>
compress(const ivec& s, const size_t nbits)
{
  auto w = sig_bits(s);
  if (w.n > nbits)
    return {};
  w.b.resize(nbits / 8, 0);
  return w.b;
}
// Decompress (specification): the polynomial, or nothing
inline std::optional<ivec>
decompress(const uint8_t* body, const size_t nbits, const size_t n)
{
  size_t i = 0;
  ivec s(n);
  for (size_t c = 0; c < n; c++) {
    if (i + 8 > nbits)
      return {};
    const unsigned sg = bit_at(body, i++);
    int64_t v = 0;
    for (int j = 0; j < 7; j++)
      v = 2 * v + bit_at(body, i++);
    int64_t k = 0;
    while (true) {
      if (i >= nbits)
        return {};
      if (bit_at(body, i++))
        break;
      k++;
    }
    v += k << 7;
    if (sg && v == 0)
      return {};
    s[c] = sg ? -v : v;
  }
  for (; i < nbits; i++)
    if (bit_at(body, i))
      return {};
  return s;
}

// public key: the library packs 14-bit values, least significant bit first, as
// its comments and the length 1 + 14N/8 say (the NIST encoding is MSB first;
// the library's own layout is what its users store)
template<size_t N>
bytes
encode_pk(const ivec& h)
{
  bytes r(P<N>::pklen, 0);
  r[0] = P<N>::pkhdr;
  for (size_t i = 0; i < N; i++)
    for (size_t j = 0; j < 14; j++)
      if ((h[i] >> j) & 1)
        r[1 + (14 * i + j) / 8] |= static_cast<uint8_t>(1u << ((14 * i + j) % 8));
  return r;
}
template<size_t N>
std::optional<ivec>
decode_pk(const uint8_t* p)
{
  if (p[0] != P<N>::pkhdr)
    return {};
  ivec h(N, 0);
  for (size_t i = 0; i < N; i++) {
    for (size_t j = 0; j < 14; j++)
      h[i] |= static_cast<int64_t>((p[1 + (14 * i + j) / 8] >> ((14 * i + j) % 8)) & 1) << j;
    if (h[i] >= Q)
      return {};
  }
  return h;
}

template<size_t N>
bytes
encode_sk(const ivec& f, const ivec& g, const ivec& F)
{
  bytes r(P<N>::sklen, 0);
  r[0] = P<N>::skhdr;
  size_t at = 8;
  auto put = [&](const ivec& a, const int w) {
    for (auto v : a)
      for (int j = 0; j < w; j++, at++)
        if ((v >> j) & 1)
          r[at / 8] |= static_cast<uint8_t>(1u << (at % 8));
  };
  put(f, P<N>::fgbits);
  put(g, P<N>::fgbits);
  put(F, 8);
  return r;
}
template<size_t N>
struct sk_t
{
  ivec f, g, F;
};
template<size_t N>
std::optional<sk_t<N>>
decode_sk(const uint8_t* p)
{
  if (p[0] != P<N>::skhdr)
    return {};
  size_t at = 8;
  auto get = [&](const int w) {
    ivec a(N, 0);
    for (auto& v : a) {
      for (int j = 0; j < w; j++, at++)
        v |= static_cast<int64_t>((p[at / 8] >> (at % 8)) & 1) << j;
      if (v >> (w - 1))
        v -= 1ll << w;
    }
    return a;
  };
  sk_t<N> s;
  s.f = get(P<N>::fgbits);
  s.g = get(P<N>::fgbits);
  s.F = get(8);
  return s;
}

// ------------------------------------------------------------------- hashing
struct h2p_info
{
  size_t rejected = 0, words = 0;
};
inline ivec
hash_to_point(const uint8_t* salt,
              const size_t slen,
              const uint8_t* msg,
              const size_t mlen,
              const size_t n,
              h2p_info* info = nullptr)
{
  shake256::sponge_t s;
  s.absorb(salt, slen);
  s.absorb(msg, mlen);
  s.pad();
  ivec c;
  while (c.size() < n) {
    uint8_t b[2];
    s.squeeze(b, 2);
    const int64_t t = 256 * b[0] + b[1];
    if (info)
      info->words++;
    if (t < 5 * Q)
      c.push_back(t % Q);
    else if (info)
      info->rejected++;
  }
  return c;
}

// ---------------------------------------------------------------- verify
struct verdict
{
  bool decoded = false;
  int64_t norm = -1;
  bool accept = false;
  ivec s1{}, s2{};
};
template<size_t N>
verdict
verify_h(const ivec& h, const uint8_t* msg, size_t mlen, const uint8_t* sig)
{
  verdict v;
  if (sig[0] != P<N>::sighdr)
    return v;
  auto s2 = decompress(sig + 41, P<N>::sigbits, N);
  if (!s2)
    return v;
  v.decoded = true;
  const ivec c = hash_to_point(sig + 1, 40, msg, mlen, N);
  const ivec p = mulq_fast(*s2, h);
  v.s1.resize(N);
  for (size_t i = 0; i < N; i++)
    v.s1[i] = centre(c[i] - p[i]);
  v.s2 = *s2;
  v.norm = norm2(v.s1) + norm2(v.s2);
  v.accept = v.norm <= P<N>::beta2;
  return v;
}
template<size_t N>
verdict
verify(const uint8_t* pk, const uint8_t* msg, size_t mlen, const uint8_t* sig)
{
  auto h = decode_pk<N>(pk);
  if (!h)
    return {};
  return verify_h<N>(*h, msg, mlen, sig);
}

// ----------------------------------------------------- complex transforms
// own order: value j of a size-n transform is the evaluation at
// w_j = exp(i*pi*(2j+1)/n); w_{j+n/2} = -w_j and w_j^2 is root j of size n/2
inline cld
root(const size_t n, const size_t j)
{
  const ld a = 3.141592653589793238462643383279502884L * static_cast<ld>(2 * j + 1) / static_cast<ld>(n);
  return { std::cos(a), std::sin(a) };
}
inline const cvec&
roots(const size_t n)
{
  static std::array<cvec, 16> cache{};
  size_t lg = 0;
  while ((1ull << lg) < n)
    lg++;
  auto& c = cache[lg];
  if (c.empty())
    for (size_t j = 0; j < n; j++)
      c.push_back(root(n, j));
  return c;
}
inline void
split(const cvec& f, cvec& f0, cvec& f1)
{
  const size_t n = f.size();
  f0.resize(n / 2);
  f1.resize(n / 2);
  const auto& w = roots(n);
  for (size_t j = 0; j < n / 2; j++) {
    f0[j] = (f[j] + f[j + n / 2]) * 0.5L;
    f1[j] = (f[j] - f[j + n / 2]) * 0.5L * std::conj(w[j]);
  }
}
inline cvec
merge(const cvec& f0, const cvec& f1)
{
  const size_t h = f0.size(), n = 2 * h;
  cvec f(n);
  const auto& w = roots(n);
  for (size_t j = 0; j < h; j++) {
    const cld t = w[j] * f1[j];
    f[j] = f0[j] + t;
    f[j + h] = f0[j] - t;
  }
  return f;
}
inline cvec
fft(const cvec& a)
{
  const size_t n = a.size();
  if (n == 1)
    return a;
  cvec e(n / 2), o(n / 2);
  for (size_t i = 0; i < n / 2; i++)
    e[i] = a[2 * i], o[i] = a[2 * i + 1];
  return merge(fft(e), fft(o));
}
inline cvec
ifft(const cvec& v)
{
  const size_t n = v.size();
  if (n == 1)
    return v;
  cvec f0, f1;
  split(v, f0, f1);
  const cvec e = ifft(f0), o = ifft(f1);
  cvec a(n);
  for (size_t i = 0; i < n / 2; i++)
    a[2 * i] = e[i], a[2 * i + 1] = o[i];
  return a;
}
inline cvec
fft_i(const ivec& a)
{
  cvec c(a.size());
  for (size_t i = 0; i < a.size(); i++)
    c[i] = static_cast<ld>(a[i]);
  return fft(c);
}

// LDL* tree of a self-adjoint 2x2 Gram matrix (g00, g10, g11), own order
struct tree
{
  cvec l10{};
  std::vector<tree> kids{}; // 2 below inner nodes
  ld leaf = 0;              // at size 1: D (not normalised)
};
inline tree
ffldl(const cvec& g00, const cvec& g10, const cvec& g11)
{
  const size_t n = g00.size();
  tree t;
  t.l10.resize(n);
  cvec d11(n);
  for (size_t i = 0; i < n; i++) {
    t.l10[i] = g10[i] / g00[i];
    d11[i] = g11[i] - t.l10[i] * std::conj(t.l10[i]) * g00[i];
  }
  t.kids.resize(2);
  auto down = [](const cvec& d) {
    tree k;
    if (d.size() == 2) {
      k.leaf = (d[0].real() + d[1].real()) / 2;
      return k;
    }
    cvec d0, d1;
    split(d, d0, d1);
    cvec d1c(d1.size());
    for (size_t i = 0; i < d1.size(); i++)
      d1c[i] = std::conj(d1[i]);
    // G = [[d0, d1], [d1*, d0]]
    return ffldl(d0, d1c, d0);
  };
  t.kids[0] = down(g00);
  t.kids[1] = down(d11);
  return t;
}

// ------------------------------------------------------------------ samplerz
inline const std::array<u128, 18>&
rcdt()
{
  static const std::array<u128, 18> t = [] {
    // Table 3.1 of the specification
    static const char* s[18] = { "3024686241123004913666",
                                 "1564742784480091954050",
                                 "636254429462080897535",
                                 "199560484645026482916",
                                 "47667343854657281903",
                                 "8595902006365044063",
                                 "1163297957344668388",
                                 "117656387352093658",
                                 "8867391802663976",
                                 "496969357462633",
                                 "20680885154299",
                                 "638331848991",
                                 "14602316184",
                                 "247426747",
                                 "3104126",
                                 "28824",
                                 "198",
                                 "1" };
    std::array<u128, 18> r{};
    for (size_t i = 0; i < 18; i++)
      for (const char* p = s[i]; *p; p++)
        r[i] = r[i] * 10 + static_cast<unsigned>(*p - '0');
    return r;
  }();
  return t;
}
inline int
base_sampler(const u128 u)
{
  int z = 0;
  for (auto v : rcdt())
    z += u < v;
  return z;
}

// range of the 64-bit acceptance threshold that double-precision evaluations
// of the specification's formulas can produce
struct zrange
{
  uint64_t lo, hi;
  uint64_t s;
};
inline zrange
ber_threshold(const ld x, const ld ccs)
{
  static const ld LN2 = 0.693147180559945309417232121458176568L;
  const ld dx = (x < 1 ? 1 : x) * 0x1p-50L;
  zrange r{ UINT64_MAX, 0, 0 };
  for (const ld xx : { std::max<ld>(0, x - dx), x, x + dx }) {
    ld s = std::floor(xx / LN2);
    ld rr = xx - s * LN2;
    if (rr < 0)
      rr = 0;
    const auto sh = static_cast<uint64_t>(std::min<ld>(s, 63));
    for (const ld e : { -1.0L, 1.0L }) {
      ld y = 0x1p63L * ccs * std::exp(-rr) * (1 + e * 0x1p-43L) + e * 2;
      y = std::clamp<ld>(y, 0.5L, 0x1p63L);
      ld z2 = 2 * y - 1;
      const uint64_t z =
        (z2 >= 0x1p64L ? UINT64_MAX : static_cast<uint64_t>(z2)) >> sh;
      r.lo = std::min(r.lo, z);
      r.hi = std::max(r.hi, z);
    }
    r.s = sh;
  }
  return r;
}
struct ber_result
{
  bool bit;
  size_t used;
  bool ambiguous;
};
// next(i): i-th random byte of this call
inline ber_result
ber_exp(const ld x, const ld ccs, const std::function<uint8_t(size_t)>& next)
{
  const zrange z = ber_threshold(x, ccs);
  auto eval = [&](const uint64_t t) {
    for (int i = 0; i < 8; i++) {
      const auto zb = static_cast<int>((t >> (56 - 8 * i)) & 255);
      const int w = static_cast<int>(next(static_cast<size_t>(i))) - zb;
      if (w != 0 || i == 7)
        return std::pair<bool, size_t>{ w < 0, i + 1 };
    }
    return std::pair<bool, size_t>{ false, 8 };
  };
  const auto a = eval(z.lo), b = eval(z.hi);
  return { a.first, a.second, a != b };
}
struct sz_result
{
  int64_t z = 0;
  size_t used = 0;
  size_t iters = 0;
  size_t deep = 0;       // longest comparison, in bytes
  bool ambiguous = false;
  bool exhausted = false;
};
// stream: random bytes by position; le: base sampler reads its 72 bits in
// little-endian order (signing) or big-endian (known-answer form)
inline sz_result
samplerz(const ld mu,
         const ld sp,
         const ld smin,
         const std::function<uint8_t(size_t)>& at,
         const bool le,
         const size_t limit,
         const double mu_err = 0)
{
  sz_result r;
  const ld fl = std::floor(mu);
  const ld rr = mu - fl;
  if (mu_err > 0 && (rr < mu_err || rr > 1 - mu_err))
    r.ambiguous = true;
  const ld ccs = smin / sp;
  while (r.used + 18 <= limit) {
    u128 u = 0;
    for (size_t i = 0; i < 9; i++)
      u |= static_cast<u128>(at(r.used + i)) << (8 * (le ? i : 8 - i));
    r.used += 9;
    const int z0 = base_sampler(u);
    const int b = at(r.used++) & 1;
    const int z = b + (2 * b - 1) * z0;
    const ld d = static_cast<ld>(z) - rr;
    ld x = d * d / (2 * sp * sp) -
           static_cast<ld>(z0 * z0) / (2 * static_cast<ld>(SIGMA_MAX) * SIGMA_MAX);
    if (x < 0)
      x = 0;
    if (mu_err > 0) {
      // uncertainty of the centre: decide at both ends
      const auto n = [&](size_t i) { return at(r.used + i); };
      ber_result e[2];
      int k = 0;
      for (const ld s : { -1.0L, 1.0L }) {
        const ld d2 = d + s * mu_err;
        const ld x2 =
          std::max<ld>(0, d2 * d2 / (2 * sp * sp) -
                            static_cast<ld>(z0 * z0) /
                              (2 * static_cast<ld>(SIGMA_MAX) * SIGMA_MAX));
        e[k++] = ber_exp(x2, ccs, n);
      }
      if (e[0].bit != e[1].bit || e[0].used != e[1].used)
        r.ambiguous = true;
    }
    const auto w = ber_exp(x, ccs, [&](size_t i) { return at(r.used + i); });
    r.ambiguous |= w.ambiguous;
    r.used += w.used;
    r.deep = std::max(r.deep, w.used);
    r.iters++;
    if (r.ambiguous)
      return r;
    if (w.bit) {
      r.z = z + static_cast<int64_t>(fl);
      return r;
    }
  }
  r.exhausted = true;
  return r;
}

// Fast Fourier sampling in coefficient-free recursion (own order); leaf calls
// sample(mu, leaf index D) and must return the integer
inline void
ffsampling(const cvec& t0,
           const cvec& t1,
           const tree& T,
           const std::function<ld(ld, const tree&)>& sample,
           cvec& z0,
           cvec& z1)
{
  const size_t n = t0.size();
  if (n == 1) {
    z0 = { cld(sample(t0[0].real(), T)) };
    z1 = { cld(sample(t1[0].real(), T)) };
    return;
  }
  cvec a, b, za, zb;
  split(t1, a, b);
  ffsampling(a, b, T.kids[1], sample, za, zb);
  z1 = merge(za, zb);
  cvec t0p(n);
  for (size_t i = 0; i < n; i++)
    t0p[i] = t0[i] + (t1[i] - z1[i]) * T.l10[i];
  split(t0p, a, b);
  ffsampling(a, b, T.kids[0], sample, za, zb);
  z0 = merge(za, zb);
}

// ----------------------------------------------------------------- hex dumps
inline std::string
hex(const uint8_t* p, size_t n, size_t max = 48)
{
  static const char* d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < std::min(n, max); i++) {
    s += d[p[i] >> 4];
    s += d[p[i] & 15];
  }
  if (n > max)
    s += "..(" + std::to_string(n) + " bytes)";
  return s;
}
template<class V>
std::string
show(const V& v, size_t max = 24)
{
  std::string s = "[";
  for (size_t i = 0; i < std::min<size_t>(v.size(), max); i++)
    s += (i ? "," : "") + std::to_string(static_cast<long long>(v[i]));
  return s + (v.size() > max ? ",...]" : "]");
}

}
