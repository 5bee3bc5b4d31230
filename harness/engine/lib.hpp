#pragma once
// The code under test, with conversions between its types and the model's.
#include "det.hpp"
#include "ref.hpp"
#include <memory>

#ifdef FALCON_UNDER_TEST_FULL
#include "falcon.hpp"
#if __has_include("ff.hpp")
#include "ff.hpp"
#endif
#if __has_include("u72.hpp")
#include "u72.hpp"
#endif
#if __has_include("karatsuba.hpp")
#include "karatsuba.hpp"
#endif
#ifdef PBT_STANDINS
#include PBT_STANDINS
#endif
#endif

#ifndef CORPUS_DIR
#define CORPUS_DIR "/verif/corpus"
#endif

namespace lib {
using ref::bytes;
using ref::ivec;

inline void
to_i32(const ivec& a, int32_t* p)
{
  for (size_t i = 0; i < a.size(); i++)
    p[i] = static_cast<int32_t>(a[i]);
}
inline ivec
from_i32(const int32_t* p, size_t n)
{
  return ivec(p, p + n);
}

// keys (f, g, F, G) generated once and kept in the corpus
struct key
{
  ivec f, g, F, G, h;
};
template<size_t N>
const std::vector<key>&
keys()
{
  static const std::vector<key> ks = [] {
    std::vector<key> r;
    const std::string fn =
      std::string(CORPUS_DIR) + "/keys" + std::to_string(N) + ".bin";
    std::ifstream f(fn, std::ios::binary);
    if (!f) {
      std::fprintf(stderr, "cannot read %s\n", fn.c_str());
      std::exit(3);
    }
    std::vector<int16_t> b(4 * N);
    while (f.read(reinterpret_cast<char*>(b.data()), static_cast<long>(8 * N))) {
      key k;
      k.f.assign(b.begin(), b.begin() + N);
      k.g.assign(b.begin() + N, b.begin() + 2 * N);
      k.F.assign(b.begin() + 2 * N, b.begin() + 3 * N);
      k.G.assign(b.begin() + 3 * N, b.end());
      k.h = ref::divq(ref::modv(k.g), ref::modv(k.f));
      r.push_back(k);
    }
    return r;
  }();
  return ks;
}
template<size_t N>
const key&
pick_key(pbt::Tape& t, size_t* idx = nullptr)
{
  const auto& k = keys<N>();
  const size_t i = t.below(k.size());
  if (idx)
    *idx = i;
  return k[i];
}

// message generator: mostly short, sometimes around sponge block borders,
// sometimes long; content random or constant
inline bytes
message(pbt::Tape& t, size_t max = 4096)
{
  size_t n = 0;
  switch (t.pick({ 3, 3, 3, 2, 1 })) {
    case 0:
      n = t.below(33);
      break;
    case 1:
      n = t.below(300);
      break;
    case 2: { // salt (40) + message around multiples of the rate (136)
      const size_t k = 1 + t.below(4);
      n = k * 136 - 40 + t.below(5) - 2;
      break;
    }
    case 3:
      n = t.below(2) ? 0 : 1;
      break;
    default:
      n = t.below(max + 1);
  }
  n = std::min(n, max);
  bytes m(n);
  if (t.chance(1, 8)) {
    const auto v = t.byte();
    std::fill(m.begin(), m.end(), v);
  } else {
    // content from one decision, so that long messages stay small on the tape
    const uint64_t s = t.u64();
    for (size_t i = 0; i < n; i++)
      m[i] = s ? det::byte_of(s, i) : 0;
  }
  return m;
}

// lengths around powers of two, up to 1 MiB
inline bytes
long_message(pbt::Tape& t)
{
  const size_t base = 1ul << (8 + t.below(13));
  const size_t n = t.below(3) == 0 ? base + t.below(base) : base + t.below(9) - 4;
  bytes m(n);
  const uint64_t s = 1 + t.below(1ull << 62);
  for (size_t i = 0; i < n; i += 8) {
    uint64_t x = s + i;
    const uint64_t v = pbt::Rng::splitmix(x);
    for (size_t k = i; k < std::min(n, i + 8); k++)
      m[k] = static_cast<uint8_t>(v >> (8 * (k - i)));
  }
  return m;
}

// Whether the generator has handed out exactly the first `used` bytes of its
// stream.  (It may read ahead: what counts is the byte that comes next.)
template<class F>
inline bool
handed_out(prng::prng_t& rng, const uint64_t used, F at)
{
  if (shake256::probe::st.total_read == used)
    return true;
  shake256::probe::st.budget = UINT64_MAX;
  uint8_t b[24];
  rng.read(b, sizeof(b));
  for (size_t i = 0; i < sizeof(b); i++)
    if (b[i] != at(used + i))
      return false;
  return true;
}

#ifdef FALCON_UNDER_TEST_FULL
template<size_t N>
std::vector<ff::ff_t>
to_ff(const ivec& a)
{
  std::vector<ff::ff_t> r(a.size());
  for (size_t i = 0; i < a.size(); i++)
    r[i].v = static_cast<uint16_t>(ref::mod(a[i]));
  return r;
}
inline ivec
from_ff(const ff::ff_t* p, size_t n)
{
  ivec r(n);
  for (size_t i = 0; i < n; i++)
    r[i] = p[i].v;
  return r;
}
template<size_t N>
struct expanded
{
  std::vector<fft::cmplx> B, T;
};
// precomputed signing data, by the library
template<size_t N>
expanded<N>
expand(const ivec& f, const ivec& g, const ivec& F, const ivec& G)
{
  expanded<N> e;
  e.B.resize(4 * N);
  e.T.resize((ref::P<N>::logn + 1) * N);
  std::vector<int32_t> a(N), b(N), c(N), d(N);
  to_i32(f, a.data());
  to_i32(g, b.data());
  to_i32(F, c.data());
  to_i32(G, d.data());
  falcon::compute_matrix_B<N>(a.data(), b.data(), c.data(), d.data(), e.B.data());
  falcon::compute_falcon_tree<N>(e.B.data(), e.T.data());
  return e;
}
template<size_t N>
expanded<N>
expand(const key& k)
{
  return expand<N>(k.f, k.g, k.F, k.G);
}
#endif

}
