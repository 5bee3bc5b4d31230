#pragma once
// Random bytes that lead the signer to a chosen lattice point.
#include "treetools.hpp"

namespace script {
using namespace tt;
using ref::bytes;

// bytes that make one SamplerZ call with this centre return (about) `wish`;
// returns the value that is returned
inline int64_t
leaf(const ld mu, const ld sp, const ld smin, const int64_t wish, bytes& out, bool& doubt)
{
  const ld fl = std::floor(mu), r = mu - fl;
  const auto base = static_cast<int64_t>(fl);
  if (r < 1e-7L || r > 1 - 1e-7L)
    doubt = true;
  int64_t zz = std::clamp<int64_t>(wish - base, -18, 19);
  for (int tries = 0; tries < 40; tries++) {
    const bool b = zz >= 1;
    const int64_t z0 = b ? zz - 1 : -zz;
    const ld d = static_cast<ld>(zz) - r;
    const ld x = std::max<ld>(0, d * d / (2 * sp * sp) - static_cast<ld>(z0 * z0) / (2 * static_cast<ld>(ref::SIGMA_MAX) * ref::SIGMA_MAX));
    const auto t = ref::ber_threshold(x, smin / sp);
    // zeros are accepted at the first non-zero byte of the threshold
    int k = -1;
    for (int i = 0; i < 8 && k < 0; i++) {
      const auto lo = (t.lo >> (56 - 8 * i)) & 255, hi = (t.hi >> (56 - 8 * i)) & 255;
      if (lo && hi)
        k = i;
      else if (lo || hi)
        doubt = true;
    }
    if (k < 0) { // (nearly) impossible: something closer
      zz += zz > 0 ? -1 : 1;
      continue;
    }
    const ref::u128 u = z0 < 18 ? ref::rcdt()[static_cast<size_t>(z0)] : 0;
    for (int i = 0; i < 9; i++)
      out.push_back(static_cast<uint8_t>(u >> (8 * i)));
    out.push_back(b);
    out.insert(out.end(), static_cast<size_t>(k) + 1, 0);
    return zz + base;
  }
  doubt = true;
  return base;
}

struct candidate
{
  bytes stream; // for one run of fast Fourier sampling
  ivec s1, s2;  // what it leads to
  int64_t norm = 0;
  bool doubt = false;
};
// T: the key's tree (model's order); the candidate closest to (a1, a2) among
// those with s1 + s2 h = c
template<size_t N>
candidate
aim(const lib::key& k, const ref::tree& T, const ivec& c, const std::vector<ld>& a1, const std::vector<ld>& a2)
{
  candidate r;
  const cvec C = ref::fft_i(c), f = ref::fft_i(k.f), g = ref::fft_i(k.g), F = ref::fft_i(k.F), G = ref::fft_i(k.G);
  cvec A1(N), A2(N);
  for (size_t i = 0; i < N; i++)
    A1[i] = a1[i], A2[i] = a2[i];
  A1 = ref::fft(A1), A2 = ref::fft(A2);
  // t = (c, 0) B^-1 with B = [[g, -f], [G, -F]]; B^-1 = 1/q [[-F, f], [-G, g]]
  cvec t0(N), t1(N), w0(N), w1(N);
  const ld q = ref::Q;
  for (size_t i = 0; i < N; i++) {
    t0[i] = -C[i] * F[i] / q;
    t1[i] = C[i] * f[i] / q;
    // wished for: (c - a1, -a2) B^-1
    w0[i] = (-(C[i] - A1[i]) * F[i] + A2[i] * G[i]) / q;
    w1[i] = ((C[i] - A1[i]) * f[i] - A2[i] * g[i]) / q;
  }
  std::vector<int64_t> wish;
  cvec z0, z1;
  ref::ffsampling(w0, w1, T, [&](ld mu, const ref::tree&) -> ld {
    wish.push_back(std::llround(mu));
    return static_cast<ld>(wish.back());
  }, z0, z1);
  size_t at = 0;
  ref::ffsampling(t0, t1, T, [&](ld mu, const ref::tree& l) -> ld {
    return static_cast<ld>(leaf(mu, l.leaf, ref::P<N>::sigma_min, wish[at++], r.stream, r.doubt));
  }, z0, z1);
  z0 = ref::ifft(z0), z1 = ref::ifft(z1);
  ivec x(N), y(N);
  for (size_t i = 0; i < N; i++)
    x[i] = std::llround(z0[i].real()), y[i] = std::llround(z1[i].real());
  const ivec xg = ref::mul(x, k.g), yG = ref::mul(y, k.G), xf = ref::mul(x, k.f), yF = ref::mul(y, k.F);
  r.s1.resize(N), r.s2.resize(N);
  for (size_t i = 0; i < N; i++)
    r.s1[i] = c[i] - xg[i] - yG[i], r.s2[i] = xf[i] + yF[i];
  r.norm = ref::norm2(r.s1) + ref::norm2(r.s2);
  return r;
}
// the PRNG delivers `head`, then pseudo-random bytes
inline void
install(const bytes& head, const uint64_t key)
{
  auto pos = std::make_shared<uint64_t>(0);
  shake256::probe::st.source = [head, key, pos](uint64_t, uint8_t* p, size_t n) {
    for (size_t i = 0; i < n; i++, ++*pos)
      p[i] = *pos < head.size() ? head[*pos] : det::byte_of(key, *pos);
    return true;
  };
}
}
