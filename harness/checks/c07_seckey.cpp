// C07: secret key encoding is lossless and header-checked
#include "sigtools.hpp"
#include "guard.hpp"
#include "shape.hpp"
using pbt::cat;
using namespace st;
using L = ref::P<N>;

struct fgF
{
  ivec f, g, F;
  bool operator==(const fgF&) const = default;
};
static ivec
gen_poly(pbt::Tape& t, const int64_t lim)
{
  const size_t m = t.pick({ 4, 2, 2, 1 });
  Rng r(t.u64());
  ivec v(N);
  for (auto& x : v)
    switch (m) {
      case 0:
        x = uni(r, -lim, lim);
        break;
      case 1: {
        const int64_t e[] = { 0, 1, -1, lim, -lim, lim / 2 + 1, -(lim / 2 + 1), lim - 1, 1 - lim };
        x = e[uni(r, 0, 8)];
        break;
      }
      case 2:
        x = uni(r, 0, 9) == 0 ? uni(r, -lim, lim) : 0;
        break;
      default:
        x = (r.next() & 1) ? lim : -lim;
    }
  return v;
}
static fgF
gen(pbt::Ctx& c)
{
  auto& t = c.t;
  fgF k;
  if (t.chance(1, 4)) {
    const auto& kk = lib::pick_key<N>(t);
    k = { kk.f, kk.g, kk.F };
  } else {
    k.f = gen_poly(t, L::fgmax);
    k.g = gen_poly(t, L::fgmax);
    k.F = gen_poly(t, 127);
    for (auto* p : { &k.f, &k.g, &k.F })
      shape::some(c, *p, 6);
    switch (t.below(40)) { // polynomials that coincide
      case 39:
        k.g = k.f;
        break;
      case 38:
        k.F = k.f;
        break;
      case 37:
        k.F = k.g;
        break;
      case 36:
        for (size_t i = 0; i < N; i++)
          k.g[i] = -k.f[i];
    }
  }
  return k;
}
static bytes
lib_encode(pbt::Ctx& c, const fgF& k, const uint8_t fill = 0)
{
  std::vector<int32_t> f(N), g(N), F(N);
  lib::to_i32(k.f, f.data());
  lib::to_i32(k.g, g.data());
  lib::to_i32(k.F, F.data());
  guard::buf sk(L::sklen, fill);
  encoding::encode_skey<N>(f.data(), g.data(), F.data(), sk.data());
  c.require(sk.intact(), "encode_skey wrote in front of the buffer");
  return sk.vec();
}
static std::optional<fgF>
lib_decode(pbt::Ctx& c, const bytes& sk, const int32_t fill = 0x7777)
{
  guard::buf in(sk);
  std::vector<int32_t> f(N + 4, fill), g(N + 4, fill), F(N + 4, fill);
  const bool ok = decoding::decode_skey<N>(in.data(), f.data(), g.data(), F.data());
  c.require(in.same(sk), "decode_skey changed its input");
  for (size_t i = N; i < N + 4; i++)
    c.require(f[i] == fill && g[i] == fill && F[i] == fill, "decode_skey wrote behind a polynomial");
  if (!ok)
    return {};
  return fgF{ lib::from_i32(f.data(), N), lib::from_i32(g.data(), N), lib::from_i32(F.data(), N) };
}
static void
round(pbt::Ctx& c, const fgF& k)
{
  const bytes want = ref::encode_sk<N>(k.f, k.g, k.F);
  for (const int fill : { 0, 0xff }) {
    const bytes sk = lib_encode(c, k, static_cast<uint8_t>(fill));
    c.require(sk == want, [&] {
      size_t i = 0;
      while (sk[i] == want[i])
        i++;
      return cat("encode_skey byte ", i, " is ", int(sk[i]), ", expected ", int(want[i]), "; f ", ref::show(k.f, 1024), " g ", ref::show(k.g, 1024), " F ",
                 ref::show(k.F, 1024));
    });
    const auto b = lib_decode(c, sk, fill);
    c.require(b.has_value(), "decode_skey refuses an encoded key");
    c.require(*b == k, [&] {
      for (size_t i = 0; i < N; i++)
        if (b->f[i] != k.f[i] || b->g[i] != k.g[i] || b->F[i] != k.F[i])
          return cat("coefficient ", i, " comes back as f ", b->f[i], " g ", b->g[i], " F ", b->F[i], ", was f ", k.f[i], " g ", k.g[i], " F ", k.F[i]);
      return std::string();
    });
  }
}

PROPN(round_trip, 20000, 10000, 1000000, 500000)
{
  const fgF k = gen(c);
  if (c.verbose)
    c.desc << "f=" << ref::show(k.f) << " g=" << ref::show(k.g) << " F=" << ref::show(k.F);
  c.nontrivial();
  round(c, k);
}

// every value at every position of each polynomial
PROPN(every_value, 33000, 33000, 280000, 280000)
{
  auto& t = c.t;
  constexpr uint64_t W = 2 * L::fgmax + 1;
  const uint64_t i = t.enumerate(W * N > 33000 ? W * N : 33000);
  fgF k = gen(c);
  const size_t at = (i / W) % N;
  const int64_t v = static_cast<int64_t>(i % W) - L::fgmax;
  k.f[at] = v;
  k.g[at] = -v;
  k.F[at] = t.range(-127, 127);
  if (c.verbose)
    c.desc << "value " << v << " at " << at;
  c.nontrivial();
  round(c, k);
}

// strings: whatever is accepted carries the right header, means what it says and
// re-encodes to the same bytes (the value -2^(k-1), which the format excludes,
// may be refused)
PROPN(strings, 12000, 6000, 600000, 300000)
{
  auto& t = c.t;
  const size_t m = t.pick({ 2, 3, 3, 2 });
  const fgF k = gen(c);
  bytes sk = ref::encode_sk<N>(k.f, k.g, k.F);
  Rng r(t.u64());
  if (m == 0) {
    const auto h = sk[0];
    sk = rnd_bytes(r, L::sklen);
    if (r.next() & 1)
      sk[0] = h;
  } else if (m == 1)
    for (uint64_t n = 1 + t.below(4); n > 0; n--) {
      const size_t b = 8 + t.below(8 * (L::sklen - 1));
      sk[b / 8] ^= static_cast<uint8_t>(1u << (b % 8));
    }
  else if (m == 2)
    sk[0] = t.byte();
  else
    sk[0] ^= static_cast<uint8_t>(1u << t.below(8));
  const auto want = ref::decode_sk<N>(sk.data());
  const auto got = lib_decode(c, sk);
  bool odd = false; // holds -2^(k-1)
  if (want)
    for (size_t i = 0; i < N; i++)
      odd |= want->f[i] < -L::fgmax || want->g[i] < -L::fgmax || want->F[i] < -127;
  if (c.verbose)
    c.desc << ref::hex(sk.data(), sk.size()) << (odd ? " (holds the excluded value)" : "");
  c.nontrivial();
  c.label_if(odd, "holds the excluded value");
  c.require(!(got && !want), [&] { return cat("decode_skey accepts header ", int(sk[0])); });
  c.require(!(want && !odd && !got), "decode_skey refuses a proper encoding");
  if (got) {
    c.require(got->f == want->f && got->g == want->g && got->F == want->F, "decode_skey yields other coefficients");
    c.require(lib_encode(c, *got) == sk, "re-encoding gives other bytes");
    c.label("accepted");
  } else
    c.label("refused");
}

PROPN(headers, 1024, 1024, 65536, 65536)
{
  const auto h = static_cast<uint8_t>(c.t.enumerate(256));
  const auto& k = lib::pick_key<N>(c.t);
  bytes sk = ref::encode_sk<N>(k.f, k.g, k.F);
  sk[0] = h;
  c.require(lib_decode(c, sk).has_value() == (h == L::skhdr), [&] { return cat("header ", int(h)); });
  if (c.verbose)
    c.desc << "header " << int(h);
  c.nontrivial();
  if (h != L::skhdr) {
    // signing with it reports failure (cheap: it stops at the header)
    bytes sig(L::siglen), msg(1);
    c.require(!falcon::sign<N>(sk.data(), msg.data(), 1, sig.data()), [&] { return cat("falcon::sign accepts a secret key with header ", int(h)); });
  }
}
