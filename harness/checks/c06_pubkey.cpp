// C06: public key encoding is a bijection, decoding is strict
#include "sigtools.hpp"
#include "guard.hpp"
#include "shape.hpp"
using pbt::cat;
using namespace st;
using L = ref::P<N>;

static ivec
gen_h(pbt::Tape& t)
{
  const size_t m = t.pick({ 4, 2, 2, 1, 1, 1 });
  Rng r(t.u64());
  // a narrow range, or one value everywhere
  const int64_t width = m == 5 ? 0 : uni(r, 0, 40), base = uni(r, 0, 2) == 0 ? 0 : uni(r, 0, 2) ? uni(r, 0, 12288 - width) : 12288 - width;
  ivec h(N);
  static const int64_t edge[] = { 0, 1, 12288, 12287, 0xff, 0x100, 0xfff, 0x1000, 0x1fff, 0x2000, 0x2fff, 0x3000, 63, 64, 8191 };
  for (size_t i = 0; i < N; i++)
    switch (m) {
      case 0:
        h[i] = uni(r, 0, 12288);
        break;
      case 1:
        h[i] = edge[uni(r, 0, std::size(edge) - 1)];
        break;
      case 2:
        h[i] = uni(r, 0, 9) == 0 ? uni(r, 0, 12288) : 0;
        break;
      case 4:
      case 5:
        h[i] = base + uni(r, 0, width);
        break;
      default:
        h[i] = 12288 - (uni(r, 0, 9) == 0 ? uni(r, 0, 12288) : 0);
    }
  return h;
}
// library decoder on a copy that ends at an inaccessible page
static std::optional<ivec>
lib_decode(pbt::Ctx& c, const bytes& pk, uint16_t fill = 0x5555)
{
  guard::buf in(pk);
  std::vector<ff::ff_t> h(N + 8);
  for (auto& x : h)
    x.v = fill;
  const bool ok = decoding::decode_pkey<N>(in.data(), h.data());
  c.require(in.same(pk), "decode_pkey changed its input");
  for (size_t i = N; i < N + 8; i++)
    c.require(h[i].v == fill, "decode_pkey wrote behind the polynomial");
  if (!ok)
    return {};
  return lib::from_ff(h.data(), N);
}
static void
judge(pbt::Ctx& c, const bytes& pk)
{
  const auto want = ref::decode_pk<N>(pk.data());
  const auto got = lib_decode(c, pk);
  c.require(got.has_value() == want.has_value(),
            [&] { return cat("decode_pkey ", got ? "accepts" : "refuses", " a string that is ", want ? "" : "not ", "an encoding: ", ref::hex(pk.data(), pk.size(), 2000)); });
  if (got) {
    c.require(*got == *want, "decode_pkey yields other coefficients");
    const auto h = lib::to_ff<N>(*got);
    bytes again(L::pklen);
    encoding::encode_pkey<N>(h.data(), again.data());
    c.require(again == pk, "re-encoding gives other bytes");
    c.label("accepted");
  } else
    c.label("refused");
  c.extra_evals++;
}

PROPN(round_trip, 20000, 10000, 1000000, 500000)
{
  ivec h = gen_h(c.t);
  shape::some(c, h, 4, [](int64_t x) { return ref::mod(-x); });
  if (c.verbose)
    c.desc << "h=" << ref::show(h);
  const auto hf = lib::to_ff<N>(h);
  for (const uint8_t fill : { uint8_t{ 0 }, uint8_t{ 0xff } }) {
    guard::buf pk(L::pklen, fill);
    encoding::encode_pkey<N>(hf.data(), pk.data());
    c.require(pk.intact(), "encode_pkey wrote in front of the buffer");
    const bytes want = ref::encode_pk<N>(h);
    c.require(pk.same(want), [&] {
      size_t i = 0;
      while (pk[i] == want[i])
        i++;
      return cat("encode_pkey byte ", i, " is ", int(pk[i]), ", expected ", int(want[i]), "; h ", ref::show(h, 1024));
    });
    const auto back = lib_decode(c, pk.vec(), fill);
    c.require(back && *back == h, [&] { return cat("decode_pkey(encode_pkey(h)) != h, ", back ? "other coefficients" : "refused", "; h ", ref::show(h, 1024)); });
  }
  c.nontrivial();
}

// every 14-bit value, at a generated position
PROPN(every_value, 32768, 32768, 1 << 20, 1 << 20)
{
  const auto v = static_cast<int64_t>(c.t.enumerate(16384));
  const size_t at = c.t.below(N);
  ivec h = gen_h(c.t);
  h[at] = v;
  if (c.verbose)
    c.desc << "value " << v << " at " << at;
  c.label_if(v >= ref::Q, "value of q or more");
  c.nontrivial();
  judge(c, ref::encode_pk<N>(h));
}

PROPN(headers, 2048, 2048, 65536, 65536)
{
  const auto hd = static_cast<uint8_t>(c.t.enumerate(256));
  bytes pk = ref::encode_pk<N>(gen_h(c.t));
  pk[0] = hd;
  if (c.verbose)
    c.desc << "header " << int(hd);
  c.nontrivial();
  judge(c, pk);
  // and through the verification entry point: never accepted with it
  if (hd != L::pkhdr) {
    bytes sig(L::siglen, 0), msg(3, 7);
    sig[0] = L::sighdr;
    c.require(!lib_verify_pk<N>(pk, msg, sig), "falcon::verify accepts a public key with a foreign header");
  }
}

// arbitrary strings, and encodings with a few changed bits
PROPN(strings, 20000, 10000, 1000000, 500000)
{
  auto& t = c.t;
  const size_t m = t.pick({ 1, 3, 2 });
  bytes pk = ref::encode_pk<N>(gen_h(t));
  Rng r(t.u64());
  if (m == 0) {
    const auto hd = pk[0];
    pk = rnd_bytes(r, L::pklen);
    if (r.next() & 1)
      pk[0] = hd;
  } else if (m == 1)
    for (uint64_t k = 1 + t.below(3); k > 0; k--) {
      const size_t b = 8 + t.below(14 * N);
      pk[b / 8] ^= static_cast<uint8_t>(1u << (b % 8));
    }
  else {
    const size_t a = 1 + t.below(L::pklen - 1), n = t.below(std::min<size_t>(16, L::pklen - a) + 1);
    std::fill_n(pk.begin() + static_cast<long>(a), n, t.chance(1, 2) ? 0xff : t.byte());
  }
  if (c.verbose)
    c.desc << ref::hex(pk.data(), pk.size());
  c.nontrivial();
  judge(c, pk);
}

// a key holding a value of q or more never verifies anything, even where the
// reduced value would
PROPN(verify_refuses, 200, 100, 6000, 3000)
{
  auto& t = c.t;
  const auto& k = lib::pick_key<N>(t);
  det::seed(t.u64());
  const bytes msg = lib::message(t, 200);
  bytes sig(L::siglen);
  const bytes sk = ref::encode_sk<N>(k.f, k.g, k.F);
  c.require(falcon::sign<N>(sk.data(), msg.data(), msg.size(), sig.data()), "sign");
  ivec h = k.h;
  c.require(lib_verify_pk<N>(ref::encode_pk<N>(h), msg, sig), "a genuine signature is refused");
  std::vector<size_t> small;
  for (size_t i = 0; i < N; i++)
    if (h[i] + ref::Q < 16384)
      small.push_back(i);
  if (small.empty())
    c.discard("no coefficient below 4095");
  h[small[t.below(small.size())]] += ref::Q;
  c.require(!lib_verify_pk<N>(ref::encode_pk<N>(h), msg, sig), "a second encoding of the public key verifies the signature");
  c.nontrivial();
}
