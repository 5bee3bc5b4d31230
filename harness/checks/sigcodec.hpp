#pragma once
// The library's signature codec, with guard pages, for C08 and C09
#include "sigtools.hpp"
#include "guard.hpp"
namespace codec {
using namespace st;
using pbt::cat;
using L = ref::P<N>;

struct result
{
  bool ok;
  bytes sig;
};
// compress into a buffer pre-filled with `fill`
inline result
compress(pbt::Ctx& c, const ivec& s, const uint8_t fill)
{
  std::vector<int32_t> p(N);
  lib::to_i32(s, p.data());
  guard::buf sig(L::siglen, fill);
  const bool ok = encoding::compress_sig<N, L::siglen>(p.data(), sig.data());
  c.require(sig.intact(), "compress_sig wrote in front of the buffer");
  for (size_t i = 0; i < 41; i++)
    c.require(sig[i] == fill, [&] { return cat("compress_sig touched byte ", i, " of the signature"); });
  return { ok, sig.vec() };
}
// decompress from a buffer that ends at an inaccessible page; low = true: from
// one that starts right behind one (other bytes follow it)
inline std::optional<ivec>
decompress(pbt::Ctx& c, const bytes& sig, const bool low, const int32_t fill)
{
  guard::buf in(sig, low);
  std::vector<int32_t> p(N + 4, fill);
  const bool ok = decoding::decompress_sig<N, L::siglen>(in.data(), p.data());
  c.require(in.same(sig), "decompress_sig changed its input");
  for (size_t i = N; i < N + 4; i++)
    c.require(p[i] == fill, "decompress_sig wrote behind the polynomial");
  if (!ok)
    return {};
  return lib::from_i32(p.data(), N);
}
inline std::optional<ivec>
decode(pbt::Ctx& c, const bytes& sig, bytes& salt)
{
  guard::buf in(sig);
  std::vector<int32_t> p(N + 4, 0x1234);
  salt.assign(40, 0x77);
  const bool ok = decoding::decode_sig<N>(in.data(), salt.data(), p.data());
  c.require(in.same(sig), "decode_sig changed its input");
  if (!ok)
    return {};
  return lib::from_i32(p.data(), N);
}
}
