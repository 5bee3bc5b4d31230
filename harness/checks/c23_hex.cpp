// C23: hex helpers and length functions
#include "lib.hpp"
#include "guard.hpp"
using pbt::cat;

PROP(hex_round_trip, 60000, 1500000)
{
  auto& t = c.t;
  size_t n = 0;
  switch (t.below(1500) == 1499 ? 3 : t.pick({ 4, 2, 1 })) {
    case 0:
      n = t.below(40);
      break;
    case 1:
      n = t.below(400);
      break;
    case 2:
      n = t.below(6000);
      break;
    default: // beyond 16 bits, in bytes or in digits
      n = (1ul << (15 + t.below(4))) + t.below(2000);
  }
  std::vector<uint8_t> b(n);
  const uint64_t key = t.u64();
  for (size_t i = 0; i < n; i++)
    b[i] = key ? det::byte_of(key, i) : 0;
  if (n && t.chance(1, 2))
    b[t.below(n)] = static_cast<uint8_t>(t.below(17)); // small values need padding
  if (c.verbose)
    c.desc << ref::hex(b.data(), n);
  guard::buf in(b);
  const std::string h = to_hex(in.data(), n);
  c.require(h.size() == 2 * n, [&] { return cat("to_hex of ", n, " bytes has ", h.size(), " characters"); });
  static const char* d = "0123456789abcdef";
  for (size_t i = 0; i < n; i++)
    c.require(h[2 * i] == d[b[i] >> 4] && h[2 * i + 1] == d[b[i] & 15],
              [&] { return cat("byte ", i, " (", int(b[i]), ") printed as ", h.substr(2 * i, 2)); });
  // back, with any mixture of cases
  std::string m = h;
  const size_t mode = t.below(3);
  if (mode)
    for (auto& ch : m)
      if (mode == 1 || (key >> (static_cast<size_t>(&ch - &m[0]) % 61)) & 1)
        ch = static_cast<char>(std::toupper(ch));
  guard::buf out(n, 0xa5);
  to_byte_array(m, out.data());
  c.require(out.same(b), [&] { return cat("to_byte_array(", m.substr(0, 80), ")"); });
  c.require(out.intact() && in.same(b), "bytes outside the buffer were touched");
  c.label(mode == 0 ? "lower case" : mode == 1 ? "upper case" : "mixed case");
  c.label_if(n == 0, "empty");
  if (n)
    c.nontrivial();
}

// every byte value alone, at every position parity
PROP(every_byte, 256, 256)
{
  const auto v = static_cast<uint8_t>(c.t.enumerate(256));
  uint8_t b[3] = { v, static_cast<uint8_t>(~v), v };
  const auto h = to_hex(b, 3);
  char w[7];
  std::snprintf(w, 7, "%02x%02x%02x", b[0], b[1], b[2]);
  c.require(h == w, [&] { return cat("to_hex gives ", h, ", expected ", w); });
  uint8_t o[3] = {};
  to_byte_array(h, o);
  c.require(!std::memcmp(o, b, 3), [&] { return cat("to_byte_array(", h, ")"); });
  if (c.verbose)
    c.desc << h;
  c.nontrivial();
}

template<size_t n>
static void
lengths(pbt::Ctx& c)
{
  using L = ref::P<n>;
  auto& t = c.t;
  static_assert(log2<n>() == L::logn);
  c.require(falcon_utils::compute_pkey_len<n>() == L::pklen, "public key length");
  c.require(falcon_utils::compute_skey_len<n>() == L::sklen, "secret key length");
  c.require(falcon_utils::compute_sig_len<n>() == L::siglen, "signature length");
  // what the encoders write: exactly that many bytes, all of them
  std::vector<ff::ff_t> h(n);
  std::vector<int32_t> f(n), g(n), F(n), s(n);
  const uint64_t key = t.u64();
  for (size_t i = 0; i < n; i++) {
    h[i].v = static_cast<uint16_t>((det::byte_of(key, 2 * i) * 256 + det::byte_of(key, 2 * i + 1)) % 12289);
    f[i] = det::byte_of(key ^ 1, i) % (2 * L::fgmax + 1) - L::fgmax;
    g[i] = det::byte_of(key ^ 2, i) % (2 * L::fgmax + 1) - L::fgmax;
    F[i] = det::byte_of(key ^ 3, i) % 255 - 127;
    s[i] = det::byte_of(key ^ 4, i) - 128;
  }
  for (const uint8_t fill : { uint8_t{ 0x00 }, uint8_t{ 0xff } }) {
    guard::buf pk(L::pklen, fill), sk(L::sklen, fill), sg(L::siglen, fill);
    encoding::encode_pkey<n>(h.data(), pk.data());
    encoding::encode_skey<n>(f.data(), g.data(), F.data(), sk.data());
    const bool ok = encoding::compress_sig<n, L::siglen>(s.data(), sg.data());
    c.require(ok, "a short polynomial does not fit");
    c.require(pk.intact() && sk.intact() && sg.intact(), "an encoder wrote outside the documented length");
    sg[0] = L::sighdr;
    // what the decoders read: nothing beyond the documented length (the guard
    // bytes behind the buffers differ between the two rounds)
    std::vector<ff::ff_t> h2(n);
    std::vector<int32_t> f2(n), g2(n), F2(n), s2(n);
    uint8_t salt[40];
    c.require(decoding::decode_pkey<n>(pk.data(), h2.data()), "decode_pkey");
    c.require(decoding::decode_skey<n>(sk.data(), f2.data(), g2.data(), F2.data()), "decode_skey");
    c.require(decoding::decode_sig<n>(sg.data(), salt, s2.data()), "decode_sig");
    c.require(f == f2 && g == g2 && F == F2 && s == s2, "round trip");
    for (size_t i = 0; i < n; i++)
      c.require(h[i] == h2[i], "round trip of h");
    c.require(!std::memcmp(salt, sg.data() + 1, 40), "salt");
  }
  c.nontrivial();
  if (c.verbose)
    c.desc << "N=" << n << " random keys and signature polynomial from key " << key;
}
PROP(lengths_512, 800, 20000) { lengths<512>(c); }
PROP(lengths_1024, 400, 10000) { lengths<1024>(c); }
PROP(log2_values, 1, 1)
{
  static_assert(log2<1>() == 0 && log2<2>() == 1 && log2<4>() == 2 && log2<256>() == 8 && log2<1024>() == 10 && log2<(1ul << 40)>() == 40 &&
                log2<(1ul << 63)>() == 63);
  c.nontrivial();
}
