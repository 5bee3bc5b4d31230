// C10: no input bytes make the library misbehave (run with sanitizers; buffers
// of exactly the documented sizes next to inaccessible pages)
#include "guard.hpp"
#include "script.hpp"
using pbt::cat;
using namespace st;
using namespace tt;
using Pm = ref::P<N>;

// ------------------------------------------------------------ arbitrary bytes
static bytes
blob(Rng& r, const size_t n, const size_t kind)
{
  bytes b(n);
  const auto v = static_cast<uint8_t>(r.next());
  for (size_t i = 0; i < n; i++)
    switch (kind) {
      case 0:
        b[i] = static_cast<uint8_t>(r.next());
        break;
      case 1:
        b[i] = 0;
        break;
      case 2:
        b[i] = 0xff;
        break;
      case 3:
        b[i] = v;
        break;
      case 4: // few ones: long unary runs
        b[i] = r.next() % 24 ? 0 : static_cast<uint8_t>(1u << (r.next() & 7));
        break;
      case 5: // few zeros
        b[i] = r.next() % 8 ? 0xff : static_cast<uint8_t>(r.next());
        break;
      default: { // stretches
        static const uint8_t pat[] = { 0x00, 0xff, 0x80, 0x01, 0x55, 0xaa };
        b[i] = i && r.next() % 16 ? b[i - 1] : pat[r.next() % 6];
      }
    }
  return b;
}
static void
damage(pbt::Tape& t, Rng& r, bytes& b)
{
  for (size_t m = t.below(5); m > 0; m--)
    switch (t.below(4)) {
      case 0:
        b[r.next() % b.size()] ^= static_cast<uint8_t>(1u << (r.next() & 7));
        break;
      case 1:
        b[r.next() % b.size()] = static_cast<uint8_t>(r.next());
        break;
      case 2: {
        const size_t at = r.next() % b.size(), n = r.next() % (b.size() - at) + 1;
        const auto v = static_cast<uint8_t>(r.next() & 1 ? 0 : r.next());
        std::fill(b.begin() + static_cast<long>(at), b.begin() + static_cast<long>(at + n), v);
        break;
      }
      default: { // the tail
        const size_t n = std::min<size_t>(b.size() - 1, 1 + r.next() % 12);
        for (size_t i = b.size() - n; i < b.size(); i++)
          b[i] = static_cast<uint8_t>(r.next());
      }
    }
}
// a body that decodes: coefficients of any size that fits
static bytes
body(Rng& r, const size_t kind)
{
  ivec s(N, 0);
  if (kind == 0) { // as large as possible
    const size_t m = 1 + r.next() % 3;
    for (size_t i = 0; i < m; i++)
      s[static_cast<size_t>(uni(r, 0, N - 1))] = (r.next() & 1 ? 1 : -1) * static_cast<int64_t>((Pm::sigbits - 9 * N) / m * 128 + static_cast<uint64_t>(uni(r, -200, 127)));
  } else
    s = gauss_vec(r, N, kind == 1 ? 150 : 200 * u01(r));
  if (kind >= 2)
    s[static_cast<size_t>(uni(r, 0, N - 1))] = uni(r, -14000, 14000);
  fit<N>(s);
  const auto b = ref::compress(s, Pm::sigbits);
  return b ? *b : bytes(Pm::siglen - 41, 0);
}
static bytes
any_sig(pbt::Tape& t, Rng& r)
{
  bytes s = blob(r, Pm::siglen, t.below(7));
  if (t.below(2)) {
    const bytes b = body(r, t.below(3));
    std::copy(b.begin(), b.end(), s.begin() + 41);
  }
  if (t.below(4) == 0)
    damage(t, r, s);
  if (t.below(8))
    s[0] = Pm::sighdr;
  return s;
}
static bytes
any_pk(pbt::Tape& t, Rng& r)
{
  bytes p;
  switch (t.below(4)) {
    case 0:
      p = blob(r, Pm::pklen, t.below(7));
      break;
    case 1: { // edge values
      ivec h(N);
      const int64_t v[] = { 0, 1, 6144, 6145, 12288, 12287, 12289, 16383, 8192 };
      const size_t m = 5 + 4 * t.below(2);
      for (auto& x : h)
        x = v[r.next() % m];
      p = ref::encode_pk<N>(h);
      break;
    }
    case 2: {
      ivec h(N);
      for (auto& x : h)
        x = uni(r, 0, 12288);
      p = ref::encode_pk<N>(h);
      break;
    }
    default:
      p = ref::encode_pk<N>(lib::pick_key<N>(t).h);
  }
  if (t.below(4) == 0)
    damage(t, r, p);
  if (t.below(8))
    p[0] = Pm::pkhdr;
  return p;
}

PROPN(verify_any_bytes, 16000, 8000, 400000, 200000)
{
  Rng r(c.t.u64());
  const bytes pk = any_pk(c.t, r), sig = any_sig(c.t, r), msg = lib::message(c.t, 600);
  const bool low = c.t.below(2);
  guard::buf p(pk, low), s(sig, low), m(msg, low);
  if (c.verbose)
    c.desc << "pk " << ref::hex(pk.data(), pk.size(), 24) << " sig " << ref::hex(sig.data() + 41, sig.size() - 41, 24) << " msg " << msg.size() << " bytes";
  const bool got = falcon::verify<N>(p.data(), m.data(), m.size(), s.data());
  c.require(p.intact() && s.intact() && m.intact() && p.same(pk) && s.same(sig) && m.same(msg), "verification wrote to its inputs or next to them");
  const bool dec = ref::decode_pk<N>(pk.data()).has_value();
  if (got)
    c.require(ref::verify<N>(pk.data(), msg.data(), msg.size(), sig.data()).accept, "accepts what the specification refuses");
  c.label(dec ? "public key decodes" : "public key refused");
  c.label_if(dec && sig[0] == Pm::sighdr && ref::decompress(sig.data() + 41, Pm::sigbits, N), "whole verification executed");
  c.nontrivial();
}

PROPN(decode_any_bytes, 16000, 8000, 400000, 200000)
{
  Rng r(c.t.u64());
  const bytes pk = any_pk(c.t, r), sig = any_sig(c.t, r);
  bytes sk = blob(r, Pm::sklen, c.t.below(7));
  if (c.t.below(8))
    sk[0] = Pm::skhdr;
  const bool low = c.t.below(2);
  guard::buf p(pk, low), s(sig, low), k(sk, low), salt(40, 1, low);
  guard::buf h(sizeof(ff::ff_t) * N, 3, low), f(4 * N, 4, low), g(4 * N, 5, low), F(4 * N, 6, low), s2(4 * N, 7, low);
  auto i32 = [](guard::buf& b) { return reinterpret_cast<int32_t*>(b.data()); };
  const bool a = decoding::decode_pkey<N>(p.data(), reinterpret_cast<ff::ff_t*>(h.data()));
  const bool b = decoding::decode_skey<N>(k.data(), i32(f), i32(g), i32(F));
  const bool d = decoding::decode_sig<N>(s.data(), salt.data(), i32(s2));
  c.require(p.same(pk) && s.same(sig) && k.same(sk), "decoding changed its input");
  for (auto* x : { &p, &s, &k, &salt, &h, &f, &g, &F, &s2 })
    c.require(x->intact(), "decoding wrote outside a buffer");
  // and back, into exact buffers
  if (a) {
    guard::buf o(Pm::pklen, 0, low);
    encoding::encode_pkey<N>(reinterpret_cast<ff::ff_t*>(h.data()), o.data());
    c.require(o.intact(), "encoding wrote outside a buffer");
  }
  if (b) {
    guard::buf o(Pm::sklen, 0, low);
    encoding::encode_skey<N>(i32(f), i32(g), i32(F), o.data());
    c.require(o.intact(), "encoding wrote outside a buffer");
    c.label("secret key decodes");
  }
  if (d) {
    guard::buf o(Pm::siglen, 0, low);
    (void)encoding::compress_sig<N, Pm::siglen>(i32(s2), o.data());
    c.require(o.intact(), "encoding wrote outside a buffer");
    c.label("signature decodes");
  }
  if (!b || sk[0] != Pm::skhdr) {
    guard::buf o(Pm::siglen, 0, low);
    c.require(!falcon::sign<N>(k.data(), sig.data(), 10, o.data()), "signing accepts a secret key that does not decode");
    c.require(o.intact(), "signing wrote outside a buffer");
    c.label("signing with an undecodable key");
  }
  c.nontrivial();
}

// compression of any polynomial of the signature's norm, hashing of any message
PROPN(compress_hash_any, 8000, 4000, 200000, 100000)
{
  Rng r(c.t.u64());
  ivec s;
  switch (c.t.below(4)) {
    case 0:
      s = exact_norm(r, N, Pm::beta2, 8382, static_cast<int>(c.t.below(3)));
      break;
    case 1:
      s = gauss_vec(r, N, 400 * u01(r));
      break;
    case 2:
      s = ivec(N, 0);
      for (size_t i = 0; i < 8; i++)
        s[static_cast<size_t>(uni(r, 0, N - 1))] = uni(r, -8382, 8382);
      break;
    default:
      s = ivec(N, uni(r, -260, 260));
  }
  if (s.empty())
    s.assign(N, 0);
  while (ref::norm2(s) > Pm::beta2) // signing compresses nothing longer
    for (auto& x : s)
      x = x * 7 / 8;
  std::vector<int32_t> p(N);
  lib::to_i32(s, p.data());
  const bool low = c.t.below(2);
  guard::buf o(Pm::siglen, 0x11, low);
  (void)encoding::compress_sig<N, Pm::siglen>(p.data(), o.data());
  c.require(o.intact(), "compression wrote outside the signature");
  const bytes msg = lib::message(c.t, 5000), salt = blob(r, 40, c.t.below(7));
  guard::buf m(msg, low), sa(salt, low), h(sizeof(ff::ff_t) * N, 0, low);
  hashing::hash_to_point<N>(sa.data(), 40, m.data(), m.size(), reinterpret_cast<ff::ff_t*>(h.data()));
  c.require(h.intact(), "hashing wrote outside its polynomial");
  c.nontrivial();
}

// ------------------------------------------------------------ random streams
static det::stream
any_stream(pbt::Tape& t, const uint64_t reach)
{
  det::stream s;
  s.key = t.u64();
  for (size_t m = t.below(7); m > 0; m--)
    s.st.push_back({ t.below(2) ? t.below(400) : t.below(reach), 1 + t.below(t.below(2) ? reach / 2 : 300), static_cast<int>(t.below(4)), t.byte() });
  return s;
}
PROPNL(sign_any_stream, 320, 160, 10000, 5000, 120)
{
  const lib::key k = variant<N>(c.t);
  const bytes sk = ref::encode_sk<N>(k.f, k.g, k.F), msg = lib::message(c.t, 300);
  const bool low = c.t.below(2), pre = c.t.below(2);
  any_stream(c.t, 60000).install();
  shake256::probe::st.budget = 6000000;
  guard::buf s(sk, low), m(msg, low), o(Pm::siglen, 0x77, low);
  try {
    if (pre) {
      const auto x = lib::expand<N>(k);
      prng::prng_t rng;
      falcon::sign<N>(x.B.data(), x.T.data(), m.data(), m.size(), o.data(), rng);
    } else
      c.require(falcon::sign<N>(s.data(), m.data(), m.size(), o.data()), "signing refused a valid secret key");
  } catch (const shake256::probe::budget_exceeded&) {
    c.fail("signing does not end: it reads random bytes without limit");
  }
  c.require(o.intact() && s.same(sk) && m.same(msg), "signing wrote outside the signature");
  guard::buf p(ref::encode_pk<N>(k.h), low);
  c.require(falcon::verify<N>(p.data(), m.data(), m.size(), o.data()), "the signature does not verify");
  if (c.verbose)
    c.desc << shake256::probe::st.total_read << " random bytes read";
  c.nontrivial();
}
// scripted candidates: huge norms and coefficients inside the signer
PROPNL(sign_extreme_candidates, 96, 48, 3000, 1500, 120)
{
  const lib::key k = variant<N>(c.t);
  const bytes sk = ref::encode_sk<N>(k.f, k.g, k.F), msg = lib::message(c.t, 100);
  Rng r(c.t.u64());
  const bytes salt = rnd_bytes(r, 40);
  const ivec h2p = ref::hash_to_point(salt.data(), 40, msg.data(), msg.size(), N);
  const cvec b00 = ref::fft_i(k.g), b01 = ref::fft_i(neg(k.f)), b10 = ref::fft_i(k.G), b11 = ref::fft_i(neg(k.F));
  cvec g00(N), g10(N), g11(N);
  for (size_t i = 0; i < N; i++) {
    g00[i] = std::norm(b00[i]) + std::norm(b01[i]);
    g10[i] = b10[i] * std::conj(b00[i]) + b11[i] * std::conj(b01[i]);
    g11[i] = std::norm(b10[i]) + std::norm(b11[i]);
  }
  ref::tree T = ref::ffldl(g00, g10, g11);
  normalise(T, Pm::sigma);
  std::vector<ld> a1(N, 0), a2(N, 0);
  const size_t m = 1 + c.t.below(c.t.below(2) ? 4 : N / 4);
  const double room = 0.97 * std::sqrt(static_cast<double>(Pm::beta2)) / std::sqrt(static_cast<double>(m));
  const bool second = c.t.below(3);
  for (size_t i = 0; i < m; i++)
    (second ? a2 : a1)[static_cast<size_t>(uni(r, 0, N - 1))] = (r.next() & 1 ? 1 : -1) * static_cast<ld>(room * (c.t.below(4) ? 1.0 : 8.0));
  const auto cand = script::aim<N>(k, T, h2p, a1, a2);
  bytes head = salt;
  head.insert(head.end(), cand.stream.begin(), cand.stream.end());
  script::install(head, c.t.u64());
  shake256::probe::st.budget = 6000000;
  guard::buf s(sk), o(Pm::siglen, 0x77, c.t.below(2)), mm(msg);
  c.require(falcon::sign<N>(s.data(), mm.data(), mm.size(), o.data()), "signing refused a valid secret key");
  c.require(o.intact(), "signing wrote outside the signature");
  guard::buf p(ref::encode_pk<N>(k.h));
  c.require(falcon::verify<N>(p.data(), mm.data(), mm.size(), o.data()), "the signature does not verify");
  if (c.verbose)
    c.desc << "candidate of squared norm " << cand.norm;
  c.label_if(cand.norm > INT32_MAX, "squared norm above 2^31");
  c.nontrivial();
}
PROPNL(keygen_any_stream, 8, 8, 200, 64, 300)
{
  if (N == 1024 && c.t.enumerate(4) != 0)
    c.discard("kept for the other size"); // one in four: costly
  any_stream(c.t, 300000).install();
  shake256::probe::st.budget = 400000000;
  guard::buf pk(Pm::pklen, 0x12, true), sk(Pm::sklen, 0x21);
  try {
    falcon::keygen<N>(pk.data(), sk.data());
  } catch (const shake256::probe::budget_exceeded&) {
    c.fail("key generation does not end: it reads random bytes without limit");
  }
  c.require(pk.intact() && sk.intact(), "key generation wrote outside its buffers");
  c.nontrivial();
}

#ifndef PBT_PUBLIC_ONLY
// the sampler under any bytes, for centres and deviations that signing uses
PROP(samplerz_any_stream, 20000, 400000)
{
  const double mu = c.t.below(3) ? c.t.real(-40000, 40000) : static_cast<double>(c.t.range(-40000, 40000)) + (c.t.below(2) ? 0.5 : 0);
  const double sp = c.t.below(4) ? c.t.real(1.2778336969128337, 1.8205) : c.t.below(2) ? 1.8205 : 1.298280334344292;
  any_stream(c.t, 3000).install();
  shake256::probe::st.budget = 300000;
  prng::prng_t rng;
  const int64_t z = samplerz::samplerz(mu, sp, N == 512 ? 1.277833697 : 1.298280334, rng);
  c.require(std::fabs(static_cast<double>(z) - mu) < 21, [&] { return cat("sample ", z, " for centre ", mu); });
  c.nontrivial();
}
#endif
