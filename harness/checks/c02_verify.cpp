// C02: verification accepts exactly what the specification accepts
#include "huge.hpp"
#include "shape.hpp"
#include "sigtools.hpp"
using pbt::cat;
using namespace st;
using L = ref::P<N>;

static void
judge(pbt::Ctx& c, const ivec& h, const bytes& msg, const bytes& sig, const char* what)
{
  const auto v = ref::verify_h<N>(h, msg.data(), msg.size(), sig.data());
  const bool a = lib_verify_h<N>(h, msg, sig);
  const bool b = lib_verify_pk<N>(ref::encode_pk<N>(h), msg, sig);
  auto info = [&] {
    return cat(what, ": specification ", v.accept ? "accepts" : "rejects", " (decoded ", v.decoded, ", squared norm ", v.norm, ", bound ",
               L::beta2, "), verification::verify ", a, ", falcon::verify ", b, "; s2 ", ref::show(v.s2), " s1 ", ref::show(v.s1));
  };
  if (c.verbose)
    c.desc << what << " norm=" << v.norm << " |msg|=" << msg.size() << " s2=" << ref::show(v.s2) << " s1=" << ref::show(v.s1);
  c.require(a == v.accept && b == v.accept, info);
  c.extra_evals++;
  c.label(v.accept ? "accepted" : v.decoded ? "rejected by norm" : "rejected by encoding");
  if (v.decoded) {
    c.label_if(v.norm == L::beta2, "norm exactly at the bound");
    c.label_if(v.norm == L::beta2 + 1, "norm one above the bound");
    c.label_if(v.norm > INT32_MAX, "norm above 2^31");
    c.label_if(v.norm > UINT32_MAX, "norm above 2^32");
    for (auto x : v.s1)
      if (x == 6144 || x == -6144) {
        c.label("s1 holds +-6144");
        if (v.accept)
          c.label("accepted with s1 holding +-6144");
        break;
      }
  }
}

// (s1, s2) with a chosen total norm, h solved for
PROPN(norm_edges, 12000, 6000, 500000, 250000)
{
  auto& t = c.t;
  const size_t tm = t.pick({ 4, 4, 2, 3, 3, 2 });
  int64_t T = L::beta2;
  switch (tm) {
    case 0:
      break;
    case 1:
      T += 1;
      break;
    case 2:
      T -= t.range(1, 40);
      break;
    case 3:
      T += t.range(2, 4000000);
      break;
    case 4: // wraps of 32-bit counters, landing at or near the bound
      T = (static_cast<int64_t>(1) << (31 + t.below(2))) * t.range(1, N == 512 ? 4 : 8) + t.range(-100, L::beta2 + 100);
      break;
    default:
      T = t.range(0, L::beta2);
  }
  const int shape2 = static_cast<int>(t.below(4));
  const int shape1 = static_cast<int>(t.below(3));
  const bool edge = t.chance(1, 3);
  Rng r(t.u64());
  const bytes msg = lib::message(t, 300);
  ivec s2;
  switch (shape2) {
    case 0:
      s2 = gauss_vec(r, N, L::sigma);
      break;
    case 1: // nearly nothing
      s2.assign(N, 0);
      s2[static_cast<size_t>(uni(r, 0, N - 1))] = uni(r, 1, 3);
      break;
    case 2: // most of the norm in s2, one entry large
      s2 = gauss_vec(r, N, 30);
      s2[static_cast<size_t>(uni(r, 0, N - 1))] = uni(r, 3000, isqrt(L::beta2) - 30) * ((r.next() & 1) ? 1 : -1);
      break;
    default:
      s2 = gauss_vec(r, N, 2);
  }
  fit<N>(s2);
  make_invertible(r, s2);
  const bytes salt = rnd_bytes(r, 40);
  const bytes sig = make_sig<N>(salt, s2);
  if (sig.empty())
    c.discard("does not fit");
  const int64_t rest = T - ref::norm2(s2);
  ivec s1;
  if (edge && rest > 6144ll * 6144 + 100) {
    s1 = exact_norm(r, N, rest - 6144 * 6144, 6144, shape1);
    // put the extreme coefficient on a zero
    bool done = false;
    for (size_t i = 0; i < s1.size() && !done; i++)
      if (s1[i] == 0)
        s1[i] = (r.next() & 1) ? 6144 : -6144, done = true;
    if (!done)
      s1.clear();
  } else
    s1 = exact_norm(r, N, rest, 6144, shape1);
  if (s1.empty())
    c.discard("no vector of that norm");
  const ivec cc = ref::hash_to_point(salt.data(), 40, msg.data(), msg.size(), N);
  const ivec h = solve_h(cc, s1, s2);
  c.nontrivial();
  judge(c, h, msg, sig, cat("target norm ", T).c_str());
}

// one enormous s2 coefficient (where narrow integer types wrap), everything
// else short: the spec rejects, however the large value truncates
PROPN(huge_s2, 4000, 2000, 200000, 100000)
{
  auto& t = c.t;
  constexpr int64_t max = 128ll * (static_cast<int64_t>(L::sigbits) - 9 * N - 60);
  static const int64_t mids[] = { 65536, 46341, 32768, 12289, 16384, 8192, 6144, 24578, 57344, 1 << 10, 2048, 4096, 49152 };
  const int64_t m = mids[t.below(std::size(mids))];
  const bool multi = t.chance(1, 4);
  Rng r(t.u64());
  const bytes msg = lib::message(t, 300);
  ivec s2 = gauss_vec(r, N, multi ? 20 : 8);
  for (int64_t i = multi ? uni(r, 2, 5) : 1; i > 0; i--) {
    const int64_t v = std::min(multi ? max / 5 : max, m + uni(r, -200, 200));
    s2[static_cast<size_t>(uni(r, 0, N - 1))] = (r.next() & 1) ? v : -v;
  }
  make_invertible(r, s2);
  const bytes salt = rnd_bytes(r, 40);
  const bytes sig = make_sig<N>(salt, s2);
  if (sig.empty())
    c.discard("does not fit");
  const ivec s1 = gauss_vec(r, N, 60);
  const ivec cc = ref::hash_to_point(salt.data(), 40, msg.data(), msg.size(), N);
  const ivec h = solve_h(cc, s1, s2);
  c.nontrivial();
  c.label_if(m >= 46000 && !multi, "square of s2 near or above 2^31");
  judge(c, h, msg, sig, "one huge s2 coefficient");
}

// arbitrary key and signature polynomials: norms far above the bound
PROPN(forgeries, 12000, 6000, 500000, 250000)
{
  auto& t = c.t;
  const size_t mode = t.pick({ 3, 2, 2, 2, 1 });
  Rng r(t.u64());
  const bytes msg = lib::message(t, 300);
  ivec h(N), s2(N, 0);
  if (t.chance(1, 3))
    h = lib::pick_key<N>(t).h;
  else
    for (auto& x : h)
      x = uni(r, 0, ref::Q - 1);
  shape::some(c, h, 3, [](int64_t x) { return ref::mod(-x); });
  if (t.chance(1, 16))
    h.assign(N, 0);
  switch (mode) {
    case 0: // s2 = 0: s1 is the hash itself
      break;
    case 1:
      s2 = gauss_vec(r, N, L::sigma);
      break;
    case 2: // one or a few huge coefficients
      for (int64_t i = uni(r, 1, 4); i > 0; i--)
        s2[static_cast<size_t>(uni(r, 0, N - 1))] = uni(r, -60000, 60000);
      break;
    case 3:
      s2 = gauss_vec(r, N, 40);
      break;
    default:
      s2[static_cast<size_t>(uni(r, 0, N - 1))] = (r.next() & 1) ? uni(r, 12280, 12300) : -uni(r, 12280, 12300);
  }
  shape::some(c, s2, 3);
  fit<N>(s2);
  const bytes sig = make_sig<N>(rnd_bytes(r, 40), s2);
  if (sig.empty())
    c.discard("does not fit");
  c.nontrivial();
  judge(c, h, msg, sig, mode == 0 ? "zero s2" : "arbitrary s2");
}

// acceptable vectors in damaged encodings, and bytes around them
PROPN(damaged, 10000, 5000, 400000, 200000)
{
  auto& t = c.t;
  const size_t mode = t.pick({ 2, 3, 2, 2, 2, 2 });
  Rng r(t.u64());
  const bytes msg = lib::message(t, 300);
  ivec s2 = gauss_vec(r, N, t.chance(1, 2) ? 20 : 140);
  if (t.chance(1, 2))
    s2[static_cast<size_t>(uni(r, 0, N - 1))] = 0;
  fit<N>(s2);
  make_invertible(r, s2);
  const bytes salt = rnd_bytes(r, 40);
  bytes sig = make_sig<N>(salt, s2);
  if (sig.empty())
    c.discard("does not fit");
  const ivec s1 = gauss_vec(r, N, 100);
  const ivec cc = ref::hash_to_point(salt.data(), 40, msg.data(), msg.size(), N);
  const ivec h = solve_h(cc, s1, s2);
  const size_t used = ref::sig_bitlen(s2);
  auto flip = [&](size_t bit) { sig[41 + bit / 8] ^= static_cast<uint8_t>(0x80 >> (bit % 8)); };
  std::string what = "intact";
  switch (mode) {
    case 0:
      break;
    case 1: // sign bit of a zero coefficient
    {
      size_t at = 0;
      for (size_t i = 0; i < N; i++) {
        if (s2[i] == 0) {
          flip(at);
          what = "negative zero";
          break;
        }
        at += 9 + static_cast<size_t>(std::llabs(s2[i]) >> 7);
      }
      break;
    }
    case 2: // padding
      if (used < L::sigbits) {
        flip(r.next() & 1 ? L::sigbits - 1 - static_cast<size_t>(uni(r, 0, std::min<int64_t>(7, static_cast<int64_t>(L::sigbits - used) - 1)))
                          : static_cast<size_t>(uni(r, static_cast<int64_t>(used), L::sigbits - 1)));
        what = "non-zero padding";
      }
      break;
    case 3:
      sig[0] = static_cast<uint8_t>(t.below(256));
      what = "header";
      break;
    case 4:
      flip(static_cast<size_t>(uni(r, 0, static_cast<int64_t>(used) - 1)));
      what = "one bit";
      break;
    default:
      what = "ones until the end";
      for (size_t i = static_cast<size_t>(uni(r, 0, L::siglen - 42)); i < L::siglen - 41; i++)
        sig[41 + i] = 0xff;
  }
  c.label(what);
  c.nontrivial();
  judge(c, h, msg, sig, what.c_str());
}

// genuine signatures by the library, and neighbours of them
PROPN(genuine, 640, 320, 40000, 20000)
{
  auto& t = c.t;
  const auto& k = lib::pick_key<N>(t);
  det::seed(t.u64());
  const bytes msg = t.chance(1, 6) ? lib::long_message(t) : lib::message(t, 2000);
  bytes sig(L::siglen);
  const bytes sk = ref::encode_sk<N>(k.f, k.g, k.F);
  c.require(falcon::sign<N>(sk.data(), msg.data(), msg.size(), sig.data()), "sign");
  c.nontrivial();
  c.label_if(msg.size() >= 65536, "message of 64 KiB or more");
  judge(c, k.h, msg, sig, "genuine");
  // (s2 + one unit): one coefficient changed
  auto s2 = ref::decompress(sig.data() + 41, L::sigbits, N);
  c.require(s2.has_value(), "the signature does not decode");
  (*s2)[t.below(N)] += t.range(-2, 2);
  const bytes sig2 = make_sig<N>(bytes(sig.begin() + 1, sig.begin() + 41), *s2);
  if (!sig2.empty())
    judge(c, k.h, msg, sig2, "neighbour");
}

// messages longer than 4 GiB: verification hashes all of it
PROPN(huge_messages, 24, 12, 200, 100)
{
  const auto& k = lib::pick_key<N>(c.t);
  Rng r(c.t.u64());
  const bytes pk = ref::encode_pk<N>(k.h);
  ivec s2 = gauss_vec(r, N, 100);
  fit<N>(s2);
  bytes sig = make_sig<N>(rnd_bytes(r, 40), s2);
  if (sig.empty())
    c.discard("does not fit");
  huge::absorbs_all(c, "verification", 40, [&](const uint8_t* const m, const size_t n) { c.require(!falcon::verify<N>(pk.data(), m, n, sig.data()), "an arbitrary signature is accepted"); });
}
