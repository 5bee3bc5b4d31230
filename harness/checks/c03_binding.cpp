// C03: a signature is bound to its key, message and exact bytes
#include "guard.hpp"
#include "huge.hpp"
#include "script.hpp"
using pbt::cat;
using namespace st;
using namespace tt;
using Pm = ref::P<N>;

struct state
{
  bytes pk, msg, sig;
  bool operator==(const state&) const = default;
};
template<size_t M = N>
static bool
accepts(const state& s)
{
  guard::buf pk(s.pk), msg(s.msg), sig(s.sig);
  return falcon::verify<M>(pk.data(), msg.data(), msg.size(), sig.data());
}
static cvec
gram(const lib::key& k, const int i, const int j)
{
  const cvec a = ref::fft_i(i ? k.G : k.g), b = ref::fft_i(i ? k.F : k.f), x = ref::fft_i(j ? k.G : k.g), y = ref::fft_i(j ? k.F : k.f);
  cvec r(N);
  for (size_t m = 0; m < N; m++)
    r[m] = a[m] * std::conj(x[m]) + b[m] * std::conj(y[m]);
  return r;
}
// a genuine signature: by the signer, or (exact) a lattice point with a short
// s2, which leaves room in the encoding
static bytes
genuine(pbt::Ctx& c, const lib::key& k, const bytes& msg, const bool roomy)
{
  if (roomy) {
    Rng r(c.t.u64());
    const bytes salt = rnd_bytes(r, 40);
    const ivec h2p = ref::hash_to_point(salt.data(), 40, msg.data(), msg.size(), N);
    ref::tree T = ref::ffldl(gram(k, 0, 0), gram(k, 1, 0), gram(k, 1, 1));
    normalise(T, Pm::sigma);
    std::vector<ld> a1(N), a2(N);
    const double w = c.t.real(5, 80);
    for (size_t i = 0; i < N; i++)
      a1[i] = static_cast<ld>(w * gauss(r)), a2[i] = static_cast<ld>(w * gauss(r));
    const auto cand = script::aim<N>(k, T, h2p, a1, a2);
    if (cand.norm <= Pm::beta2) {
      const bytes s = make_sig<N>(salt, cand.s2);
      if (!s.empty())
        return s;
    }
  }
  const bytes sk = ref::encode_sk<N>(k.f, k.g, k.F);
  bytes sig(Pm::siglen);
  det::seed(c.t.u64());
  c.require(falcon::sign<N>(sk.data(), msg.data(), msg.size(), sig.data()), "signing refused a valid secret key");
  return sig;
}
// re-encodes s2 after a change; false if that does not fit
static bool
put_s2(bytes& sig, const ivec& s2)
{
  const auto b = ref::compress(s2, Pm::sigbits);
  if (!b)
    return false;
  std::copy(b->begin(), b->end(), sig.begin() + 41);
  return true;
}
static size_t
place(pbt::Tape& t, const size_t n)
{
  switch (t.pick({ 3, 1, 1 })) {
    case 0:
      return t.below(n);
    case 1:
      return t.below(std::min<size_t>(n, 48));
    default:
      return n - 1 - t.below(std::min<size_t>(n, 16));
  }
}

static const char* edit_names[] = { "bit of the message",  "byte inserted into the message", "byte removed from the message", "bytes of the message exchanged",
                                    "another message",     "bit of the salt",                "bit of the encoded s2",         "signature header",
                                    "another signature",   "another salt, same s2",          "s2 negated",                    "s2 times a power of x",
                                    "a coefficient of s2 changed", "a coefficient of s2 changed by q", "negative zero",       "stray bits at the end",
                                    "bit of the public key", "public key header",            "another public key",            "a coefficient of h written as h + q",
                                    "h negated",           "h times a power of x" };
// returns false when the edit does not apply
static bool
edit(pbt::Ctx& c, state& s, const std::array<state, 3>& pool, const size_t op)
{
  auto& t = c.t;
  auto flip = [&](bytes& b, const size_t from, const size_t n) {
    for (size_t m = 1 + (t.below(4) == 0 ? t.below(4) : 0); m > 0; m--)
      b[from + place(t, n)] ^= static_cast<uint8_t>(1u << t.below(8));
  };
  const auto s2 = ref::decompress(s.sig.data() + 41, Pm::sigbits, N);
  const auto h = ref::decode_pk<N>(s.pk.data());
  switch (op) {
    case 0:
      if (s.msg.empty())
        return false;
      flip(s.msg, 0, s.msg.size());
      return true;
    case 1:
      s.msg.insert(s.msg.begin() + static_cast<long>(t.below(s.msg.size() + 1)), t.below(2) ? t.byte() : 0);
      return true;
    case 2:
      if (s.msg.empty())
        return false;
      s.msg.erase(s.msg.begin() + static_cast<long>(place(t, s.msg.size())));
      return true;
    case 3: {
      if (s.msg.size() < 2)
        return false;
      const size_t i = place(t, s.msg.size()), j = place(t, s.msg.size());
      std::swap(s.msg[i], s.msg[j]);
      return true;
    }
    case 4:
      s.msg = pool[1 + t.below(2)].msg;
      return true;
    case 5:
      flip(s.sig, 1, 40);
      return true;
    case 6:
      flip(s.sig, 41, Pm::siglen - 41);
      return true;
    case 7:
      s.sig[0] = t.below(3) ? static_cast<uint8_t>(s.sig[0] ^ (1u << t.below(8))) : t.below(2) ? t.byte() : ref::P<1536 - N>::sighdr;
      return true;
    case 8:
      s.sig = pool[1 + t.below(2)].sig;
      return true;
    case 9: {
      const auto& o = pool[1 + t.below(2)].sig;
      std::copy(o.begin() + 1, o.begin() + 41, s.sig.begin() + 1);
      return true;
    }
    case 10:
      return s2 && put_s2(s.sig, neg(*s2));
    case 11:
      return s2 && put_s2(s.sig, shift(*s2, 1 + t.below(2 * N - 1)));
    case 12: {
      if (!s2)
        return false;
      ivec v = *s2;
      v[t.below(N)] += t.below(2) ? 1 : -1;
      return put_s2(s.sig, v);
    }
    case 13: {
      if (!s2)
        return false;
      ivec v = *s2;
      auto& x = v[t.below(N)];
      x += x < 0 ? ref::Q : -ref::Q;
      return put_s2(s.sig, v);
    }
    case 14: { // sign bit of a coefficient that is zero
      if (!s2)
        return false;
      size_t at = 0, zeros = 0;
      const size_t want = t.below(4);
      for (size_t i = 0; i < N; i++) {
        const auto a = static_cast<size_t>(std::llabs((*s2)[i]));
        if (a == 0 && zeros++ == want) {
          s.sig[41 + at / 8] ^= static_cast<uint8_t>(0x80u >> (at % 8));
          return true;
        }
        at += 9 + a / 128;
      }
      return false;
    }
    case 15: { // bits after the last coefficient
      if (!s2)
        return false;
      const size_t used = ref::sig_bitlen(*s2);
      if (used >= Pm::sigbits)
        return false;
      for (size_t m = 1 + t.below(3); m > 0; m--) {
        const size_t b = t.below(2) ? used + t.below(Pm::sigbits - used) : Pm::sigbits - 1 - t.below(std::min<size_t>(8, Pm::sigbits - used));
        s.sig[41 + b / 8] ^= static_cast<uint8_t>(0x80u >> (b % 8));
      }
      return true;
    }
    case 16:
      flip(s.pk, 1, Pm::pklen - 1);
      return true;
    case 17:
      s.pk[0] = t.below(3) ? static_cast<uint8_t>(s.pk[0] ^ (1u << t.below(8))) : t.below(2) ? t.byte() : ref::P<1536 - N>::pkhdr;
      return true;
    case 18:
      s.pk = pool[2].pk;
      return true;
    case 19: { // the same residue, not canonical
      if (!h)
        return false;
      std::vector<size_t> ok;
      for (size_t i = 0; i < N; i++)
        if ((*h)[i] + ref::Q < 16384)
          ok.push_back(i);
      if (ok.empty())
        return false;
      ivec v = *h;
      v[ok[t.below(ok.size())]] += ref::Q;
      s.pk = ref::encode_pk<N>(v);
      return true;
    }
    case 20:
      if (!h)
        return false;
      s.pk = ref::encode_pk<N>(ref::modv(neg(*h)));
      return true;
    default:
      if (!h)
        return false;
      s.pk = ref::encode_pk<N>(ref::modv(shift(*h, 1 + t.below(2 * N - 1))));
      return true;
  }
}

PROPN(edit_histories, 1600, 800, 60000, 25000)
{
  const lib::key k = variant<N>(c.t);
  lib::key k2 = variant<N>(c.t);
  if (k2.h == k.h)
    k2 = { neg(k.f), k.g, k.F, neg(k.G), ref::modv(neg(k.h)) };
  const bytes m0 = c.t.chance(1, 10) ? lib::long_message(c.t) : lib::message(c.t, 600);
  bytes m1 = lib::message(c.t, 600);
  if (m1 == m0)
    m1.push_back(0);
  std::array<state, 3> pool;
  const bool roomy = c.t.below(2);
  const bytes pk = ref::encode_pk<N>(k.h), pk2 = ref::encode_pk<N>(k2.h);
  pool[0] = { pk, m0, genuine(c, k, m0, roomy) };
  pool[1] = { pk, m1, genuine(c, k, m1, false) };
  const bytes m2 = c.t.below(2) ? m0 : m1;
  pool[2] = { pk2, m2, genuine(c, k2, m2, false) };
  auto is_genuine = [&](const state& s) { return s == pool[0] || s == pool[1] || s == pool[2]; };
  // another key under which (c - s2 h, s2) is short for the signed message and
  // salt: valid by definition of the scheme (h times x^i and s2 times x^-i; or h
  // changed by 1 while s2 is unusually short).  Decided in exact integers.
  auto valid_under_other_key = [&](const state& s) {
    for (auto& p : pool)
      if (s.msg == p.msg && std::equal(s.sig.begin() + 1, s.sig.begin() + 41, p.sig.begin() + 1) && s.pk != p.pk)
        return ref::verify<N>(s.pk.data(), s.msg.data(), s.msg.size(), s.sig.data()).accept;
    return false;
  };
  std::vector<state> hist{ pool[0] };
  std::string told;
  uint64_t judged = 0;
  const size_t steps = 4 + c.t.below(12);
  for (size_t i = 0; i < steps; i++) {
    const size_t what = c.t.pick({ 6, 2, 1 });
    if (what == 1 && hist.size() > 1) {
      hist.pop_back();
      told += "undo; ";
    } else if (what == 2) {
      hist.resize(1);
      told += "undo all; ";
    } else {
      state s = hist.back();
      const size_t op = c.t.below(22);
      if (!edit(c, s, pool, op) || s == hist.back())
        continue;
      hist.push_back(s);
      told += cat(edit_names[op], "; ");
      c.label(edit_names[op]);
    }
    const bool want = is_genuine(hist.back()), got = accepts(hist.back());
    if (!want && valid_under_other_key(hist.back())) {
      c.label("not judged: short under the altered key");
      continue;
    }
    judged++;
    c.require(want == got, [&] {
      const auto& s = hist.back();
      return cat(want ? "rejected although all changes are undone" : "accepted although it is not what was signed", ", after: ", told, " pk ", ref::hex(s.pk.data(), s.pk.size()), " msg ",
                 ref::hex(s.msg.data(), s.msg.size()), " sig ", ref::hex(s.sig.data(), s.sig.size()));
    });
    c.label(want ? "judged: genuine" : "judged: altered");
  }
  hist.resize(1);
  c.require(accepts(hist[0]), "the original is rejected after the history");
  c.extra_evals += judged;
  if (c.verbose)
    c.desc << told;
  if (judged)
    c.nontrivial();
}

// every single bit of one genuine triple
PROPN(every_bit, 64, 64, 640, 640)
{
  // case i takes a slice of all bit positions
  constexpr size_t slices = 64;
  const size_t slice = c.t.enumerate(slices);
  const auto& k = lib::keys<N>()[(slice + c.t.index / slices) % lib::keys<N>().size()];
  bytes msg(48);
  for (size_t i = 0; i < msg.size(); i++)
    msg[i] = static_cast<uint8_t>(7 * i + slice);
  state s{ ref::encode_pk<N>(k.h), msg, genuine(c, k, msg, false) };
  c.require(accepts(s), "a genuine signature is rejected");
  for (auto* b : { &s.pk, &s.msg, &s.sig })
    for (size_t i = slice; i < b->size() * 8; i += slices) {
      (*b)[i / 8] ^= static_cast<uint8_t>(1u << (i % 8));
      // (a public key coefficient changed by 1 can leave a short signature short)
      c.require(!accepts(s) || (b == &s.pk && ref::verify<N>(s.pk.data(), s.msg.data(), s.msg.size(), s.sig.data()).accept),
                [&] { return cat("accepted with bit ", i % 8, " of byte ", i / 8, " of the ", b == &s.pk ? "public key" : b == &s.msg ? "message" : "signature", " flipped"); });
      (*b)[i / 8] ^= static_cast<uint8_t>(1u << (i % 8));
      c.extra_evals++;
    }
  c.require(accepts(s), "rejected after undoing all changes");
  if (c.verbose)
    c.desc << "bits " << slice << ", " << slice + slices << ", ... of key, message and signature";
  c.nontrivial();
}

// every header value, in each of the three places
PROPN(headers, 256, 256, 256, 256)
{
  const auto v = static_cast<uint8_t>(c.t.enumerate(256));
  const lib::key k = variant<N>(c.t);
  const bytes msg = lib::message(c.t, 100), sk = ref::encode_sk<N>(k.f, k.g, k.F);
  state s{ ref::encode_pk<N>(k.h), msg, genuine(c, k, msg, false) };
  c.require(accepts(s), "a genuine signature is rejected");
  state a = s, b = s;
  a.pk[0] = v;
  c.require(accepts(a) == (v == Pm::pkhdr), [&] { return cat("public key header ", static_cast<int>(v)); });
  b.sig[0] = v;
  c.require(accepts(b) == (v == Pm::sighdr), [&] { return cat("signature header ", static_cast<int>(v)); });
  bytes sk2 = sk, out(Pm::siglen);
  sk2[0] = v;
  c.require(falcon::sign<N>(sk2.data(), msg.data(), msg.size(), out.data()) == (v == Pm::skhdr), [&] { return cat("secret key header ", static_cast<int>(v)); });
  c.extra_evals += 2;
  c.nontrivial();
}

// artefacts of the other parameter set, in buffers long enough for this one
PROPN(other_parameter_set, 400, 400, 10000, 10000)
{
  constexpr size_t M = 1536 - N;
  const lib::key k = variant<N>(c.t), o = variant<M>(c.t);
  const bytes msg = lib::message(c.t, 300);
  const bytes osk = ref::encode_sk<M>(o.f, o.g, o.F);
  bytes osig(ref::P<M>::siglen), opk = ref::encode_pk<M>(o.h);
  det::seed(c.t.u64());
  c.require(falcon::sign<M>(osk.data(), msg.data(), msg.size(), osig.data()), "signing refused a valid secret key");
  const bytes osig0 = osig, opk0 = opk;
  Rng r(c.t.u64());
  const bool zeros = c.t.below(2);
  auto fit = [&](bytes b, const size_t n) {
    const size_t had = b.size();
    b.resize(n, 0);
    for (size_t i = had; i < n && !zeros; i++)
      b[i] = static_cast<uint8_t>(r.next());
    return b;
  };
  const state g{ ref::encode_pk<N>(k.h), msg, genuine(c, k, msg, false) };
  c.require(accepts(g), "a genuine signature is rejected");
  c.require(accepts<M>({ opk0, msg, osig0 }), "a genuine signature of the other parameter set is rejected");
  const bytes xpk = fit(opk, Pm::pklen), xsig = fit(osig, Pm::siglen), xsk = fit(osk, Pm::sklen);
  c.require(!accepts({ xpk, msg, g.sig }), "a public key of the other parameter set is accepted");
  c.require(!accepts({ g.pk, msg, xsig }), "a signature of the other parameter set is accepted");
  c.require(!accepts({ xpk, msg, xsig }), "key and signature of the other parameter set are accepted");
  bytes out(Pm::siglen);
  c.require(!falcon::sign<N>(xsk.data(), msg.data(), msg.size(), out.data()), "a secret key of the other parameter set is accepted");
  c.extra_evals += 4;
  if (c.verbose)
    c.desc << "padding " << (zeros ? "zero" : "random") << ", message of " << msg.size() << " bytes";
  c.nontrivial();
}

// long messages: every change, wherever it is, shows
PROPN(long_messages, 400, 240, 20000, 10000)
{
  const lib::key k = lib::pick_key<N>(c.t);
  state s{ ref::encode_pk<N>(k.h), lib::long_message(c.t), {} };
  s.sig = genuine(c, k, s.msg, false);
  const size_t n = s.msg.size();
  c.require(accepts(s), [&] { return cat("a genuine signature of a message of ", n, " bytes is rejected"); });
  for (int i = 0; i < 6; i++) {
    // a byte anywhere, at the end, or around a power of two
    size_t at = 0;
    switch (c.t.below(3)) {
      case 0:
        at = c.t.below(n);
        break;
      case 1:
        at = n - 1 - c.t.below(std::min<size_t>(n, 200));
        break;
      default: {
        const size_t p = 1ul << (4 + c.t.below(17));
        at = std::min(n - 1, p + c.t.below(3) - 1);
      }
    }
    state a = s;
    const size_t op = c.t.below(4);
    if (op == 0)
      a.msg[at] ^= static_cast<uint8_t>(1u << c.t.below(8));
    else if (op == 1)
      a.msg.resize(at);
    else if (op == 2)
      a.msg.resize(n + 1 + c.t.below(300));
    else
      a.msg.erase(a.msg.begin() + static_cast<ptrdiff_t>(at));
    c.require(!accepts(a), [&] { return cat("the signature of a message of ", n, " bytes is accepted for ", op == 0 ? "that message with a bit flipped in byte " : op == 1 ? "its first bytes, up to " : op == 2 ? "that message with zeros behind it, byte " : "that message without byte ", at); });
    c.extra_evals++;
  }
  if (c.verbose)
    c.desc << "message of " << n << " bytes";
  c.nontrivial();
}

// and longer than 4 GiB: all of it is hashed, on both sides
PROPN(huge_messages, 24, 12, 200, 100)
{
  const lib::key k = lib::pick_key<N>(c.t);
  const bytes sk = ref::encode_sk<N>(k.f, k.g, k.F), pk = ref::encode_pk<N>(k.h);
  bytes sig(Pm::siglen);
  det::seed(c.t.u64());
  huge::absorbs_all(c, "signing, then verification", 40, [&](const uint8_t* const m, const size_t n) {
    c.require(falcon::sign<N>(sk.data(), m, n, sig.data()), "signing refused a valid secret key");
    c.require(falcon::verify<N>(pk.data(), m, n, sig.data()), "the signature of a long message does not verify");
  });
}
