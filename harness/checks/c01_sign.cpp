// C01: every honestly produced signature verifies
#include "guard.hpp"
#include "huge.hpp"
#include "script.hpp"
using pbt::cat;
using namespace st;
using namespace tt;
using Pm = ref::P<N>;

static bytes
pk_of(const lib::key& k)
{
  return ref::encode_pk<N>(k.h);
}
// One call.  precomputed: through the expanded key and this generator.
static bytes
call(pbt::Ctx& c, const bytes& sk, const lib::expanded<N>* x, prng::prng_t* rng, const bytes& msg, const bool low)
{
  guard::buf out(Pm::siglen, 0xa7, low);
  guard::buf m(msg, low);
  try {
    if (x)
      falcon::sign<N>(x->B.data(), x->T.data(), m.data(), m.size(), out.data(), *rng);
    else {
      guard::buf s(sk, low);
      c.require(falcon::sign<N>(s.data(), m.data(), m.size(), out.data()), "signing refused a valid secret key");
    }
  } catch (const shake256::probe::budget_exceeded&) {
    c.fail("signing does not end: it reads random bytes without limit");
  }
  c.require(out.intact(), "signing wrote outside the documented signature length");
  return out.vec();
}
static ref::verdict
judge(pbt::Ctx& c, const bytes& pk, const bytes& msg, const bytes& sig, const lib::key& k)
{
  const auto v = ref::verify<N>(pk.data(), msg.data(), msg.size(), sig.data());
  c.require(sig[0] == Pm::sighdr, [&] { return cat("signature header is ", static_cast<int>(sig[0])); });
  c.require(v.accept, [&] {
    return cat("emitted signature is not valid by the specification: ", v.decoded ? "squared norm " : "does not decode",
               v.decoded ? std::to_string(v.norm) : "", "; key ", show(k), "; sig ", ref::hex(sig.data(), sig.size()));
  });
  c.require(lib_verify_pk<N>(pk, msg, sig), [&] { return cat("emitted signature (squared norm ", v.norm, ") is rejected by verification; key ", show(k), "; sig ", ref::hex(sig.data(), sig.size())); });
  c.extra_evals++;
  return v;
}
constexpr uint64_t BUDGET = 4000000; // a run of fast Fourier sampling reads 20-40 kB

// honest use: keys, messages, both calls, several signatures per expansion
PROPN(honest, 1600, 700, 40000, 16000)
{
  const lib::key k = variant<N>(c.t);
  const bytes sk = ref::encode_sk<N>(k.f, k.g, k.F), pk = pk_of(k);
  const bool pre = c.t.below(2), low = c.t.below(2);
  const size_t count = 1 + c.t.below(3);
  det::seed(c.t.u64());
  shake256::probe::st.budget = BUDGET;
  lib::expanded<N> x;
  std::optional<prng::prng_t> rng;
  if (pre)
    x = lib::expand<N>(k), rng.emplace();
  for (size_t i = 0; i < count; i++) {
    const bytes msg = c.t.chance(1, 8) ? lib::long_message(c.t) : lib::message(c.t, 20000);
    const bytes sig = call(c, sk, pre ? &x : nullptr, pre ? &*rng : nullptr, msg, low);
    const auto v = judge(c, pk, msg, sig, k);
    if (c.verbose)
      c.desc << (pre ? "precomputed" : "one-shot") << ", message of " << msg.size() << " bytes, squared norm " << v.norm << "; ";
    c.label_if(msg.empty(), "empty message");
    c.label_if(msg.size() >= 65536, "message of 64 KiB or more");
  }
  c.label(pre ? "precomputed expansion" : "one-shot");
  c.nontrivial();
}

// messages longer than 4 GiB: all of it is signed, and the signature verifies
// (the sponge counts what it is given and hashes nothing, on both sides)
PROPN(huge_messages, 24, 12, 200, 100)
{
  const lib::key k = lib::pick_key<N>(c.t);
  const bytes sk = ref::encode_sk<N>(k.f, k.g, k.F), pk = pk_of(k);
  const bool pre = c.t.below(2);
  det::seed(c.t.u64());
  lib::expanded<N> x;
  std::optional<prng::prng_t> rng;
  if (pre)
    x = lib::expand<N>(k), rng.emplace();
  bytes sig(Pm::siglen);
  huge::absorbs_all(c, "signing", 40, [&](const uint8_t* const m, const size_t n) {
    if (pre)
      falcon::sign<N>(x.B.data(), x.T.data(), m, n, sig.data(), *rng);
    else
      c.require(falcon::sign<N>(sk.data(), m, n, sig.data()), "signing refused a valid secret key");
    c.require(falcon::verify<N>(pk.data(), m, n, sig.data()), "the signature of a long message does not verify");
  });
}

// stretches of extreme bytes in the random stream
PROPN(steered, 1200, 500, 30000, 12000)
{
  const lib::key k = variant<N>(c.t);
  const bytes sk = ref::encode_sk<N>(k.f, k.g, k.F), pk = pk_of(k), msg = lib::message(c.t, 300);
  det::stream s;
  s.key = c.t.u64();
  bool zeros = false;
  for (size_t m = 1 + c.t.below(5); m > 0; m--) {
    const uint64_t at = c.t.below(2) ? 40 + c.t.below(200) : c.t.below(60000), len = 1 + c.t.below(c.t.below(2) ? 60000 : 600);
    const int kind = static_cast<int>(c.t.below(4));
    s.st.push_back({ at, len, kind, c.t.byte() });
    zeros |= kind == 0 && len > 5000 && at < 20000;
  }
  s.install();
  shake256::probe::st.budget = BUDGET;
  const bool pre = c.t.below(2);
  lib::expanded<N> x;
  std::optional<prng::prng_t> rng;
  if (pre)
    x = lib::expand<N>(k), rng.emplace();
  const bytes sig = call(c, sk, pre ? &x : nullptr, pre ? &*rng : nullptr, msg, c.t.below(2));
  const auto v = judge(c, pk, msg, sig, k);
  c.label_if(zeros, "long run of zeros (extreme lattice points)");
  c.label_if(shake256::probe::st.total_read > 60000, "more than one candidate drawn");
  if (c.verbose)
    c.desc << s.st.size() << " stretches, " << shake256::probe::st.total_read << " random bytes read, squared norm " << v.norm;
  c.nontrivial();
}

// candidates chosen beforehand: the random bytes lead the signer to a lattice
// point of chosen norm and shape
static int64_t
enc_bits(const ivec& s2)
{
  return static_cast<int64_t>(ref::sig_bitlen(s2));
}
PROPNL(chosen_candidates, 700, 320, 20000, 10000, 120)
{
  const lib::key k = variant<N>(c.t);
  const bytes sk = ref::encode_sk<N>(k.f, k.g, k.F), pk = pk_of(k), msg = lib::message(c.t, 200);
  Rng r(c.t.u64());
  const bytes salt = rnd_bytes(r, 40);
  const ivec h2p = ref::hash_to_point(salt.data(), 40, msg.data(), msg.size(), N);
  const cvec b00 = ref::fft_i(k.g), b01 = ref::fft_i(neg(k.f)), b10 = ref::fft_i(k.G), b11 = ref::fft_i(neg(k.F));
  cvec g00(N), g10(N), g11(N);
  for (size_t i = 0; i < N; i++) {
    g00[i] = std::norm(b00[i]) + std::norm(b01[i]);
    g10[i] = b10[i] * std::conj(b00[i]) + b11[i] * std::conj(b01[i]);
    g11[i] = std::norm(b10[i]) + std::norm(b11[i]);
  }
  ref::tree T = ref::ffldl(g00, g10, g11);
  normalise(T, Pm::sigma);

  const size_t kind = c.t.pick({ 2, 4, 4, 4, 3, 3, 3 });
  static const char* names[] = { "short",          "close to the bound", "within the bound, encoding too long or nearly so",
                                 "few large coefficients in s2", "few large coefficients in s1", "far beyond the bound",
                                 "norm just above a multiple of 2^31" };
  std::vector<ld> a1(N), a2(N), u1(N), u2(N);
  for (size_t i = 0; i < N; i++)
    u1[i] = static_cast<ld>(gauss(r)), u2[i] = static_cast<ld>(gauss(r));
  const ld B2 = static_cast<ld>(Pm::beta2);
  ld target = B2;
  const double f = c.t.real(0, 1);
  std::vector<size_t> big;
  switch (kind) {
    case 0:
      target = B2 * static_cast<ld>(0.1 + 0.8 * f);
      break;
    case 1:
      target = B2 * static_cast<ld>(0.997 + 0.006 * f);
      break;
    case 2: { // s1 small; s2 takes almost everything
      target = B2 * static_cast<ld>(0.45 + 0.55 * f);
      for (auto& x : u1)
        x *= 0.05L;
      break;
    }
    case 3:
    case 4: { // large entries
      auto& u = kind == 3 ? u2 : u1;
      for (auto& x : u1)
        x *= 0.1L;
      for (auto& x : u2)
        x *= 0.1L;
      const size_t m = 1 + c.t.below(12);
      for (size_t i = 0; i < m; i++)
        u[static_cast<size_t>(uni(r, 0, N - 1))] = (r.next() & 1 ? 1 : -1) * static_cast<ld>(10 + 30 * u01(r));
      target = B2 * static_cast<ld>(0.4 + 0.65 * f);
      break;
    }
    case 5:
      target = B2 * static_cast<ld>(std::exp2(0.02 + 6 * f));
      break;
    default:
      target = 2147483648.0L * static_cast<ld>(1 + c.t.below(2)) + B2 * static_cast<ld>(0.2 + 0.6 * f);
  }
  script::candidate cand, best;
  ld scale = 1, dist = 1e30L;
  {
    ld s = 0;
    for (size_t i = 0; i < N; i++)
      s += u1[i] * u1[i] + u2[i] * u2[i];
    scale = std::sqrt(target / s);
  }
  for (int it = 0; it < (kind == 1 || kind == 6 ? 5 : 2); it++) {
    for (size_t i = 0; i < N; i++)
      a1[i] = u1[i] * scale, a2[i] = u2[i] * scale;
    cand = script::aim<N>(k, T, h2p, a1, a2);
    const ld d = std::fabs(static_cast<ld>(cand.norm) - target);
    if (d < dist)
      dist = d, best = cand;
    if (d < target * 5e-4L)
      break;
    // the rounding to the lattice adds a part that does not depend on the scale
    ld s = 0;
    for (size_t i = 0; i < N; i++)
      s += a1[i] * a1[i] + a2[i] * a2[i];
    const ld want = s + (target - static_cast<ld>(cand.norm));
    if (want <= 0)
      break;
    scale *= std::sqrt(want / s);
  }
  cand = best;
  int64_t m1 = 0, m2 = 0;
  for (auto x : cand.s1)
    m1 = std::max<int64_t>(m1, std::llabs(x));
  for (auto x : cand.s2)
    m2 = std::max<int64_t>(m2, std::llabs(x));
  const bool fits = enc_bits(cand.s2) <= static_cast<int64_t>(Pm::sigbits), is_short = cand.norm <= Pm::beta2;
  // one that is not to be emitted may come many times in a row
  const size_t rows = fits && is_short ? 1 : c.t.pick({ 3, 1, 1 });
  const size_t times = rows == 0 || (fits && is_short) ? 1 : rows == 1 ? 2 + c.t.below(5) : 7 + c.t.below(30);
  bytes head = salt;
  for (size_t i = 0; i < times; i++)
    head.insert(head.end(), cand.stream.begin(), cand.stream.end());
  script::install(head, c.t.u64());
  shake256::probe::st.budget = BUDGET;
  const bool pre = c.t.below(2);
  lib::expanded<N> x;
  std::optional<prng::prng_t> rng;
  if (pre)
    x = lib::expand<N>(k), rng.emplace();
  const bytes sig = call(c, sk, pre ? &x : nullptr, pre ? &*rng : nullptr, msg, c.t.below(2));
  const auto v = judge(c, pk, msg, sig, k);
  const bool same_salt = bytes(sig.begin() + 1, sig.begin() + 41) == salt;
  c.label(cat("candidate: ", names[kind]));
  if (!same_salt) {
    c.label("the signer drew another salt (candidate not delivered)");
  } else if (v.s2 == cand.s2) {
    c.label("signature is the chosen candidate");
    c.label_if(m2 >= 1024, "emitted coefficient of 1024 or more");
    c.label_if(static_cast<ld>(cand.norm) > 0.997L * B2, "emitted with norm within 0.3 % of the bound");
  } else if (!cand.doubt) {
    c.label_if(times > 1, "redrawn: after the same candidate several times in a row");
    c.label_if(!is_short, "redrawn: candidate above the norm bound");
    c.label_if(!is_short && static_cast<ld>(cand.norm) < 1.003L * B2, "redrawn: norm less than 0.3 % above the bound");
    c.label_if(is_short && !fits, "redrawn: short candidate does not fit the signature");
    c.label_if(is_short && fits, "short fitting candidate not emitted");
  } else
    c.label("candidate depends on rounding");
  if (c.verbose)
    c.desc << names[kind] << ": candidate norm " << cand.norm << ", encoding " << enc_bits(cand.s2) << " of " << Pm::sigbits << " bits, largest |s1| " << m1 << " |s2| " << m2
           << "; emitted norm " << v.norm << (v.s2 == cand.s2 ? " (the candidate)" : " (redrawn)");
  c.nontrivial();
}

// keys straight from key generation
PROPNL(fresh_keys, 24, 8, 400, 120, 120)
{
  det::seed(c.t.u64());
  bytes pk(Pm::pklen), sk(Pm::sklen);
  falcon::keygen<N>(pk.data(), sk.data());
  const auto d = ref::decode_sk<N>(sk.data());
  c.require(d.has_value(), "the generated secret key does not decode");
  lib::key k{ d->f, d->g, d->F, ivec(N, 0), {} };
  const auto sigs = c.t.range(8, 24);
  for (int64_t i = 0; i < sigs; i++) {
    const bytes msg = lib::message(c.t, 2000);
    const bytes sig = call(c, sk, nullptr, nullptr, msg, c.t.below(2));
    judge(c, pk, msg, sig, k);
  }
  if (c.verbose)
    c.desc << sigs << " signatures; " << show(k);
  c.nontrivial();
}
