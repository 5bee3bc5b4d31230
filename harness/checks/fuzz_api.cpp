// Coverage-guided: every entry point that takes bytes, with sanitizers, in heap
// blocks of exactly the documented sizes
#include "fuzz.hpp"
#include "lib.hpp"
using pbt::cat;
using ref::bytes;

struct src
{
  const uint8_t* d;
  size_t n;
  uint8_t byte()
  {
    if (n == 0)
      return 0;
    n--;
    return *d++;
  }
};
struct block
{
  std::unique_ptr<uint8_t[]> p;
  size_t n;
  explicit block(const size_t n_)
    : p(new uint8_t[n_ ? n_ : 1])
    , n(n_)
  {
    std::memset(p.get(), 0, n ? n : 1);
  }
  void take(src& s, const size_t from)
  {
    for (size_t i = from; i < n && s.n; i++)
      p[i] = s.byte();
  }
};

template<size_t N>
static void
verify(src& s)
{
  using L = ref::P<N>;
  const uint8_t how = s.byte();
  block pk(L::pklen), sig(L::siglen);
  pk.p[0] = how & 1 ? s.byte() : L::pkhdr;
  sig.p[0] = how & 2 ? s.byte() : L::sighdr;
  sig.take(s, 41);
  if (how & 4) {
    const auto e = ref::encode_pk<N>(lib::keys<N>()[s.byte() % lib::keys<N>().size()].h);
    std::memcpy(pk.p.get() + 1, e.data() + 1, e.size() - 1);
    for (int i = 0; i < 4 && s.n; i++)
      pk.p[1 + (s.byte() | s.byte() << 8) % (L::pklen - 1)] ^= s.byte();
  } else
    pk.take(s, 1);
  block msg(s.n);
  msg.take(s, 0);
  const bool ok = falcon::verify<N>(pk.p.get(), msg.p.get(), msg.n, sig.p.get());
  if (ok && !ref::verify<N>(pk.p.get(), msg.p.get(), msg.n, sig.p.get()).accept)
    fz::fail("accepts what the specification refuses");
  fz::stats.labels[cat("verify<", N, "> ", ok ? "accepted" : "refused")]++;
}
template<size_t N>
static void
decode(src& s)
{
  using L = ref::P<N>;
  const uint8_t how = s.byte();
  if (how & 1) {
    block sk(L::sklen);
    sk.p[0] = how & 2 ? s.byte() : L::skhdr;
    sk.take(s, 1);
    std::unique_ptr<int32_t[]> f(new int32_t[N]), g(new int32_t[N]), F(new int32_t[N]);
    const bool ok = decoding::decode_skey<N>(sk.p.get(), f.get(), g.get(), F.get());
    if (ok != (sk.p[0] == L::skhdr))
      fz::fail("secret key header");
    if (ok) {
      block o(L::sklen);
      encoding::encode_skey<N>(f.get(), g.get(), F.get(), o.p.get());
      if (std::memcmp(o.p.get(), sk.p.get(), L::sklen))
        fz::fail("an accepted secret key does not encode back to the same bytes");
    }
    fz::stats.labels[cat("decode_skey<", N, "> ", ok)]++;
  } else {
    block pk(L::pklen);
    pk.p[0] = how & 2 ? s.byte() : L::pkhdr;
    pk.take(s, 1);
    std::unique_ptr<ff::ff_t[]> h(new ff::ff_t[N]);
    const bool ok = decoding::decode_pkey<N>(pk.p.get(), h.get());
    if (ok != ref::decode_pk<N>(pk.p.get()).has_value())
      fz::fail("public key accepted or refused wrongly");
    if (ok) {
      block o(L::pklen);
      encoding::encode_pkey<N>(h.get(), o.p.get());
      if (std::memcmp(o.p.get(), pk.p.get(), L::pklen))
        fz::fail("an accepted public key does not encode back to the same bytes");
    }
    fz::stats.labels[cat("decode_pkey<", N, "> ", ok)]++;
  }
}
// polynomials within the norm bound into the compressor
template<size_t N>
static void
compress(src& s)
{
  using L = ref::P<N>;
  std::unique_ptr<int32_t[]> p(new int32_t[N]);
  for (size_t i = 0; i < N; i++) {
    const int32_t v = s.byte() | s.byte() << 8;
    p[i] = (v & 1 ? -1 : 1) * ((v >> 1) % 12290);
  }
  block o(L::siglen);
  ref::ivec a(N);
  int64_t left = L::beta2; // signing compresses nothing longer
  for (size_t i = 0; i < N; i++) {
    if (static_cast<int64_t>(p[i]) * p[i] > left)
      p[i] %= 128;
    if (static_cast<int64_t>(p[i]) * p[i] > left)
      p[i] = 0;
    a[i] = p[i];
    left -= a[i] * a[i];
  }
  const bool ok = encoding::compress_sig<N, L::siglen>(p.get(), o.p.get());
  const auto want = ref::compress(a, L::sigbits);
  if (ok != want.has_value())
    fz::fail("compress_sig succeeds or fails wrongly");
  fz::stats.labels[cat("compress_sig<", N, "> ", ok)]++;
}
// one SamplerZ call on the fuzzer's bytes
static void
sampler(src& s)
{
  int32_t m = s.byte() | s.byte() << 8 | s.byte() << 16;
  const double mu = (m - (1 << 23)) / 256.0;
  const double sp = 1.2983 + (1.8205 - 1.2983) * s.byte() / 255.0;
  shake256::probe::st.reset();
  bytes b(s.d, s.d + s.n);
  auto pos = std::make_shared<uint64_t>(0);
  shake256::probe::st.source = [b, pos](uint64_t, uint8_t* p, size_t n) {
    for (size_t i = 0; i < n; i++, ++*pos)
      p[i] = *pos < b.size() ? b[*pos] : det::byte_of(77, *pos);
    return true;
  };
  shake256::probe::st.budget = 100000;
  prng::prng_t rng;
  const int64_t z = samplerz::samplerz(mu, sp, 1.298280334, rng);
  if (!(std::fabs(z - mu) < 21))
    fz::fail("sample far from its centre");
  shake256::probe::st.reset();
  fz::stats.labels["samplerz"]++;
}
extern "C" int
LLVMFuzzerTestOneInput(const uint8_t* d, size_t n)
{
  if (n == 0)
    return 0;
  fz::stats.evals++;
  src s{ d, n };
  const uint8_t op = s.byte();
  try {
  switch (op % 7) {
    case 0:
    case 1:
      verify<512>(s);
      break;
    case 2:
      verify<1024>(s);
      break;
    case 3:
      op & 0x80 ? decode<1024>(s) : decode<512>(s);
      break;
    case 4:
    case 5:
      op & 0x80 ? compress<1024>(s) : compress<512>(s);
      break;
    default:
      sampler(s);
  }
  } catch (const pbt::Absent& e) {
    fz::stats.labels["not in this tree: " + e.what]++;
  }
  if (n >= 16)
    fz::nontrivial(d, n);
  return 0;
}
