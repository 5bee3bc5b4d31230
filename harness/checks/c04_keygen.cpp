// C04: generated keypairs are always valid and loadable
#include "guard.hpp"
#include "keydraws.hpp"
using pbt::cat;
using namespace st;
using namespace tt;
using namespace kd;
constexpr size_t LG = Pm::logn;

// everything a keypair has to satisfy; returns f, g, F
static ref::sk_t<N>
judge(pbt::Ctx& c, const bytes& pk, const bytes& sk)
{
  const auto d = ref::decode_sk<N>(sk.data());
  c.require(d.has_value(), [&] { return cat("secret key header is ", static_cast<int>(sk[0])); });
  const auto h = ref::decode_pk<N>(pk.data());
  c.require(h.has_value(), [&] { return cat("the public key does not decode; header ", static_cast<int>(pk[0])); });
  const lib::key k{ d->f, d->g, d->F, {}, *h };
  auto told = [&] { return cat("; f=", ref::show(k.f, 1024), " g=", ref::show(k.g, 1024), " F=", ref::show(k.F, 1024)); };
  c.require(in_range(k.f, Pm::fgmax) && in_range(k.g, Pm::fgmax), [&] { return "f or g has a coefficient outside the format's range" + told(); });
  c.require(in_range(k.F, 127), [&] { return "F has a coefficient outside the format's range" + told(); });
  c.require(ref::invertible(k.f), [&] { return "f is not invertible modulo q" + told(); });
  c.require(ref::mulq_fast(ref::modv(k.f), *h) == ref::modv(k.g), [&] { return "f h != g modulo q" + told(); });
  ld first = 0;
  const ld gs = gs_norm(k.f, k.g, &first);
  c.require(gs <= LIMIT * (1 + 1e-9L), [&] { return cat("Gram-Schmidt norm ", static_cast<double>(std::sqrt(gs)), " exceeds 1.17 sqrt(q)", told()); });
  // G = (q + g F) / f, exactly
  const ivec gF = ref::mul(k.g, k.F);
  cvec num(N);
  {
    ivec t = gF;
    t[0] += ref::Q;
    num = ref::fft_i(t);
  }
  const cvec den = ref::fft_i(k.f);
  for (size_t i = 0; i < N; i++)
    num[i] /= den[i];
  num = ref::ifft(num);
  ivec G(N);
  for (size_t i = 0; i < N; i++)
    G[i] = std::llround(num[i].real());
  ivec e = ref::mul(k.f, G);
  for (size_t i = 0; i < N; i++)
    e[i] -= gF[i];
  e[0] -= ref::Q;
  c.require(ref::norm2(e) == 0, [&] { return "no integer G solves f G - g F = q for the decoded key" + told(); });
  // the library's own decoders agree
  guard::buf gp(pk), gs2(sk);
  std::vector<ff::ff_t> hh(N);
  c.require(decoding::decode_pkey<N>(gp.data(), hh.data()), "the library refuses its own public key");
  std::vector<int32_t> f(N), g(N), F(N), GG(N);
  c.require(decoding::decode_skey<N>(gs2.data(), f.data(), g.data(), F.data()), "the library refuses its own secret key");
  c.require(lib::from_ff(hh.data(), N) == *h && lib::from_i32(f.data(), N) == k.f && lib::from_i32(g.data(), N) == k.g && lib::from_i32(F.data(), N) == k.F,
            "the library decodes its own keypair to something else");
  falcon::recompute_G<N>(f.data(), g.data(), F.data(), GG.data());
  c.require(lib::from_i32(GG.data(), N) == G, [&] { return "the library recomputes another G" + told(); });
  c.extra_evals += 8;
  return *d;
}
static ref::sk_t<N>
generate(pbt::Ctx& c)
{
  guard::buf pk(Pm::pklen, 0xd7), sk(Pm::sklen, 0x3b, true);
  try {
    falcon::keygen<N>(pk.data(), sk.data());
  } catch (const shake256::probe::budget_exceeded&) {
    c.fail("key generation does not end: it reads random bytes without limit");
  }
  c.require(pk.intact() && sk.intact(), "key generation wrote outside the documented lengths");
  return judge(c, pk.vec(), sk.vec());
}

PROPNL(rejected_draws, 64, 24, 2000, 500, 120)
{
  Rng r(c.t.u64());
  bytes head;
  std::vector<pair_t> bad;
  std::vector<size_t> which;
  size_t costly = 0;
  for (size_t m = 1 + c.t.below(6); m > 0; m--) {
    const size_t kind = c.t.pick({ 4, 4, 3, 2, 2, 3, 2, 2 });
    if (kind >= 6 && costly++ > 0)
      continue; // each costs a run of the solver
    const auto p = bad_pair(c.t, r, kind);
    if (!p)
      continue;
    draw_bytes(r, p->f, head);
    draw_bytes(r, p->g, head);
    bad.push_back(*p);
    which.push_back(kind);
  }
  const lib::key k = variant<N>(c.t, false);
  const bool natural = c.t.below(6) == 0;
  if (!natural) {
    draw_bytes(r, k.f, head);
    draw_bytes(r, k.g, head);
  }
  script::install(head, c.t.u64());
  shake256::probe::st.budget = 400000000;
  if (c.verbose) {
    c.desc << "draws:";
    for (auto w : which)
      c.desc << " " << kinds[w] << ";";
    c.desc << (natural ? " then random" : " then a good one");
  }
  const auto d = generate(c);
  for (size_t i = 0; i < bad.size(); i++)
    c.require(!(bad[i].f == d.f && bad[i].g == d.g) || which[i] == 7, [&] { return cat("accepted a draw it has to discard: ", kinds[which[i]], "; f=", ref::show(d.f, 1024), " g=", ref::show(d.g, 1024)); });
  for (auto w : which)
    c.label(kinds[w]);
  if (d.f == k.f && d.g == k.g && !natural)
    c.label("ended with the scripted good draw (all others discarded)");
  c.nontrivial();
}

// natural and steered streams
PROPNL(streams, 24, 8, 1500, 300, 120)
{
  if (c.t.below(2)) {
    det::seed(c.t.u64());
    c.label("natural");
  } else {
    det::stream s;
    s.key = c.t.u64();
    for (size_t m = 1 + c.t.below(4); m > 0; m--)
      s.st.push_back({ c.t.below(300000), 1 + c.t.below(c.t.below(2) ? 100000 : 500), static_cast<int>(c.t.below(4)), c.t.byte() });
    s.install();
    c.label("with forced stretches");
  }
  shake256::probe::st.budget = 400000000;
  const auto d = generate(c);
  if (c.verbose)
    c.desc << "f=" << ref::show(d.f, 8) << " g=" << ref::show(d.g, 8);
  c.nontrivial();
}

// public key computation
PROPN(public_key, 2000, 1000, 60000, 30000)
{
  lib::key k = variant<N>(c.t);
  if (c.t.below(2)) {
    Rng r(c.t.u64());
    pair_t p = draw(r, WIDTH * (0.5 + u01(r)));
    if (!ref::invertible(p.f))
      c.discard("f not invertible");
    k.f = p.f, k.g = p.g;
    k.h = ref::divq(ref::modv(k.g), ref::modv(k.f));
  }
  std::vector<int32_t> f(N), g(N);
  lib::to_i32(k.f, f.data());
  lib::to_i32(k.g, g.data());
  std::vector<ff::ff_t> h(N);
  keygen::compute_public_key<N>(f.data(), g.data(), h.data());
  c.require(lib::from_ff(h.data(), N) == k.h, [&] { return "public key is not g / f; " + show(k); });
  c.require(lib::from_i32(f.data(), N) == k.f && lib::from_i32(g.data(), N) == k.g, "inputs were changed");
  c.nontrivial();
}

#ifndef PBT_PUBLIC_ONLY
// the tests of key generation themselves
PROPN(tests_of_draws, 1600, 800, 40000, 20000)
{
  Rng r(c.t.u64());
  pair_t p;
  const size_t kind = c.t.below(7);
  if (kind < 6) {
    const auto b = bad_pair(c.t, r, kind);
    if (!b)
      c.discard("no such pair found");
    p = *b;
  } else
    p = draw(r, WIDTH * (0.7 + 0.6 * u01(r)));
  std::vector<int32_t> f(N), g(N);
  lib::to_i32(p.f, f.data());
  lib::to_i32(p.g, g.data());
  const bool inv = ref::invertible(p.f);
  c.require(ntru_gen::is_poly_invertible<LG>(f.data()) == inv, [&] { return cat("invertibility of f should be ", inv, "; f=", ref::show(p.f, 1024)); });
  const ld gs = gs_norm(p.f, p.g);
  const double got = ntru_gen::gram_schmidt_norm<LG>(f.data(), g.data());
  c.require(std::fabs(static_cast<ld>(got) - gs) <= 1e-9L * gs,
            [&] { return cat("squared Gram-Schmidt norm is ", got, ", should be ", static_cast<double>(gs), "; f=", ref::show(p.f, 1024), " g=", ref::show(p.g, 1024)); });
  c.require(std::fabs(static_cast<ld>(ntru_gen::GS_NORM_THRESHOLD) - LIMIT) < 1e-6L, "the Gram-Schmidt threshold is not 1.17^2 q");
  c.label_if(!inv, "not invertible");
  c.label_if(gs > LIMIT, "norm too large");
  if (c.verbose)
    c.desc << "f=" << ref::show(p.f, 8) << " g=" << ref::show(p.g, 8) << " GS^2=" << static_cast<double>(gs);
  c.nontrivial();
}

// the expanded form of key generation agrees with itself and with the byte form
PROPNL(expanded_keygen, 8, 2, 200, 60, 120)
{
  const uint64_t e = c.t.u64();
  det::seed(e);
  const auto d = generate(c);
  det::seed(e);
  prng::prng_t rng;
  std::vector<fft::cmplx> B(4 * N), T((LG + 1) * N);
  std::vector<ff::ff_t> h(N);
  keygen::keygen<N>(B.data(), T.data(), h.data(), Pm::sigma, rng);
  const ivec hh = lib::from_ff(h.data(), N);
  // which key it is follows from its basis
  const cvec b00 = ref::ifft(own<LG>(B.data())), b01 = ref::ifft(own<LG>(B.data() + N)), b10 = ref::ifft(own<LG>(B.data() + 2 * N)), b11 = ref::ifft(own<LG>(B.data() + 3 * N));
  ivec f(N), g(N), F(N), G(N);
  for (size_t i = 0; i < N; i++)
    g[i] = std::llround(b00[i].real()), f[i] = -std::llround(b01[i].real()), G[i] = std::llround(b10[i].real()), F[i] = -std::llround(b11[i].real());
  ivec x = ref::mul(f, G), y = ref::mul(g, F);
  for (size_t i = 0; i < N; i++)
    x[i] -= y[i];
  x[0] -= ref::Q;
  c.require(ref::norm2(x) == 0, "the basis does not hold a solution of f G - g F = q");
  c.require(ref::mulq_fast(ref::modv(f), hh) == ref::modv(g), "f h != g modulo q");
  c.label_if(f == d.f && g == d.g, "same key as the byte form for the same randomness");
  const auto E = lib::expand<N>(f, g, F, G);
  for (size_t i = 0; i < T.size(); i++)
    c.require(std::abs(T[i] - E.T[i]) <= 1e-6 * (1 + std::abs(E.T[i])), [&] { return cat("tree value ", i, " is ", T[i], ", from the loaded key ", E.T[i]); });
  c.nontrivial();
}
#endif
