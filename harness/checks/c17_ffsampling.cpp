// C17: fast Fourier sampling returns close integer vectors
#include "ffmodel.hpp"
using pbt::cat;
using namespace st;
using namespace tt;
using namespace ffm;

static det::stream
streams(pbt::Tape& t, const uint64_t span)
{
  det::stream s;
  s.key = t.u64();
  for (size_t k = t.pick({ 3, 1, 1, 1 }); k > 0; k--)
    s.st.push_back({ t.below(span), 1 + t.below(60), static_cast<int>(t.below(4)), t.byte() });
  return s;
}
template<size_t L>
static void
round_back(pbt::Ctx& c, std::vector<fft::cmplx> z, const ivec& want, const char* what, const std::string& info)
{
  constexpr size_t n = 1ul << L;
  const cvec v = ref::ifft(own<L>(z.data()));
  ld big = 1;
  for (auto x : want)
    big = std::max(big, std::fabs(static_cast<ld>(x)));
  for (size_t i = 0; i < n; i++) {
    const auto r = std::llround(v[i].real());
    c.require(std::abs(v[i] - cld(static_cast<ld>(r))) <= 1e-11L * big + 1e-9L, [&] { return cat(what, " has the coefficient ", cd(static_cast<double>(v[i].real()), static_cast<double>(v[i].imag())), " at ", i, ", no integer; ", info); });
    c.require(r == want[i], [&] { return cat(what, " has coefficient ", i, " = ", r, ", the specification's sampler gives ", want[i], "; ", info); });
  }
}

// random tree: values of L10 of the given size, leaves in the valid range
static ref::tree
random_tree(Rng& r, const size_t n, const double smin, const double top, const int kind)
{
  ref::tree t;
  if (n == 1) {
    const double u = kind == 1 ? 0.0 : kind == 2 ? 1.0 : u01(r);
    t.leaf = smin + (ref::SIGMA_MAX - smin) * u;
    return t;
  }
  // transform of a real polynomial
  cvec a(n);
  for (auto& x : a)
    x = static_cast<ld>(top * gauss(r) / std::sqrt(static_cast<double>(n)));
  t.l10 = ref::fft(a);
  // as doubles, the way the library holds them
  t.kids.push_back(random_tree(r, n / 2, smin, 0.4, kind));
  t.kids.push_back(random_tree(r, n / 2, smin, 0.4, kind));
  return t;
}
template<size_t L>
static void
arbitrary(pbt::Ctx& c)
{
  constexpr size_t n = 1ul << L;
  const double smin = c.t.below(2) ? ref::P<512>::sigma_min : ref::P<1024>::sigma_min;
  const int kind = static_cast<int>(c.t.pick({ 4, 1, 1 })), target = static_cast<int>(c.t.pick({ 4, 2, 1, 1, 1 }));
  const auto mag = static_cast<double>(1ull << c.t.below(14));
  const auto s = streams(c.t, n * 60);
  Rng r(c.t.u64());
  ref::tree T = random_tree(r, n, smin, 3.0 * u01(r), kind);
  cvec t0(n), t1(n);
  for (auto* t : { &t0, &t1 })
    for (auto& x : *t)
      x = target == 0 ? static_cast<ld>(mag * gauss(r)) : target == 1 ? static_cast<ld>(uni(r, -100, 100)) + 0.37L * static_cast<ld>(u01(r)) : target == 2 ? static_cast<ld>(uni(r, -4000, 4000)) + 0.5L : static_cast<ld>(0.3 * u01(r));
  if (target == 4) { // constant integers: nothing is rounded until a sample misses its centre
    std::fill(t0.begin(), t0.end(), 0), std::fill(t1.begin(), t1.end(), 0);
    if (uni(r, 0, 3) > 0)
      t0[0] = static_cast<ld>(uni(r, -300, 300)), t1[0] = static_cast<ld>(uni(r, -300, 300));
  }
  t0 = ref::fft(t0), t1 = ref::fft(t1);
  std::vector<fft::cmplx> TT((L + 1) * n), a(n), b(n), z0(n, cd(1e30)), z1(n, cd(-1e30));
  lib_tree<L, L>(T, TT.data());
  to_lib<L>(t0, a.data());
  to_lib<L>(t1, b.data());
  const auto a0 = a, b0 = b, TT0 = TT;
  const run_t want = model(own<L>(a.data()), own<L>(b.data()), own_tree<L, L>(TT.data()), smin, s, target == 4);
  auto info = [&] { return cat("n=", n, " sigma_min=", smin, " leaves kind ", kind, " target kind ", target, " size ", mag, " stream key ", s.key, " stretches ", s.st.size()); };
  if (c.verbose)
    c.desc << info();
  if (want.ambiguous)
    c.discard("outcome within rounding errors");
  s.install();
  prng::prng_t rng;
  ffsampling::ff_sampling<n, 0, L>(a.data(), b.data(), TT.data(), smin, z0.data(), z1.data(), rng);
  round_back<L>(c, z0, want.z0, "z0", info());
  round_back<L>(c, z1, want.z1, "z1", info());
  c.require(lib::handed_out(rng, want.used, s), [&] { return cat("reads ", shake256::probe::st.total_read, " random bytes, the specification's sampler ", want.used, "; ", info()); });
  c.require(!std::memcmp(a.data(), a0.data(), n * sizeof(cd)) && !std::memcmp(b.data(), b0.data(), n * sizeof(cd)) && !std::memcmp(TT.data(), TT0.data(), TT.size() * sizeof(cd)), "target or tree changed");
  c.label(cat("size ", n));
  c.label_if(target == 4, "integer target");
  c.label_if(want.dev > 8, "a leaf more than 8 sigma' off");
  c.nontrivial();
  c.extra_evals += 2 * n;
}
template<size_t... I, typename FN>
static void
dispatch(const size_t lg, std::index_sequence<I...>, FN f)
{
  (void)((lg == I + 1 ? (f(std::integral_constant<size_t, I + 1>{}), true) : false) || ...);
}
PROPN(any_tree, 42000, 0, 600000, 0)
{
  const size_t lg = 1 + c.t.enumerate(7);
  dispatch(lg, std::make_index_sequence<7>{}, [&](auto k) { arbitrary<k()>(c); });
}
PROPN(any_tree_full, 1200, 600, 16000, 8000)
{
  arbitrary<ref::P<N>::logn>(c);
}

// genuine keys, hashed messages
PROPN(lattice_points, 1200, 600, 16000, 8000)
{
  constexpr size_t L = ref::P<N>::logn;
  const lib::key k = variant<N>(c.t);
  const bytes msg = lib::message(c.t, 200);
  const bool natural = c.t.below(3) > 0;
  auto s = natural ? det::stream{ c.t.u64(), {} } : streams(c.t, N * 60);
  Rng r(c.t.u64());
  const bytes salt = rnd_bytes(r, 40);
  if (c.verbose)
    c.desc << show(k) << " stream key " << s.key << " stretches " << s.st.size();
  const auto x = lib::expand<N>(k);
  const ivec cc = ref::hash_to_point(salt.data(), 40, msg.data(), msg.size(), N);
  // t = (c, 0) B^-1
  const cvec C = ref::fft_i(cc), ff = ref::fft_i(k.f), FF = ref::fft_i(k.F);
  cvec t0(N), t1(N);
  for (size_t i = 0; i < N; i++)
    t0[i] = -C[i] * FF[i] / static_cast<ld>(ref::Q), t1[i] = C[i] * ff[i] / static_cast<ld>(ref::Q);
  std::vector<fft::cmplx> a(N), b(N), z0(N), z1(N);
  to_lib<L>(t0, a.data());
  to_lib<L>(t1, b.data());
  const run_t want = model(own<L>(a.data()), own<L>(b.data()), own_tree<L, L>(x.T.data()), ref::P<N>::sigma_min, s);
  auto info = [&] { return cat(show(k), " stream key ", s.key, " stretches ", s.st.size()); };
  if (want.ambiguous)
    c.discard("outcome within rounding errors");
  s.install();
  prng::prng_t rng;
  ffsampling::ff_sampling<N, 0, L>(a.data(), b.data(), x.T.data(), ref::P<N>::sigma_min, z0.data(), z1.data(), rng);
  round_back<L>(c, z0, want.z0, "z0", info());
  round_back<L>(c, z1, want.z1, "z1", info());
  // s = (c, 0) - z B, in integers: s1 = c - z0 g - z1 G, s2 = z0 f + z1 F
  const ivec p = ref::mul(want.z0, k.g), q = ref::mul(want.z1, k.G), u = ref::mul(want.z0, k.f), v = ref::mul(want.z1, k.F);
  ivec s1(N), s2(N), want_c(N);
  for (size_t i = 0; i < N; i++)
    s1[i] = cc[i] - p[i] - q[i], s2[i] = u[i] + v[i];
  const ivec h2 = ref::mulq_fast(s2, k.h);
  for (size_t i = 0; i < N; i++)
    c.require(ref::mod(s1[i] + h2[i] - cc[i]) == 0, [&] { return cat("s1 + s2 h != c at ", i, "; ", info()); });
  const ld ratio = static_cast<ld>(ref::norm2(s1) + ref::norm2(s2)) / (2 * N * static_cast<ld>(ref::P<N>::sigma) * ref::P<N>::sigma);
  if (natural)
    c.require(ratio > 0.65L && ratio < 1.35L, [&] { return cat("squared distance is ", static_cast<double>(ratio), " times 2 N sigma^2; ", info()); });
  c.label(natural ? ratio > 1.21L ? "above the bound" : "natural stream" : "steered stream");
  c.nontrivial();
  c.extra_evals += 4 * N;
}
