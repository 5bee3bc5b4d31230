// C16: a loaded secret key expands to the same basis and tree
#include "shape.hpp"
#include "treetools.hpp"
using pbt::cat;
using namespace st;
using namespace tt;
constexpr size_t LG = ref::P<N>::logn;
#ifdef PBT_MEASURE
static std::map<std::string, ld> worst;
#endif

// err <= tol * max(scale, largest value) for all values
static void
near(pbt::Ctx& c, const cvec& got, const cvec& want, const ld tol, const char* what, const lib::key* k = nullptr, ld scale = 0)
{
  for (auto& x : want)
    scale = std::max(scale, std::abs(x));
  for (size_t i = 0; i < got.size(); i++) {
    const ld e = std::abs(got[i] - want[i]);
#ifdef PBT_MEASURE
    auto& w = worst[what];
    if (scale > 0 && e / scale > w) {
      w = e / scale;
      std::fprintf(stderr, "worst %s %Lg\n", what, w);
    }
#endif
    c.require(e <= tol * scale, [&] {
      return cat(what, ", value ", i, " (model's order): ", cd(static_cast<double>(got[i].real()), static_cast<double>(got[i].imag())), ", exact ",
                 cd(static_cast<double>(want[i].real()), static_cast<double>(want[i].imag())), k ? "; " + show(*k) : std::string());
    });
  }
}
static void
same_tree(pbt::Ctx& c, const ref::tree& got, const ref::tree& want, const lib::key* k, const std::string& path = "root")
{
  if (want.kids.empty()) {
#ifdef PBT_MEASURE
    auto& w = worst["leaf"];
    if (std::fabs(got.leaf / want.leaf - 1) > w)
      w = std::fabs(got.leaf / want.leaf - 1), std::fprintf(stderr, "worst leaf %Lg\n", w);
#endif
    c.require(std::fabs(got.leaf - want.leaf) <= 1e-9L * want.leaf,
              [&] { return cat("leaf ", path, " is ", static_cast<double>(got.leaf), ", sigma/sqrt(D) = ", static_cast<double>(want.leaf), k ? "; " + show(*k) : std::string()); });
    return;
  }
  // below the root, L10 is d1 / d0 with |d1| < d0: errors are relative to 1
  near(c, got.l10, want.l10, 1e-9L, ("tree node " + path).c_str(), k, path == "root" ? 0 : 1);
  same_tree(c, got.kids[0], want.kids[0], k, path + "/L");
  same_tree(c, got.kids[1], want.kids[1], k, path + "/R");
}
static void
leaves(const ref::tree& t, ld& lo, ld& hi)
{
  if (t.kids.empty())
    lo = std::min(lo, t.leaf), hi = std::max(hi, t.leaf);
  for (auto& k : t.kids)
    leaves(k, lo, hi);
}
struct gram
{
  cvec g00, g01, g10, g11;
};
static gram
gram_of(const cvec& b00, const cvec& b01, const cvec& b10, const cvec& b11)
{
  const size_t n = b00.size();
  gram g{ cvec(n), cvec(n), cvec(n), cvec(n) };
  for (size_t i = 0; i < n; i++) {
    g.g00[i] = std::norm(b00[i]) + std::norm(b01[i]);
    g.g01[i] = b00[i] * std::conj(b10[i]) + b01[i] * std::conj(b11[i]);
    g.g10[i] = b10[i] * std::conj(b00[i]) + b11[i] * std::conj(b01[i]);
    g.g11[i] = std::norm(b10[i]) + std::norm(b11[i]);
  }
  return g;
}

PROPN(expansion, 1200, 400, 20000, 8000)
{
  lib::key k = variant<N>(c.t);
  if (c.t.below(4) == 3)
    unreduce<N>(c.t, k);
  c.label(in_range(k.G, 127) ? "G within a byte" : "G beyond a byte");
  if (c.verbose)
    c.desc << show(k);
  std::vector<int32_t> f(N), g(N), F(N), G(N, 0x55555555);
  lib::to_i32(k.f, f.data());
  lib::to_i32(k.g, g.data());
  lib::to_i32(k.F, F.data());
  // via the encoded secret key
  const bytes sk = ref::encode_sk<N>(k.f, k.g, k.F);
  std::vector<int32_t> a(N), b(N), d(N);
  c.require(decoding::decode_skey<N>(sk.data(), a.data(), b.data(), d.data()) && a == f && b == g && d == F, [&] { return cat("secret key does not decode; ", show(k)); });
  falcon::recompute_G<N>(a.data(), b.data(), d.data(), G.data());
  for (size_t i = 0; i < N; i++)
    c.require(G[i] == k.G[i], [&] { return cat("recomputed G has coefficient ", i, " = ", G[i], ", expected ", k.G[i], "; ", show(k)); });
  std::vector<fft::cmplx> B(4 * N, cd(7, 7)), T((LG + 1) * N, cd(9, 9));
  falcon::compute_matrix_B<N>(a.data(), b.data(), d.data(), G.data(), B.data());
  const cvec b00 = ref::fft_i(k.g), b01 = ref::fft_i(neg(k.f)), b10 = ref::fft_i(k.G), b11 = ref::fft_i(neg(k.F));
  near(c, own<LG>(B.data()), b00, 1e-12L, "basis, g", &k);
  near(c, own<LG>(B.data() + N), b01, 1e-12L, "basis, -f", &k);
  near(c, own<LG>(B.data() + 2 * N), b10, 1e-12L, "basis, G", &k);
  near(c, own<LG>(B.data() + 3 * N), b11, 1e-12L, "basis, -F", &k);
  const gram gm = gram_of(b00, b01, b10, b11);
#ifndef PBT_PUBLIC_ONLY
  std::vector<fft::cmplx> GM(4 * N);
  keygen::compute_gram_matrix<N>(B.data(), GM.data());
  near(c, own<LG>(GM.data()), gm.g00, 1e-12L, "Gram matrix, 00", &k);
  near(c, own<LG>(GM.data() + N), gm.g01, 1e-12L, "Gram matrix, 01", &k);
  near(c, own<LG>(GM.data() + 2 * N), gm.g10, 1e-12L, "Gram matrix, 10", &k);
  near(c, own<LG>(GM.data() + 3 * N), gm.g11, 1e-12L, "Gram matrix, 11", &k);
#endif
  const auto B0 = B;
  falcon::compute_falcon_tree<N>(B.data(), T.data());
  c.require(!std::memcmp(B0.data(), B.data(), B.size() * sizeof(B[0])), "compute_falcon_tree changed the basis");
  ref::tree want = ref::ffldl(gm.g00, gm.g10, gm.g11);
  normalise(want, ref::P<N>::sigma);
  const ref::tree got = own_tree<LG, LG>(T.data());
  same_tree(c, got, want, &k);
  ld lo = 1e9, hi = 0;
  leaves(got, lo, hi);
  c.require(lo >= ref::P<N>::sigma_min * (1 - 1e-9) && hi <= ref::SIGMA_MAX, [&] { return cat("leaves reach from ", static_cast<double>(lo), " to ", static_cast<double>(hi), "; ", show(k)); });
  c.extra_evals += (LG + 1) * N + 5 * N;
  c.nontrivial();
}

// one-shot signing and signing with the expansion: same bytes for the same randomness
PROPN(same_signature, 1200, 480, 30000, 12000)
{
  lib::key k = variant<N>(c.t);
  if (c.t.below(4) == 3)
    unreduce<N>(c.t, k);
  c.label(in_range(k.G, 127) ? "G within a byte" : "G beyond a byte");
  const bytes sk = ref::encode_sk<N>(k.f, k.g, k.F), msg = lib::message(c.t, 300);
  const uint64_t e = c.t.u64();
  if (c.verbose)
    c.desc << show(k) << " message of " << msg.size() << " bytes";
  bytes s1(ref::P<N>::siglen, 0xa5), s2(ref::P<N>::siglen, 0x5a), s3 = s2;
  det::seed(e);
  c.require(falcon::sign<N>(sk.data(), msg.data(), msg.size(), s1.data()), [&] { return cat("signing refused a valid secret key; ", show(k)); });
  const auto x = lib::expand<N>(k);
  det::seed(e);
  prng::prng_t rng;
  falcon::sign<N>(x.B.data(), x.T.data(), msg.data(), msg.size(), s2.data(), rng);
  c.require(s1 == s2, [&] { return cat("one-shot and precomputed signing give different signatures for the same randomness; ", show(k)); });
  // the generator has moved on: another signature; the same expansion still works
  falcon::sign<N>(x.B.data(), x.T.data(), msg.data(), msg.size(), s3.data(), rng);
  c.require(s3 != s2, "the second signature from the same generator equals the first");
  det::seed(e);
  prng::prng_t rng2;
  falcon::sign<N>(x.B.data(), x.T.data(), msg.data(), msg.size(), s3.data(), rng2);
  c.require(s3 == s1, "the expansion does not give the same signature a second time");
  c.nontrivial();
}

#ifndef PBT_PUBLIC_ONLY
// trees of arbitrary Gram matrices, every size
template<size_t L>
static void
generic(pbt::Ctx& c)
{
  constexpr size_t n = 1ul << L;
  Rng r(c.t.u64());
  const double s0 = std::ldexp(1.0, static_cast<int>(c.t.range(-8, 14))), s1 = std::ldexp(1.0, static_cast<int>(c.t.range(-8, 14)));
  std::vector<cvec> row(4, cvec(n));
  for (size_t i = 0; i < 4; i++)
    for (auto& x : row[i])
      x = static_cast<ld>((i < 2 ? s0 : s1) * gauss(r));
  for (auto& x : row) {
    shape::some(c, x, 6);
    x = ref::fft(x);
  }
  // keep it well-conditioned, as bases of keys are: bounded away from singular
  ld worst_ratio = 1e9L, m0 = 1e60L, x0 = 0, m1 = 1e60L, x1 = 0;
  const gram gm = gram_of(row[0], row[1], row[2], row[3]);
  for (size_t i = 0; i < n; i++) {
    const ld d0 = gm.g00[i].real(), e1 = gm.g11[i].real();
    if (!(d0 > 0 && e1 > 0))
      c.discard("badly conditioned");
    const ld d1 = e1 - std::norm(gm.g10[i]) / d0;
    worst_ratio = std::min(worst_ratio, d1 / e1);
    m0 = std::min(m0, d0), x0 = std::max(x0, d0), m1 = std::min(m1, d1), x1 = std::max(x1, d1);
  }
  if (worst_ratio < 1e-3L || m0 < 1e-3L * x0 || m1 < 1e-3L * x1)
    c.discard("badly conditioned");
  if (c.verbose)
    c.desc << "n=" << n << " scales " << s0 << " " << s1;
  std::vector<fft::cmplx> M(4 * n), T((L + 1) * n);
  to_lib<L>(gm.g00, M.data());
  to_lib<L>(gm.g01, M.data() + n);
  to_lib<L>(gm.g10, M.data() + 2 * n);
  to_lib<L>(gm.g11, M.data() + 3 * n);
  const ld sigma = s0 * (1 + u01(r));
  falcon_tree::ffldl<n, 0, L>(M.data(), T.data());
  falcon_tree::normalize_tree<n, 0, L>(T.data(), static_cast<double>(sigma));
  ref::tree want = ref::ffldl(gm.g00, gm.g10, gm.g11);
  normalise(want, sigma);
  same_tree(c, own_tree<L, L>(T.data()), want, nullptr);
  // LDL* itself
  std::vector<fft::cmplx> l(n), d0(n), d1(n);
  falcon_tree::ldl<n>(M.data(), l.data(), d0.data(), d1.data());
  const cvec ll = own<L>(l.data()), a = own<L>(d0.data()), b = own<L>(d1.data());
  cvec r10(n), r11(n);
  for (size_t i = 0; i < n; i++)
    r10[i] = ll[i] * a[i], r11[i] = ll[i] * a[i] * std::conj(ll[i]) + b[i];
  near(c, a, gm.g00, 1e-12L, "LDL*: D00");
  near(c, r10, gm.g10, 1e-11L, "LDL*: L10 D00");
  near(c, r11, gm.g11, 1e-11L, "LDL*: L10 D00 L10* + D11");
  c.label(cat("size ", n));
  c.nontrivial();
}
template<size_t... I, typename FN>
static void
dispatch(const size_t lg, std::index_sequence<I...>, FN f)
{
  (void)((lg == I + 1 ? (f(std::integral_constant<size_t, I + 1>{}), true) : false) || ...);
}
PROPN(generic_trees, 16000, 0, 400000, 0)
{
  const size_t lg = 1 + c.t.enumerate(8);
  dispatch(lg, std::make_index_sequence<8>{}, [&](auto k) { generic<k()>(c); });
}
#endif
