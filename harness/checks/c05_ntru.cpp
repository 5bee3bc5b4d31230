// C05: the NTRU equation solver is exact or reports failure
#include "bigint.hpp"
#include "shape.hpp"
#include "sigtools.hpp"
using pbt::cat;
using namespace st;
using big::vec;

template<size_t n>
static std::array<mpz_class, n>
arr(const vec& v)
{
  std::array<mpz_class, n> a;
  for (size_t i = 0; i < n; i++)
    a[i] = v[i];
  return a;
}
template<size_t n>
static vec
unarr(const std::array<mpz_class, n>& a)
{
  return vec(a.begin(), a.end());
}
static vec
up(const ivec& a)
{
  vec r(a.size());
  for (size_t i = 0; i < a.size(); i++)
    r[i] = static_cast<long>(a[i]);
  return r;
}
static vec
conj_x(const vec& a) // a(-x)
{
  vec r = a;
  for (size_t i = 1; i < r.size(); i += 2)
    r[i] = -r[i];
  return r;
}
// norm to the subfield: a(x) a(-x) as a polynomial in x^2
static vec
down(const vec& a)
{
  const vec p = big::mul(a, conj_x(a));
  vec r(a.size() / 2);
  for (size_t i = 0; i < r.size(); i++)
    r[i] = p[2 * i];
  return r;
}
static mpz_class
resultant(vec a)
{
  while (a.size() > 1)
    a = down(a);
  return a[0];
}
static ref::ld
min_gram(const ivec& f, const ivec& g)
{
  const auto a = ref::fft_i(f), b = ref::fft_i(g);
  ref::ld m = 1e30L;
  for (size_t i = 0; i < a.size(); i++)
    m = std::min(m, std::norm(a[i]) + std::norm(b[i]));
  return m;
}

template<size_t LG>
static void
solve(pbt::Ctx& c)
{
  constexpr size_t n = 1ul << LG;
  const size_t mode = c.t.pick({ 5, 2, 2, 1, 1, 1, 2 });
  const int64_t small = LG <= 2 ? c.t.range(0, 6) : 0;
  Rng r(c.t.u64());
  ivec f(n, 0), g(n, 0);
  // the width key generation would use at this size, or others
  const double ws[] = { 1.17 * std::sqrt(12289.0 / (2 * n)), 0.7, 2.0, 4.05, 10.0, 40.0 };
  switch (mode) {
    case 0:
      f = gauss_vec(r, n, ws[0]), g = gauss_vec(r, n, ws[0]);
      break;
    case 1: {
      const double w = ws[uni(r, 0, 5)];
      f = gauss_vec(r, n, w), g = gauss_vec(r, n, w);
      break;
    }
    case 2: // uniform in the key format's range
      for (auto& x : f)
        x = uni(r, -31, 31);
      for (auto& x : g)
        x = uni(r, -31, 31);
      break;
    case 3: // few terms
      for (int k = 0; k < 3; k++) {
        f[static_cast<size_t>(uni(r, 0, n - 1))] = uni(r, -15, 15);
        g[static_cast<size_t>(uni(r, 0, n - 1))] = uni(r, -15, 15);
      }
      break;
    case 4: { // a common factor: certain failure
      f = gauss_vec(r, n, 2), g = gauss_vec(r, n, 2);
      const int64_t k = uni(r, 2, 5);
      for (size_t i = 0; i < n; i++)
        f[i] *= k, g[i] *= k;
      break;
    }
    case 5: // both of even coefficient sum: resultants share the factor 2
      f = gauss_vec(r, n, ws[0]), g = gauss_vec(r, n, ws[0]);
      for (auto* p : { &f, &g }) {
        int64_t s = 0;
        for (auto v : *p)
          s += v;
        if (s & 1)
          (*p)[0]++;
      }
      break;
    default: // odd sums, so that failure is rare
      f = gauss_vec(r, n, ws[0]), g = gauss_vec(r, n, ws[0]);
      for (auto* p : { &f, &g }) {
        int64_t s = 0;
        for (auto v : *p)
          s += v;
        if (!(s & 1))
          (*p)[0]++;
      }
  }
  if (mode == 1 || mode == 6) {
    shape::some(c, f, 4);
    shape::some(c, g, 4);
  }
  if (small) // tiny coefficients at tiny sizes: nearly an enumeration
    for (size_t i = 0; i < n; i++)
      f[i] = uni(r, -small, small), g[i] = uni(r, -small, small);
  if (c.verbose)
    c.desc << "n=" << n << " f=" << ref::show(f, 64) << " g=" << ref::show(g, 64);
  auto info = [&] { return cat("n=", n, " f=", ref::show(f, n), " g=", ref::show(g, n)); };
  // as in key generation, f and g must not nearly vanish together anywhere
  const auto mg = min_gram(f, g);
  if (mg < 1e-2L * static_cast<ref::ld>(ref::norm2(f) + ref::norm2(g)) / n || mg == 0)
    c.discard("f and g nearly vanish together at a root");
  const vec bf = up(f), bg = up(g);
  const std::pair<std::pair<std::array<mpz_class, n>, std::array<mpz_class, n>>, ntru_gen::ntru_solve_status_t> ret = ntru_gen::ntru_solve<n>(arr<n>(bf), arr<n>(bg));
  const mpz_class rf = resultant(bf), rg = resultant(bg);
  mpz_class gc;
  mpz_gcd(gc.get_mpz_t(), rf.get_mpz_t(), rg.get_mpz_t());
  c.nontrivial();
  if (!ret.second.is_solution()) {
    c.label("reported failure");
    c.require(gc != 1, [&] { return cat("failure reported although the resultants are coprime; ", info()); });
    return;
  }
  c.label("solved");
  c.label(cat("solved, size ", n));
  const vec F = unarr(ret.first.first), G = unarr(ret.first.second);
  const vec a = big::mul(bf, G), b = big::mul(bg, F);
  for (size_t i = 0; i < n; i++)
    c.require(mpz_class(a[i] - b[i]) == (i == 0 ? ref::Q : 0), [&] { return cat("coefficient ", i, " of f G - g F is ", mpz_class(a[i] - b[i]).get_str().substr(0, 60), "; ", info()); });
  c.require(gc == 1, [&] { return cat("solved although the resultants have the common divisor ", gc.get_str().substr(0, 40), "; ", info()); });
  // Babai-reduced: every coefficient of (F f* + G g*) / (f f* + g g*) is at most 1/2
  ref::cvec FF(n), GG(n);
  for (size_t i = 0; i < n; i++) {
    c.require(abs(F[i]) < 1000000000 && abs(G[i]) < 1000000000, [&] { return cat("F or G not reduced: coefficient ", i, " is ", F[i].get_str().substr(0, 40), ", ", G[i].get_str().substr(0, 40), "; ", info()); });
    FF[i] = static_cast<ref::ld>(F[i].get_si());
    GG[i] = static_cast<ref::ld>(G[i].get_si());
  }
  FF = ref::fft(FF), GG = ref::fft(GG);
  const auto ff = ref::fft_i(f), gg = ref::fft_i(g);
  ref::cvec k(n);
  for (size_t i = 0; i < n; i++)
    k[i] = (FF[i] * std::conj(ff[i]) + GG[i] * std::conj(gg[i])) / (std::norm(ff[i]) + std::norm(gg[i]));
  k = ref::ifft(k);
  for (size_t i = 0; i < n; i++)
    c.require(std::fabs(k[i].real()) <= 0.5L + 1e-3L, [&] { return cat("F, G are not reduced: multiple ", static_cast<double>(k[i].real()), " of x^", i, " (f, g) is left; ", info()); });
}
template<size_t... I, typename F>
static void
dispatch(const size_t lg, std::index_sequence<I...>, F f)
{
  (void)((lg == I ? (f(std::integral_constant<size_t, I>{}), true) : false) || ...);
}
// Degree 1, where the tower ends: operands there are norms, hence not negative;
// for negative ones only what is claimed to be a solution is judged.
PROP(solve_one, 40000, 1000000)
{
  auto& t = c.t;
  mpz_class x, y;
  if (const auto i = t.enumerate(40000); i < 10201) // every pair up to 50
    x = static_cast<long>(i / 101) - 50, y = static_cast<long>(i % 101) - 50;
  else {
    const auto sh = big::shape(t, 4000);
    x = big::poly(t, 1, sh.bits_a, sh.kind_a)[0], y = big::poly(t, 1, sh.bits_b, sh.kind_b)[0];
  }
  if (c.verbose)
    c.desc << "f=" << x.get_str().substr(0, 80) << " g=" << y.get_str().substr(0, 80);
  auto info = [&] { return cat("degree 1, f=", x.get_str(), " g=", y.get_str()); };
  const std::array<mpz_class, 1> f{ x }, g{ y };
  const std::pair<std::pair<std::array<mpz_class, 1>, std::array<mpz_class, 1>>, ntru_gen::ntru_solve_status_t> r = ntru_gen::ntru_solve<1>(f, g);
  mpz_class gc;
  mpz_gcd(gc.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t());
  if (r.second.is_solution()) {
    c.require(mpz_class(x * r.first.second[0] - y * r.first.first[0]) == 12289, [&] { return cat("f G - g F is not q; ", info()); });
    c.label("solved");
  } else
    c.require(gc != 1 || x < 0 || y < 0, [&] { return cat("failure reported although f and g are coprime; ", info()); });
  c.nontrivial();
}
PROPL(solve_small, 30000, 1000000, 20)
{
  const size_t lg = 1 + c.t.enumerate(5);
  dispatch(lg, std::make_index_sequence<6>{}, [&](auto k) { if constexpr (k() >= 1) solve<k()>(c); });
}
PROPL(solve_medium, 1200, 40000, 30)
{
  const size_t lg = 6 + c.t.enumerate(3);
  dispatch(lg, std::make_index_sequence<9>{}, [&](auto k) { if constexpr (k() >= 6) solve<k()>(c); });
}
PROPL(solve_512, 96, 4000, 60)
{
  solve<9>(c);
}
PROPL(solve_1024, 24, 1000, 120)
{
  solve<10>(c);
}

#ifndef PBT_PUBLIC_ONLY
template<size_t LG>
static void
blocks(pbt::Ctx& c)
{
  constexpr size_t n = 1ul << LG;
  const auto sh = big::shape(c.t, LG <= 6 ? 4000 : 600);
  const vec a = big::poly(c.t, n, sh.bits_a, sh.kind_a);
  if (c.verbose)
    c.desc << "n=" << n << " a=" << big::show(a);
  auto info = [&] { return cat("n=", n, " bits ", sh.bits_a, " a=", big::show(a, n).substr(0, 1000)); };
  const auto A = arr<n>(a);
  const vec conj = unarr(ntru_gen::galois_conjugate(A));
  c.require(conj == conj_x(a), [&] { return cat("galois_conjugate is not a(-x): ", info()); });
  const std::array<mpz_class, n / 2> no = ntru_gen::field_norm(A);
  c.require(unarr(no) == down(a), [&] { return cat("field_norm: ", info()); });
  // N(a)(x^2) = a(x) a(-x)
  const vec l = unarr(ntru_gen::lift(no));
  c.require(l.size() == n && l == big::mul(a, conj), [&] { return cat("lift(field_norm(a)) is not a(x) a(-x): ", info()); });
  const std::array<mpz_class, 2 * n> l2 = ntru_gen::lift(A);
  for (size_t i = 0; i < n; i++)
    c.require(l2[2 * i] == a[i] && l2[2 * i + 1] == 0, [&] { return cat("lift: ", info()); });
  c.nontrivial();
}
PROP(building_blocks, 6000, 400000)
{
  const size_t lg = 1 + c.t.enumerate(10);
  dispatch(lg, std::make_index_sequence<11>{}, [&](auto k) { if constexpr (k() >= 1) blocks<k()>(c); });
}
PROP(extended_gcd, 60000, 3000000)
{
  auto draw = [&]() -> mpz_class {
    switch (c.t.pick({ 3, 2, 2, 1 })) {
      case 0:
        return static_cast<long>(c.t.range(-40, 40));
      case 1:
        return big::number(c.t, 1 + c.t.below(64));
      case 2:
        return big::number(c.t, 1 + c.t.below(6000));
      default:
        return mpz_class(1) << c.t.below(600);
    }
  };
  mpz_class x = draw(), y = draw();
  if (c.t.chance(1, 3)) {
    const mpz_class k = draw();
    x *= k, y *= k;
  }
  if (c.t.chance(1, 8))
    y = x * draw() + c.t.range(-1, 1);
  if (c.verbose)
    c.desc << "x=" << x.get_str().substr(0, 80) << " y=" << y.get_str().substr(0, 80);
  const std::array<mpz_class, 3> r = ntru_gen::xgcd(x, y);
  mpz_class g;
  mpz_gcd(g.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t());
  c.require(mpz_class(r[0] * x + r[1] * y) == r[2], [&] { return cat("xgcd(", x.get_str(), ", ", y.get_str(), "): a x + b y != g"); });
  c.require(abs(r[2]) == g, [&] { return cat("xgcd(", x.get_str(), ", ", y.get_str(), "): g = ", r[2].get_str(), ", gcd = ", g.get_str()); });
  if (x > 0 && y > 0)
    c.require(r[2] == g, [&] { return cat("xgcd(", x.get_str(), ", ", y.get_str(), "): negative g"); });
  c.nontrivial();
}
// reduction: (F, G) = K (f, g) + (small): what is left differs from the input
// by a multiple of (f, g) and is small when f, g are
template<size_t LG>
static void
reduction(pbt::Ctx& c)
{
  constexpr size_t n = 1ul << LG;
  const size_t fb = big::bits(c.t, LG <= 6 ? 1500 : 400), kb = big::bits(c.t, 700);
  const vec f = big::poly(c.t, n, fb, 0), g = big::poly(c.t, n, fb, 0), K = big::poly(c.t, n, kb, static_cast<int>(c.t.pick({ 3, 1, 1, 1 })));
  vec F = big::mul(K, f), G = big::mul(K, g);
  if (c.verbose)
    c.desc << "n=" << n << " f bits " << fb << " K bits " << kb;
  auto info = [&] { return cat("n=", n, " f bits ", fb, " K bits ", kb, " f=", big::show(f, n).substr(0, 800)); };
  { // conditioning of (f, g), on the leading bits
    ref::cvec a(n), b(n);
    for (size_t i = 0; i < n; i++) {
      mpf_class x(f[i], 64), y(g[i], 64);
      const size_t sh = fb > 60 ? fb - 60 : 0;
      mpf_div_2exp(x.get_mpf_t(), x.get_mpf_t(), sh);
      mpf_div_2exp(y.get_mpf_t(), y.get_mpf_t(), sh);
      a[i] = x.get_d(), b[i] = y.get_d();
    }
    ref::ld s = 0, m = 1e60L;
    a = ref::fft(a), b = ref::fft(b);
    for (size_t i = 0; i < n; i++) {
      const auto v = std::norm(a[i]) + std::norm(b[i]);
      s += v / n;
      m = std::min(m, v);
    }
    if (m < 1e-3L * s || m == 0)
      c.discard("f and g nearly vanish together at a root");
  }
  auto FA = arr<n>(F), GA = arr<n>(G);
  ntru_gen::reduce<n>(arr<n>(f), arr<n>(g), FA, GA);
  const vec F2 = unarr(FA), G2 = unarr(GA);
  vec dF(n), dG(n);
  mpz_class mx = 0, in = 0;
  for (size_t i = 0; i < n; i++) {
    dF[i] = F[i] - F2[i], dG[i] = G[i] - G2[i];
    mx = std::max<mpz_class>(mx, std::max<mpz_class>(abs(F2[i]), abs(G2[i])));
    in = std::max<mpz_class>(in, std::max<mpz_class>(abs(F[i]), abs(G[i])));
  }
  c.require(big::mul(dF, g) == big::mul(dG, f), [&] { return cat("reduce changed (F, G) by something that is no multiple of (f, g): ", info()); });
  // The reduction works on the leading bits, in steps of 8; for large f, g it
  // may stop early (the solver makes up for it one level higher), for small
  // ones it must not
  c.label(fb <= 40 ? "small f, g: size judged" : "large f, g");
  c.require(fb > 40 || mpz_sizeinbase(mx.get_mpz_t(), 2) <= fb + LG + 14, [&] { return cat("reduce leaves ", mpz_sizeinbase(mx.get_mpz_t(), 2), " bits; ", info()); });
  c.nontrivial();
}
PROPL(reduction_step, 1200, 60000, 30)
{
  const size_t lg = 1 + c.t.enumerate(8);
  dispatch(lg, std::make_index_sequence<9>{}, [&](auto k) { if constexpr (k() >= 1) reduction<k()>(c); });
}
#endif
