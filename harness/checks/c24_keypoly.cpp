// C24: key polynomials follow the specified Gaussian; key generation keeps the
// first acceptable draw of its stream
#include "bigint.hpp"
#include "guard.hpp"
#include "keydraws.hpp"
using pbt::cat;
using namespace st;
using namespace tt;
using kd::Pm;
constexpr size_t LG = Pm::logn, K = 4096 / N;
constexpr ld SIGMA = 1.43300980528773L;

// f or g by the specification: N coefficients, each the sum of 4096/N samples
struct drawn
{
  ivec p;
  bool ambiguous = false;
};
template<class At>
static drawn
spec_draw(const At& at, size_t& pos)
{
  drawn d;
  d.p.resize(N);
  for (auto& x : d.p)
    for (size_t j = 0; j < K; j++) {
      const auto w = ref::samplerz(0, static_cast<ld>(1.43300980528773), Pm::sigma_min, [&](size_t i) { return at(pos + i); }, true, 4000);
      d.ambiguous |= w.ambiguous || w.exhausted;
      if (d.ambiguous)
        return d;
      x += w.z;
      pos += w.used;
    }
  return d;
}

#ifndef PBT_PUBLIC_ONLY
// bytes for which the samples take given values, then random ones
static det::stream
any_stream(pbt::Ctx& c)
{
  det::stream s;
  s.key = c.t.u64();
  for (size_t m = c.t.below(4); m > 0; m--)
    s.st.push_back({ c.t.below(60000), 1 + c.t.below(400), static_cast<int>(c.t.below(4)), c.t.byte() });
  return s;
}
PROPN(drawn_polynomial, 3000, 3000, 200000, 200000)
{
  const auto s = any_stream(c);
  bytes head;
  if (c.t.below(3) == 0) { // chosen samples, small and extreme, anywhere
    Rng r(c.t.u64());
    bool doubt = false;
    const size_t n = 1 + c.t.below(4096);
    const int64_t far = c.t.range(0, 17);
    for (size_t i = 0; i < n; i++)
      script::leaf(0, SIGMA, Pm::sigma_min, uni(r, -far, far), head, doubt);
    c.label("chosen samples");
  }
  auto at = [&](const uint64_t i) { return i < head.size() ? head[i] : s(i); };
  size_t used = 0;
  const auto want = spec_draw(at, used);
  if (want.ambiguous)
    c.discard("a sample depends on the last bits of the threshold, or needs too many bytes");
  shake256::probe::st.source = [&](uint64_t p, uint8_t* d, size_t n) {
    for (size_t i = 0; i < n; i++)
      d[i] = at(p + i);
    return true;
  };
  prng::prng_t rng;
  std::vector<int32_t> got(N, static_cast<int32_t>(c.t.u64()));
  shake256::probe::st.budget = used + 100000;
  try {
    ntru_gen::gen_poly<LG>(got.data(), rng);
  } catch (const shake256::probe::budget_exceeded&) {
    c.fail(cat("reads on after ", used, " bytes, which the specification needs"));
  }
  const uint64_t read = shake256::probe::st.total_read;
  for (size_t i = 0; i < N; i++)
    c.require(got[i] == want.p[i], [&] { return cat("coefficient ", i, " is ", got[i], ", the sum of the samples ", want.p[i]); });
  c.require(lib::handed_out(rng, used, at), [&] { return cat("reads ", read, " bytes, the specification ", used); });
  if (c.verbose)
    c.desc << ref::show(want.p, 12) << " from " << used << " bytes";
  c.nontrivial();
}

// statistics with SHAKE256 output
PROPNL(distribution, 16, 16, 400, 400, 120)
{
  det::seed(c.t.u64());
  prng::prng_t rng;
  // the K-fold convolution of the discrete Gaussian
  constexpr int W = 160;
  std::vector<ld> one(2 * W + 1, 0), p(2 * W + 1, 0);
  ld tot = 0;
  for (int k = -20; k <= 20; k++)
    tot += one[static_cast<size_t>(k + W)] = std::exp(-static_cast<ld>(k * k) / (2 * SIGMA * SIGMA));
  for (auto& x : one)
    x /= tot;
  p[W] = 1;
  for (size_t j = 0; j < K; j++) {
    std::vector<ld> q(p.size(), 0);
    for (int a = -W; a <= W; a++)
      for (int b = -20; b <= 20; b++)
        if (a + b >= -W && a + b <= W)
          q[static_cast<size_t>(a + b + W)] += p[static_cast<size_t>(a + W)] * one[static_cast<size_t>(b + W)];
    p = q;
  }
  const ld var = K * [&] {
    ld v = 0;
    for (int k = -20; k <= 20; k++)
      v += one[static_cast<size_t>(k + W)] * k * k;
    return v;
  }();
  const size_t polys = 160;
  std::vector<uint64_t> h(p.size());
  std::vector<int32_t> x(N), last(N);
  ld lag1 = 0, half = 0, across = 0, sum = 0;
  for (size_t i = 0; i < polys; i++) {
    ntru_gen::gen_poly<LG>(x.data(), rng);
    for (size_t k = 0; k < N; k++) {
      c.require(std::abs(x[k]) <= W, [&] { return cat("coefficient ", x[k]); });
      h[static_cast<size_t>(x[k] + W)]++;
      sum += x[k];
      if (k > 0)
        lag1 += static_cast<ld>(x[k]) * x[k - 1];
      if (k >= N / 2)
        half += static_cast<ld>(x[k]) * x[k - N / 2];
      if (i > 0)
        across += static_cast<ld>(x[k]) * last[k];
    }
    last = x;
  }
  const auto n = static_cast<ld>(polys * N);
  ld chi = 0, pe = 0, po = 0;
  int df = 0;
  for (size_t i = 0; i < p.size(); i++) {
    const ld e = p[i] * n;
    if (e < 30) {
      pe += e, po += static_cast<ld>(h[i]);
      continue;
    }
    chi += (static_cast<ld>(h[i]) - e) * (static_cast<ld>(h[i]) - e) / e;
    df++;
  }
  if (pe > 5)
    chi += (po - pe) * (po - pe) / pe, df++;
  const ld k = df - 1;
  const ld z = (std::cbrt(chi / k) - (1 - 2 / (9 * k))) / std::sqrt(2 / (9 * k));
  c.extra_evals += polys * N;
  c.require(z < 8, [&] { return cat("coefficients do not follow the specified distribution: ", static_cast<double>(z), " deviations"); });
  auto test = [&](const ld v, const ld m, const char* what) { c.require(std::fabs(v) <= 7 * std::sqrt(m), [&] { return cat(what, ": ", static_cast<double>(v / std::sqrt(m)), " deviations"); }); };
  test(sum, n * var, "mean of the coefficients");
  test(lag1, static_cast<ld>(polys * (N - 1)) * var * var, "neighbouring coefficients");
  test(half, n / 2 * var * var, "coefficients half a polynomial apart");
  test(across, static_cast<ld>((polys - 1) * N) * var * var, "the same coefficient of consecutive polynomials");
  c.nontrivial();
}
#endif

// ------------------------------------------------------- the first acceptable
using vec = std::vector<mpz_class>;
static mpz_class
resultant(const ivec& v)
{
  vec a(v.size());
  for (size_t i = 0; i < v.size(); i++)
    a[i] = static_cast<long>(v[i]);
  while (a.size() > 1) {
    vec m = a;
    for (size_t i = 1; i < m.size(); i += 2)
      m[i] = -m[i];
    const vec p = big::mul(a, m);
    vec r(a.size() / 2);
    for (size_t i = 0; i < r.size(); i++)
      r[i] = p[2 * i];
    a = r;
  }
  return a[0];
}
static bool
coprime(const ivec& f, const ivec& g)
{
  mpz_class r, a = resultant(f), b = resultant(g);
  mpz_gcd(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
  return r == 1;
}
// F of the solution the library itself finds would not fit
static bool
does_not_fit([[maybe_unused]] const ivec& f, [[maybe_unused]] const ivec& g)
{
#ifndef PBT_PUBLIC_ONLY
  auto a = std::make_unique<std::array<mpz_class, N>>(), b = std::make_unique<std::array<mpz_class, N>>();
  for (size_t i = 0; i < N; i++)
    (*a)[i] = static_cast<long>(f[i]), (*b)[i] = static_cast<long>(g[i]);
  const std::pair<std::pair<std::array<mpz_class, N>, std::array<mpz_class, N>>, ntru_gen::ntru_solve_status_t> r = ntru_gen::ntru_solve(*a, *b);
  if (!r.second.is_solution())
    return false;
  for (auto& x : r.first.first)
    if (abs(x) > 127)
      return true;
  return false;
#else
  return true;
#endif
}
// the key generated from the stream is the first draw that passes; returns its
// number
template<class At>
static size_t
walk(pbt::Ctx& c, const At& at)
{
  shake256::probe::st.source = [&](uint64_t p, uint8_t* d, size_t n) {
    for (size_t i = 0; i < n; i++)
      d[i] = at(p + i);
    return true;
  };
  shake256::probe::st.budget = 400000000;
  bytes pk(Pm::pklen), sk(Pm::sklen);
  try {
    falcon::keygen<N>(pk.data(), sk.data());
  } catch (const shake256::probe::budget_exceeded&) {
    c.fail("key generation does not end");
  }
  shake256::probe::st.reset();
  const auto d = ref::decode_sk<N>(sk.data());
  c.require(d.has_value(), "the secret key does not decode");
  size_t pos = 0, draws = 0;
  std::string told;
  for (;; draws++) {
    c.require(draws < 400, "the key is none of the first 400 draws of the stream");
    const auto f = spec_draw(at, pos);
    const auto g = f.ambiguous ? f : spec_draw(at, pos);
    if (f.ambiguous || g.ambiguous)
      c.discard("a sample depends on the last bits of the threshold");
    if (f.p == d->f && g.p == d->g)
      break;
    auto skip = [&](const char* why) { c.label(why); };
    if (!in_range(f.p, Pm::fgmax) || !in_range(g.p, Pm::fgmax)) {
      skip("passed over: out of range");
      continue;
    }
    if (!ref::invertible(f.p)) {
      skip("passed over: f not invertible");
      continue;
    }
    constexpr ld LIMIT = kd::LIMIT;
    const ld gs = kd::gs_norm(f.p, g.p);
    if (std::fabs(gs - LIMIT) < 1e-7L * LIMIT)
      c.discard("a Gram-Schmidt norm right at the limit");
    if (gs > LIMIT) {
      skip("passed over: Gram-Schmidt norm too large");
      continue;
    }
    if (!coprime(f.p, g.p)) {
      skip("passed over: resultants not coprime");
      continue;
    }
    if (does_not_fit(f.p, g.p)) {
      skip("passed over: F out of range");
      continue;
    }
    c.fail(cat("draw ", draws, " of the stream passes every test of the specification but was passed over; f=", ref::show(f.p, 1024), " g=", ref::show(g.p, 1024)));
  }
  if (c.verbose)
    c.desc << "; key is draw " << draws << " of its stream; f=" << ref::show(d->f, 8);
  return draws;
}
PROPNL(first_acceptable, 40, 12, 2500, 600, 120)
{
  det::stream s;
  s.key = c.t.u64();
  if (c.t.below(4) == 0)
    s.st.push_back({ c.t.below(400000), 1 + c.t.below(300), static_cast<int>(c.t.below(4)), c.t.byte() });
  const size_t draws = walk(c, [&](const uint64_t i) { return s(i); });
  c.label(cat("key is draw ", draws < 3 ? cat(draws) : std::string(draws < 10 ? "3-9" : "10 or later")));
  c.nontrivial();
}
// chosen draws: some to be discarded, then one that just passes
PROPNL(chosen_draws, 120, 40, 4000, 1200, 120)
{
  Rng r(c.t.u64());
  bytes head;
  auto put = [&](const kd::pair_t& p) {
    kd::draw_bytes(r, p.f, head);
    kd::draw_bytes(r, p.g, head);
  };
  size_t before = 0;
  for (size_t m = c.t.below(4); m > 0; m--) {
    const size_t kind = c.t.below(6);
    if (const auto p = kd::bad_pair(c.t, r, kind)) {
      put(*p), before++;
      if (c.verbose)
        c.desc << kd::kinds[kind] << "; ";
    }
  }
  const size_t kind = c.t.pick({ 3, 2, 3, 2 });
  const auto p = kd::edge_pair(c.t, r, kind);
  if (!p)
    c.discard("no such pair found");
  put(*p);
  if (c.verbose)
    c.desc << "then " << kd::edge_kinds[kind];
  det::stream s;
  s.key = c.t.u64();
  const size_t draws = walk(c, [&](const uint64_t i) { return i < head.size() ? head[i] : s(i); });
  c.label_if(draws == before, kd::edge_kinds[kind]);
  c.label_if(draws > before, "resultants not coprime or F out of range, later draw kept");
  c.nontrivial();
}
