// C11: the integer sampler follows the specification
#include "sigtools.hpp"
using pbt::cat;
using namespace st;
using ref::ld;
using ref::u128;

static const double SMIN[2] = { 1.277833697, 1.298280334 };

// a crafted random-byte string followed by pseudo-random bytes
struct rbytes
{
  bytes v{};
  uint64_t key = 0;
  uint8_t at(size_t i) const { return i < v.size() ? v[i] : det::byte_of(key, i); }
};
struct scase
{
  double mu, sp, smin;
  rbytes b;
  int tricks = 0;
};
static double
gen_mu(pbt::Tape& t)
{
  switch (t.pick({ 4, 2, 2, 2, 1 })) {
    case 0:
      return t.real(-50, 50);
    case 1: { // near or at integers
      const auto i = static_cast<double>(t.range(-300, 300));
      const int e = static_cast<int>(t.below(60));
      return e == 0 ? i : i + (t.chance(1, 2) ? -1 : 1) * std::ldexp(1.0, -e);
    }
    case 2:
      return static_cast<double>(t.range(-400, 400)) * 0.5 + (t.chance(1, 2) ? 0 : t.real(-1e-6, 1e-6));
    case 3:
      return t.real(-20000, 20000);
    default:
      return t.real(-1e6, 1e6);
  }
}
// 72 random bits for the base sampler: anything, or around a table entry
static u128
gen_u(pbt::Tape& t)
{
  const u128 M = (static_cast<u128>(1) << 72) - 1;
  switch (t.pick({ 3, 3, 1, 1 })) {
    case 0:
      return ((static_cast<u128>(t.u64()) << 64) | t.u64()) & M;
    case 1: {
      const u128 v = ref::rcdt()[t.below(18)];
      const auto d = static_cast<u128>(t.below(5));
      return (v + d - 2) & M;
    }
    case 2:
      return t.below(4);
    default:
      return M - t.below(4);
  }
}
static void
put_u(bytes& v, const u128 u, const bool le)
{
  for (int i = 0; i < 9; i++)
    v.push_back(static_cast<uint8_t>(u >> (8 * (le ? i : 8 - i))));
}
static scase
gen(pbt::Tape& t, const bool le)
{
  scase s;
  s.mu = gen_mu(t);
  s.smin = SMIN[t.below(2)];
  switch (t.pick({ 5, 1, 1 })) {
    case 0:
      s.sp = t.real(s.smin, ref::SIGMA_MAX);
      break;
    case 1:
      s.sp = s.smin;
      break;
    default:
      s.sp = ref::SIGMA_MAX;
  }
  s.b.key = t.u64();
  if (t.below(24) == 23) { // many rounds in a row with the highest coin: most are rejected
    Rng g(t.u64());
    for (size_t n = 1 + t.below(t.below(2) ? 40 : 340); n > 0; n--) {
      put_u(s.b.v, (static_cast<u128>(g.next()) << 64 | g.next()) & ((static_cast<u128>(1) << 72) - 1), le);
      s.b.v.push_back(static_cast<uint8_t>(g.next()));
      s.b.v.push_back(0xff);
    }
    s.tricks++;
  }
  const ld r = static_cast<ld>(s.mu) - std::floor(static_cast<ld>(s.mu));
  for (uint64_t k = t.below(4); k > 0; k--) { // crafted iterations
    s.tricks++;
    const u128 u = gen_u(t);
    put_u(s.b.v, u, le);
    const uint8_t sign = t.byte();
    s.b.v.push_back(sign);
    const int z0 = ref::base_sampler(u), b = sign & 1;
    const ld d = static_cast<ld>(b + (2 * b - 1) * z0) - r;
    const ld x = std::max<ld>(0, d * d / (2 * static_cast<ld>(s.sp) * s.sp) - static_cast<ld>(z0 * z0) / (2 * static_cast<ld>(ref::SIGMA_MAX) * ref::SIGMA_MAX));
    const auto z = ref::ber_threshold(x, static_cast<ld>(s.smin) / s.sp);
    // follow the threshold for some bytes, then differ (only where it is certain)
    const size_t depth = t.below(7);
    bool more = true;
    for (size_t i = 0; i < 8 && more; i++) {
      const auto lo = static_cast<uint8_t>(z.lo >> (56 - 8 * i)), hi = static_cast<uint8_t>(z.hi >> (56 - 8 * i));
      if (i < depth && lo == hi)
        s.b.v.push_back(lo);
      else {
        const int w = static_cast<int>(lo) + static_cast<int>(t.range(-2, 2));
        const bool any = t.chance(1, 2);
        const uint8_t o = t.byte();
        s.b.v.push_back(any ? o : static_cast<uint8_t>(std::clamp(w, 0, 255)));
        more = s.b.v.back() == lo || s.b.v.back() == hi;
      }
    }
  }
  return s;
}

// SamplerZ, both forms
template<bool le>
static void
sample_case(pbt::Ctx& c)
{
  auto s = gen(c.t, le);
  constexpr size_t LIM = 4096;
  auto at = [&](size_t i) { return s.b.at(i); };
  if (c.verbose)
    c.desc << cat("mu=", s.mu, " sigma'=", s.sp, " sigma_min=", s.smin, " bytes=", ref::hex(s.b.v.data(), s.b.v.size()), "..");
  const auto w = ref::samplerz(s.mu, s.sp, s.smin, at, le, LIM - 64);
  c.label_if(w.iters > 16, "more than sixteen rounds");
  if (w.exhausted)
    c.discard("runs out of bytes");
  if (w.ambiguous)
    c.discard("acceptance depends on the last bits of the threshold");
  int64_t z;
  size_t used;
  if constexpr (le) {
    shake256::probe::st.source = [&](uint64_t p, uint8_t* d, size_t n) {
      for (size_t i = 0; i < n; i++)
        d[i] = s.b.at(p + i);
      return true;
    };
    shake256::probe::st.budget = LIM;
    prng::prng_t rng;
    try {
      z = samplerz::samplerz(s.mu, s.sp, s.smin, rng);
    } catch (const shake256::probe::budget_exceeded&) {
      c.fail(cat("mu=", s.mu, " sigma'=", s.sp, " sigma_min=", s.smin, ": not done after ", LIM, " bytes, the specification needs ", w.used));
    }
    used = lib::handed_out(rng, w.used, [&](uint64_t i) { return s.b.at(i); }) ? w.used : shake256::probe::st.total_read;
  } else {
    bytes a(LIM);
    for (size_t i = 0; i < LIM; i++)
      a[i] = s.b.at(i);
    const std::pair<int64_t, size_t> r = samplerz::samplerz(s.mu, s.sp, s.smin, a.data(), a.size());
    z = r.first;
    used = r.second;
  }
  c.require(z == w.z && used == w.used, [&] {
    bytes a;
    for (size_t i = 0; i < w.used; i++)
      a.push_back(s.b.at(i));
    return cat("mu=", s.mu, " sigma'=", s.sp, " sigma_min=", s.smin, " bytes=", ref::hex(a.data(), a.size(), 400), ": returns ", z, " after ", used,
               " bytes, the specification ", w.z, " after ", w.used);
  });
  c.nontrivial();
  c.label(cat("iterations ", std::min<size_t>(w.iters, 5)));
  c.label(cat("deepest comparison ", w.deep, " bytes"));
  if (std::llabs(w.z - static_cast<int64_t>(std::floor(s.mu))) >= 10)
    c.label("ten or more away from the centre");
}
PROP(samplerz_prng, 500000, 20000000) { sample_case<true>(c); }
PROP(samplerz_bytes, 200000, 8000000) { sample_case<false>(c); }

#ifndef PBT_PUBLIC_ONLY
// base sampler: exact table
PROP(base_sampler, 300000, 10000000)
{
  const u128 u = gen_u(c.t);
  bytes v;
  put_u(v, u, true);
  auto at = [&](uint64_t i) { return i < v.size() ? v[i] : det::byte_of(5, i); };
  shake256::probe::st.source = [&](uint64_t p, uint8_t* d, size_t n) {
    for (size_t i = 0; i < n; i++)
      d[i] = at(p + i);
    return true;
  };
  prng::prng_t rng;
  const auto z = static_cast<int64_t>(samplerz::base_sampler(rng));
  const int w = ref::base_sampler(u);
  if (c.verbose)
    c.desc << "bytes " << ref::hex(v.data(), 9);
  c.require(z == w && lib::handed_out(rng, 9, at),
            [&] { return cat("base_sampler(", ref::hex(v.data(), 9), ") = ", z, " from ", shake256::probe::st.total_read, " bytes, expected ", w, " from 9"); });
  std::array<uint8_t, 9> a{};
  std::copy(v.begin(), v.end(), a.begin());
  const auto z2 = static_cast<int64_t>(samplerz::base_sampler(std::move(a)));
  c.require(z2 == w, [&] { return cat("base_sampler(bytes ", ref::hex(v.data(), 9), ") = ", z2, ", expected ", w); });
  c.label(cat("value ", w));
  c.nontrivial();
}

// Bernoulli step, for every x >= 0
PROP(ber_exp, 400000, 16000000)
{
  auto& t = c.t;
  double x = 0;
  switch (t.pick({ 4, 2, 2, 2, 1 })) {
    case 0:
      x = t.real(0, 40);
      break;
    case 1:
      x = t.real(0, 1);
      break;
    case 2: { // around multiples of ln 2
      x = static_cast<double>(t.below(100)) * 0.69314718055994530942;
      x = std::max(0.0, x + (t.chance(1, 2) ? -1 : 1) * std::ldexp(1.0, -static_cast<int>(t.below(60))));
      break;
    }
    case 3:
      x = std::ldexp(t.real(0.5, 1), static_cast<int>(t.range(-60, 12)));
      break;
    default:
      x = t.real(40, 5000);
  }
  const double ccs = t.chance(1, 6) ? 1.0 : t.real(0.6, 1.0);
  const auto z = ref::ber_threshold(x, ccs);
  bytes b;
  const size_t depth = t.below(9);
  for (size_t i = 0; i < 8; i++) {
    const auto lo = static_cast<int>((z.lo >> (56 - 8 * i)) & 255);
    if (i < depth)
      b.push_back(static_cast<uint8_t>(lo));
    else {
      const int w = lo + static_cast<int>(t.range(-2, 2));
      const bool any = t.chance(1, 2);
      const uint8_t o = t.byte();
      b.push_back(any ? o : static_cast<uint8_t>(std::clamp(w, 0, 255)));
    }
  }
  const auto w = ref::ber_exp(x, ccs, [&](size_t i) { return b[i]; });
  if (c.verbose)
    c.desc << cat("x=", x, " ccs=", ccs, " bytes=", ref::hex(b.data(), 8));
  if (w.ambiguous)
    c.discard("acceptance depends on the last bits of the threshold");
  auto info = [&](const char* f, int bit, size_t used) {
    return cat(f, "(x=", x, ", ccs=", ccs, ", bytes ", ref::hex(b.data(), 8), ") = ", bit, " after ", used, " bytes, the specification ", w.bit, " after ", w.used);
  };
  const std::pair<int64_t, size_t> r = samplerz::ber_exp(x, ccs, b.data(), b.size());
  c.require((r.first == 1) == w.bit && r.second == w.used, [&] { return info("ber_exp", r.first, r.second); });
  auto at = [&](uint64_t i) { return i < 8 ? b[i] : det::byte_of(6, i); };
  shake256::probe::st.source = [&](uint64_t p, uint8_t* d, size_t n) {
    for (size_t i = 0; i < n; i++)
      d[i] = at(p + i);
    return true;
  };
  prng::prng_t rng;
  const int bit = samplerz::ber_exp(x, ccs, rng);
  c.require((bit == 1) == w.bit && lib::handed_out(rng, w.used, at), [&] { return info("ber_exp(prng)", bit, shake256::probe::st.total_read); });
  c.label(cat("compared ", w.used, " bytes"));
  c.label_if(z.s > 40, "shift above 40");
  c.nontrivial();
}

// the exponential approximation itself
PROP(approx_exp, 300000, 10000000)
{
  auto& t = c.t;
  const double ln2 = 0.69314718055994530942;
  const double x = t.chance(1, 8) ? (t.chance(1, 2) ? 0 : ln2) : t.real(0, ln2);
  const double ccs = t.chance(1, 8) ? 1.0 : t.real(0, 1);
  // 2^63 itself does not fit the 63-bit result; what ber_exp makes of that
  // corner is judged by the sub-property ber_exp
  if (x == 0 && ccs == 1)
    c.discard("x = 0, ccs = 1");
  const uint64_t y = samplerz::approx_exp(x, ccs);
  const ld want = 0x1p63L * static_cast<ld>(ccs) * std::exp(-static_cast<ld>(x));
  const ld err = std::fabs(static_cast<ld>(y) - want);
  if (c.verbose)
    c.desc << cat("x=", x, " ccs=", ccs);
  // 2^-43 relative to the unscaled exponential, plus rounding of the last places
  c.require(err <= 0x1p63L * static_cast<ld>(ccs) * 0x1p-43L + 4, [&] { return cat("approx_exp(", x, ", ", ccs, ") = ", y, ", expected about ", static_cast<double>(want), ", error 2^", static_cast<double>(std::log2(err / want))); });
  c.nontrivial();
}

// The specification's fixed-point evaluation, bit for bit: y
// and z are 63-bit integers, every product is cut to its top 63 bits.
PROP(approx_exp_bits, 300000, 10000000)
{
  static const uint64_t C[] = { 0x00000004741183A3, 0x00000036548CFC06, 0x0000024FDCBF140A, 0x0000171D939DE045, 0x0000D00CF58F6F84, 0x000680681CF796E3, 0x002D82D8305B0FEA,
                                0x011111110E066FD0, 0x0555555555070F00, 0x155555555581FF00, 0x400000000002B400, 0x7FFFFFFFFFFF4800, 0x8000000000000000 };
  auto& t = c.t;
  const double ln2 = 0.69314718055994530942;
  double x = t.chance(1, 8) ? (t.chance(1, 2) ? 0 : ln2) : t.real(0, ln2);
  if (t.chance(1, 5))
    x = std::ldexp(t.real(0.5, 1), -static_cast<int>(1 + t.below(62)));
  const double ccs = t.real(0, 1);
  const auto z = static_cast<uint64_t>(0x1p63 * x), s = static_cast<uint64_t>(0x1p63 * ccs);
  uint64_t y = C[0];
  for (int i = 1; i < 13; i++)
    y = C[i] - static_cast<uint64_t>((static_cast<u128>(z) * y) >> 63);
  y = static_cast<uint64_t>((static_cast<u128>(s) * y) >> 63);
  const uint64_t got = samplerz::approx_exp(x, ccs);
  if (c.verbose)
    c.desc << cat("x=", x, " ccs=", ccs);
  const uint64_t d = got > y ? got - y : y - got;
  c.require(d == 0, [&] { return cat("approx_exp(", x, ", ", ccs, ") = ", got, ", the specification's evaluation gives ", y); });
  c.nontrivial();
}

// published vectors (falcon.py, scripts/samplerz_KAT512.py and KAT1024.py)
struct kat
{
  double mu, sp, smin;
  bytes b;
  int64_t z;
};
static const std::vector<kat>&
kats()
{
  static const std::vector<kat> v = [] {
    std::vector<kat> r;
    std::ifstream f(CORPUS_DIR "/samplerz_kat.txt");
    std::string a, b, d, h, z;
    while (f >> a >> b >> d >> h >> z) {
      kat k{ std::stod(a), std::stod(b), std::stod(d), {}, std::stoll(z) };
      for (size_t i = 0; i + 1 < h.size(); i += 2)
        k.b.push_back(static_cast<uint8_t>(std::stoi(h.substr(i, 2), nullptr, 16)));
      r.push_back(k);
    }
    return r;
  }();
  return v;
}
PROP(published_vectors, 2048, 2048)
{
  if (kats().empty())
    c.fail("no vectors found");
  const auto& k = kats()[c.t.enumerate(kats().size())];
  bytes b = k.b;
  b.resize(b.size() + 4096);
  const std::pair<int64_t, size_t> r = samplerz::samplerz(k.mu, k.sp, k.smin, b.data(), b.size());
  c.require(r.first == k.z, [&] { return cat("mu=", k.mu, " sigma'=", k.sp, " bytes=", ref::hex(k.b.data(), k.b.size()), ": ", r.first, ", published ", k.z); });
  const auto w = ref::samplerz(k.mu, k.sp, k.smin, [&](size_t i) { return i < b.size() ? b[i] : 0; }, false, 4096);
  c.require(w.ambiguous || w.z == k.z, "the model disagrees with a published vector");
  c.nontrivial();
}
#endif

// the distribution, with SHAKE256 output
PROPL(distribution, 48, 1500, 300)
{
  auto& t = c.t;
  const double mu = gen_mu(t);
  const double smin = SMIN[t.below(2)];
  const double sp = t.chance(1, 6) ? smin : t.real(smin, ref::SIGMA_MAX);
  det::seed(t.u64());
  prng::prng_t rng;
  const size_t n = 200000;
  const auto fl = static_cast<int64_t>(std::floor(mu));
  constexpr int64_t W = 25;
  std::array<uint64_t, 2 * W + 1> h{};
  if (c.verbose)
    c.desc << cat("mu=", mu, " sigma'=", sp, " sigma_min=", smin, ", ", n, " samples");
  for (size_t i = 0; i < n; i++) {
    const int64_t got = samplerz::samplerz(mu, sp, smin, rng);
    const int64_t d = got - fl;
    c.require(d >= -W && d <= W, [&] { return cat("mu=", mu, ": sample ", d + fl); });
    h[static_cast<size_t>(d + W)]++;
  }
  std::array<ld, 2 * W + 1> p{};
  ld tot = 0;
  for (int64_t k = -W; k <= W; k++) {
    const ld d = static_cast<ld>(k) - (static_cast<ld>(mu) - static_cast<ld>(fl));
    tot += p[static_cast<size_t>(k + W)] = std::exp(-d * d / (2 * static_cast<ld>(sp) * sp));
  }
  // chi-square over cells of expected count >= 30, the rest pooled
  ld chi = 0, pool_e = 0;
  uint64_t pool_o = 0, df = 0;
  for (size_t i = 0; i < h.size(); i++) {
    const ld e = p[i] / tot * n;
    if (e < 30) {
      pool_e += e;
      pool_o += h[i];
      continue;
    }
    chi += (static_cast<ld>(h[i]) - e) * (static_cast<ld>(h[i]) - e) / e;
    df++;
  }
  if (pool_e > 5) {
    chi += (static_cast<ld>(pool_o) - pool_e) * (static_cast<ld>(pool_o) - pool_e) / pool_e;
    df++;
  }
  const ld k = static_cast<ld>(df - 1);
  // Wilson-Hilferty: an approximately standard normal deviate
  const ld zz = (std::cbrt(chi / k) - (1 - 2 / (9 * k))) / std::sqrt(2 / (9 * k));
  c.extra_evals += n;
  c.require(zz < 8, [&] { return cat("mu=", mu, " sigma'=", sp, " sigma_min=", smin, ": chi-square ", static_cast<double>(chi), " with ", df - 1, " degrees of freedom (", static_cast<double>(zz), " deviations)"); });
  c.nontrivial();
}
