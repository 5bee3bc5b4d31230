// C12: signatures leak nothing through their distribution
#include "ffmodel.hpp"
#include "script.hpp"
#include <set>
using pbt::cat;
using namespace st;
using namespace tt;
using Pm = ref::P<N>;
using vec = std::vector<double>;

// With n independent unit Gaussians: z score of their mean, of their mean square
static double
z_mean(const double sum, const size_t n)
{
  return sum / std::sqrt(static_cast<double>(n));
}
static double
z_var(const double sum2, const size_t n)
{ // Wilson-Hilferty
  const double k = 2.0 / (9.0 * static_cast<double>(n));
  return (std::cbrt(sum2 / static_cast<double>(n)) - (1 - k)) / std::sqrt(k);
}
constexpr double LIMIT = 7;       // about 1e-11 for two tails
constexpr double LIMIT_PAIRS = 8.5; // for millions of pairs

// orthonormal coordinates of (s1, s2) along the Gram-Schmidt vectors that the
// sampler uses, in units of sigma
struct frame
{
  ref::tree T; // leaves: |b~|^2
  cvec b00, b01, b10, b11;
  explicit frame(const lib::key& k)
    : b00(ref::fft_i(k.g))
    , b01(ref::fft_i(neg(k.f)))
    , b10(ref::fft_i(k.G))
    , b11(ref::fft_i(neg(k.F)))
  {
    cvec g00(N), g10(N), g11(N);
    for (size_t i = 0; i < N; i++) {
      g00[i] = std::norm(b00[i]) + std::norm(b01[i]);
      g10[i] = b10[i] * std::conj(b00[i]) + b11[i] * std::conj(b01[i]);
      g11[i] = std::norm(b10[i]) + std::norm(b11[i]);
    }
    T = ref::ffldl(g00, g10, g11);
  }
  static void leaves(const cvec& e0, const cvec& e1, const ref::tree& t, vec& out)
  {
    if (t.kids.empty()) {
      const ld d = std::sqrt(t.leaf);
      out.push_back(static_cast<double>(e0[0].real() * d / Pm::sigma));
      out.push_back(static_cast<double>(e1[0].real() * d / Pm::sigma));
      return;
    }
    cvec a, b;
    ref::split(e1, a, b);
    leaves(a, b, t.kids[1], out);
    cvec e(e0.size());
    for (size_t i = 0; i < e.size(); i++)
      e[i] = e0[i] + e1[i] * t.l10[i];
    ref::split(e, a, b);
    leaves(a, b, t.kids[0], out);
  }
  // e = s B^-1, B^-1 = 1/q [[-F, f], [-G, g]] = 1/q [[b11, -b01], [-b10, b00]]
  vec coords(const ivec& s1, const ivec& s2) const
  {
    const cvec S1 = ref::fft_i(s1), S2 = ref::fft_i(s2);
    cvec e0(N), e1(N);
    const ld q = ref::Q;
    for (size_t i = 0; i < N; i++) {
      e0[i] = (S1[i] * b11[i] - S2[i] * b10[i]) / q;
      e1[i] = (-S1[i] * b01[i] + S2[i] * b00[i]) / q;
    }
    vec u;
    u.reserve(2 * N);
    leaves(e0, e1, T, u);
    return u;
  }
  // <s, x^i b> / (|b| sigma), both rows, all rotations
  vec rows(const ivec& s1, const ivec& s2, const ld n0, const ld n1) const
  {
    const cvec S1 = ref::fft_i(s1), S2 = ref::fft_i(s2);
    cvec a(N), b(N);
    for (size_t i = 0; i < N; i++) {
      a[i] = S1[i] * std::conj(b00[i]) + S2[i] * std::conj(b01[i]);
      b[i] = S1[i] * std::conj(b10[i]) + S2[i] * std::conj(b11[i]);
    }
    a = ref::ifft(a), b = ref::ifft(b);
    vec r(2 * N);
    for (size_t i = 0; i < N; i++)
      r[i] = static_cast<double>(a[i].real() / (n0 * Pm::sigma)), r[N + i] = static_cast<double>(b[i].real() / (n1 * Pm::sigma));
    return r;
  }
};
struct directions
{
  const char* name;
  vec sum, sum2;
  size_t n = 0;
  explicit directions(const char* nm)
    : name(nm)
  {
  }
  void add(const vec& v)
  {
    if (sum.empty())
      sum.assign(v.size(), 0), sum2 = sum;
    for (size_t i = 0; i < v.size(); i++)
      sum[i] += v[i], sum2[i] += v[i] * v[i];
    n++;
  }
  double worst = 0;
  void judge(pbt::Ctx& c)
  {
    for (size_t i = 0; i < sum.size(); i++) {
      const double m = z_mean(sum[i], n), v = z_var(sum2[i], n);
      worst = std::max({ worst, std::fabs(m), std::fabs(v) });
      c.require(std::fabs(m) <= LIMIT, [&] { return cat("mean along ", name, " ", i, " is ", sum[i] / static_cast<double>(n), " sigma over ", n, " signatures (", m, " standard errors)"); });
      c.require(std::fabs(v) <= LIMIT, [&] { return cat("mean square along ", name, " ", i, " is ", sum2[i] / static_cast<double>(n), " sigma^2 over ", n, " signatures (", v, " standard errors)"); });
    }
    c.extra_evals += 2 * sum.size();
  }
};
static double
inv_normal(const double p)
{ // bisection: used for a few bin borders only
  double lo = -10, hi = 10;
  for (int i = 0; i < 100; i++) {
    const double m = (lo + hi) / 2;
    (0.5 * std::erfc(-m / std::sqrt(2.0)) < p ? lo : hi) = m;
  }
  return lo;
}

// many signatures with one key; mode 0: different messages and salts; 1: one
// message; 2: one message and one salt (one target point)
static void
study(pbt::Ctx& c, const size_t M)
{
  const lib::key k = variant<N>(c.t);
  const size_t mode = c.t.below(3);
  const bool pre = mode == 2 || c.t.below(2);
  const bytes sk = ref::encode_sk<N>(k.f, k.g, k.F), m0 = lib::message(c.t, 200);
  const uint64_t salt_key = c.t.u64();
  const bool own_streams = c.t.below(2);
  det::seed(c.t.u64());
  const frame fr(k);
  lib::expanded<N> x;
  std::optional<prng::prng_t> rng;
  if (pre)
    x = lib::expand<N>(k), rng.emplace();

  directions lv("Gram-Schmidt direction"), co("coordinate"), ro("secret basis row"), rd("random direction");
  Rng rr(c.t.u64());
  std::vector<vec> dirs(16, vec(2 * N));
  for (auto& d : dirs)
    for (auto& v : d)
      v = (rr.next() & 1 ? 1 : -1) / std::sqrt(2.0 * N);
  const ld n0 = std::sqrt(static_cast<ld>(ref::norm2(k.g) + ref::norm2(k.f))), n1 = std::sqrt(static_cast<ld>(ref::norm2(k.G) + ref::norm2(k.F)));
  constexpr size_t BINS = 64;
  vec border(BINS - 1);
  for (size_t i = 0; i + 1 < BINS; i++)
    border[i] = inv_normal(static_cast<double>(i + 1) / BINS);
  std::vector<uint64_t> hist(BINS, 0);
  std::vector<std::vector<float>> all;
  double lag = 0, f0 = 0, f00 = 0, f1 = 0, f11 = 0, tot = 0;
  std::set<bytes> salts, bodies;
  std::vector<uint64_t> ones(320, 0);
  vec prev;
  for (size_t i = 0; i < M; i++) {
    bytes msg = m0, sig(Pm::siglen);
    if (mode == 0)
      for (size_t j = 0; j < 8; j++)
        msg.push_back(static_cast<uint8_t>(i >> (8 * j)));
    if (mode == 2) { // the salt is fixed, everything else random
      auto pos = std::make_shared<uint64_t>(0);
      const uint64_t other = rr.next();
      // after the salt: one stream for all generators, or each its own
      shake256::probe::st.source = [pos, salt_key, other, own_streams](uint64_t, uint8_t* p, size_t n) {
        if (*pos >= 40 && own_streams)
          return false;
        for (size_t b = 0; b < n; b++, ++*pos)
          p[b] = det::byte_of(*pos < 40 ? salt_key : other, *pos);
        return true;
      };
    }
    if (pre)
      falcon::sign<N>(x.B.data(), x.T.data(), msg.data(), msg.size(), sig.data(), *rng);
    else
      c.require(falcon::sign<N>(sk.data(), msg.data(), msg.size(), sig.data()), "signing refused a valid secret key");
    const auto v = ref::verify_h<N>(k.h, msg.data(), msg.size(), sig.data());
    c.require(v.accept, "an honest signature is not valid");
    const bytes salt(sig.begin() + 1, sig.begin() + 41), body(sig.begin() + 41, sig.end());
    if (mode != 2) {
      c.require(salts.insert(salt).second, [&] { return cat("the salt ", ref::hex(salt.data(), 40), " occurs twice within ", i + 1, " signatures"); });
      for (size_t b = 0; b < 320; b++)
        ones[b] += (salt[b / 8] >> (b % 8)) & 1;
    }
    c.require(bodies.insert(body).second, [&] { return cat("the same s2 occurs twice within ", i + 1, " signatures"); });

    const vec u = fr.coords(v.s1, v.s2);
    double check = 0;
    for (auto y : u)
      check += y * y;
    c.require(std::fabs(check * Pm::sigma * Pm::sigma / static_cast<double>(v.norm) - 1) < 1e-6, "(model) coordinates are not orthonormal");
    tot += check;
    lv.add(u);
    vec s(2 * N);
    for (size_t j = 0; j < N; j++)
      s[j] = static_cast<double>(v.s1[j]) / Pm::sigma, s[N + j] = static_cast<double>(v.s2[j]) / Pm::sigma;
    co.add(s);
    vec w(dirs.size());
    for (size_t d = 0; d < dirs.size(); d++)
      for (size_t j = 0; j < 2 * N; j++)
        w[d] += dirs[d][j] * s[j];
    rd.add(w);
    const vec p = fr.rows(v.s1, v.s2, n0, n1);
    ro.add(p);
    double a = 0, b = 0;
    for (size_t j = 0; j < N; j++)
      a += std::pow(p[j], 4), b += std::pow(p[N + j], 4);
    a /= N, b /= N;
    f0 += a, f00 += a * a, f1 += b, f11 += b * b;
    if (i > 0)
      for (size_t j = 0; j < 2 * N; j++)
        lag += u[j] * prev[j];
    for (auto y : u)
      hist[static_cast<size_t>(std::upper_bound(border.begin(), border.end(), y) - border.begin())]++;
    all.emplace_back(u.begin(), u.end());
    prev = u;
  }
  const auto dM = static_cast<double>(M);
  // everything together
  const double zt = z_var(tot, M * 2 * N);
  c.require(std::fabs(zt) <= LIMIT, [&] { return cat("mean squared norm is ", tot / (dM * 2 * N), " * 2 N sigma^2 over ", M, " signatures (", zt, " standard errors)"); });
  lv.judge(c);
  co.judge(c);
  ro.judge(c);
  rd.judge(c);
  // shape
  double chi = 0;
  const double e = dM * 2 * N / BINS;
  for (auto h : hist)
    chi += (static_cast<double>(h) - e) * (static_cast<double>(h) - e) / e;
  const double zc = z_var(chi, BINS - 1);
  c.require(zc <= LIMIT, [&] { return cat("the coordinates along the Gram-Schmidt directions are not Gaussian: chi-square ", chi, " for ", BINS - 1, " degrees of freedom"); });
  // fourth moment along the secret rows: 3
  for (auto [s, q, name] : { std::tuple{ f0, f00, "(g, -f)" }, std::tuple{ f1, f11, "(G, -F)" } }) {
    const double m = s / dM, sd = std::sqrt(std::max(1e-9, q / dM - m * m));
    const double z = (m - 3) / (sd / std::sqrt(dM));
    c.require(std::fabs(z) <= LIMIT, [&] { return cat("fourth moment along ", name, " is ", m, " sigma^4 (", z, " standard errors from 3)"); });
  }
  // neighbouring signatures
  const double zl = lag / std::sqrt((dM - 1) * 2 * N);
  c.require(std::fabs(zl) <= LIMIT, [&] { return cat("consecutive signatures are correlated: ", zl, " standard errors"); });
  // all pairs of directions
  double wp = 0;
  {
    // columns
    std::vector<std::vector<float>> col(2 * N, std::vector<float>(M));
    for (size_t i = 0; i < M; i++)
      for (size_t j = 0; j < 2 * N; j++)
        col[j][i] = all[i][j];
    for (size_t i = 0; i < 2 * N; i++)
      for (size_t j = i + 1; j < 2 * N; j++) {
        float s = 0;
        for (size_t m = 0; m < M; m++)
          s += col[i][m] * col[j][m];
        const double r = static_cast<double>(s) / std::sqrt(lv.sum2[i] * lv.sum2[j]) * std::sqrt(dM);
        wp = std::max(wp, std::fabs(r));
        c.require(std::fabs(r) <= LIMIT_PAIRS, [&] { return cat("Gram-Schmidt directions ", i, " and ", j, " are correlated: ", r, " standard errors over ", M, " signatures"); });
      }
    c.extra_evals += 2 * N * N;
  }
  if (mode != 2) {
    for (size_t b = 0; b < 320; b++) {
      const double z = (2.0 * static_cast<double>(ones[b]) - dM) / std::sqrt(dM);
      c.require(std::fabs(z) <= LIMIT, [&] { return cat("bit ", b, " of the salt is set in ", ones[b], " of ", M, " signatures"); });
    }
    c.extra_evals += 320;
  }
  c.label(mode == 0 ? "different messages" : mode == 1 ? "one message, fresh salts" : "one message and salt, fresh sampling");
  c.label(pre ? "precomputed" : "one-shot");
  c.label("signatures studied", M);
  if (c.verbose)
    c.desc << M << " signatures, mode " << mode << (pre ? ", precomputed" : ", one-shot") << "; largest deviations in standard errors: Gram-Schmidt " << lv.worst << ", coordinates " << co.worst << ", basis rows "
           << ro.worst << ", norm " << zt << ", shape " << zc << ", pairs " << wp;
  c.nontrivial();
}
PROPNL(distribution, 24, 16, 0, 0, 120)
{
  study(c, N == 512 ? 600 : 400);
}
PROPNL(distribution_long, 0, 0, 160, 96, 3000)
{
  study(c, N == 512 ? 6000 : 4000);
}

// salts of many short-lived signing calls: all different, bytes uniform; signing
// the same message twice gives different signatures
PROPNL(salts, 16, 8, 200, 100, 120)
{
  const auto k = lib::pick_key<N>(c.t);
  const bytes sk = ref::encode_sk<N>(k.f, k.g, k.F), msg = lib::message(c.t, 100);
  det::seed(c.t.u64());
  const bool pre = c.t.below(2);
  lib::expanded<N> x;
  std::optional<prng::prng_t> rng;
  if (pre)
    x = lib::expand<N>(k), rng.emplace();
  constexpr size_t M = 500;
  std::set<bytes> seen;
  std::vector<uint64_t> cnt(256, 0);
  std::vector<uint64_t> ones(320, 0);
  bytes last;
  for (size_t i = 0; i < M; i++) {
    bytes sig(Pm::siglen);
    if (pre)
      falcon::sign<N>(x.B.data(), x.T.data(), msg.data(), msg.size(), sig.data(), *rng);
    else
      (void)falcon::sign<N>(sk.data(), msg.data(), msg.size(), sig.data());
    const bytes salt(sig.begin() + 1, sig.begin() + 41);
    c.require(seen.insert(salt).second, [&] { return cat("the salt ", ref::hex(salt.data(), 40), " occurs twice"); });
    // parts of salts repeat nowhere either
    for (size_t p = 0; p < 40; p += 8) {
      bytes part(salt.begin() + static_cast<long>(p), salt.begin() + static_cast<long>(p) + 8);
      part.push_back(0xff);
      c.require(seen.insert(part).second, [&] { return cat("eight bytes of a salt, ", ref::hex(part.data(), 8), ", occur twice"); });
    }
    for (size_t b = 0; b < 40; b++)
      cnt[salt[b]]++;
    for (size_t b = 0; b < 320; b++)
      ones[b] += (salt[b / 8] >> (b % 8)) & 1;
    c.require(sig != last, "the same message signed twice gives the same signature");
    last = sig;
  }
  double chi = 0;
  const double e = 40.0 * M / 256;
  for (auto h : cnt)
    chi += (static_cast<double>(h) - e) * (static_cast<double>(h) - e) / e;
  c.require(std::fabs(z_var(chi, 255)) <= LIMIT, [&] { return cat("bytes of the salts are not uniform: chi-square ", chi, " for 255 degrees of freedom"); });
  for (size_t b = 0; b < 320; b++) {
    const double z = (2.0 * static_cast<double>(ones[b]) - M) / std::sqrt(static_cast<double>(M));
    c.require(std::fabs(z) <= LIMIT, [&] { return cat("bit ", b, " of the salt is set in ", ones[b], " of ", M, " signatures"); });
  }
  c.extra_evals += M;
  if (c.verbose)
    c.desc << M << " salts, chi-square of bytes " << chi;
  c.nontrivial();
}

#ifndef PBT_PUBLIC_ONLY
// For a known random stream: the signature is the specification's, that is, the
// first acceptable one of freshly drawn candidates, whatever was rejected before
PROPN(first_acceptable, 900, 400, 24000, 10000)
{
  auto& t = c.t;
  constexpr size_t LG = Pm::logn;
  const lib::key k = variant<N>(t);
  const bytes sk = ref::encode_sk<N>(k.f, k.g, k.F);
  const size_t mode = t.pick({ 3, 3, 3 });
  const bool pre = mode == 1 || t.below(2);
  const size_t calls = pre ? 1 + t.below(3) : 1;
  const uint64_t key = t.u64();
  auto x = lib::expand<N>(k);
  if (mode == 1) { // wider leaves, within what the sampler supports: many candidates too long
    const double w = t.real(1.07, 1.115);
    for (size_t i = 0; i < N; i++)
      x.T[LG * N + i] = std::min(1.82, x.T[LG * N + i].real() * w);
  }
  const ref::tree T = own_tree<LG, LG>(x.T.data());
  std::vector<bytes> msgs;
  for (size_t i = 0; i < calls; i++)
    msgs.push_back(lib::message(t, 200));
  bytes head;
  if (mode == 2) { // chosen candidates first, which are too long
    Rng r(t.u64());
    head = rnd_bytes(r, 40);
    const ivec h2p = ref::hash_to_point(head.data(), 40, msgs[0].data(), msgs[0].size(), N);
    ref::tree exact = frame(k).T;
    normalise(exact, Pm::sigma);
    const ld top = static_cast<ld>(Pm::beta2) / (2 * N) * static_cast<ld>(t.real(1.0, 6));
    std::vector<ld> a1(N), a2(N);
    for (size_t i = 0; i < N; i++)
      a1[i] = std::sqrt(top) * static_cast<ld>(gauss(r)), a2[i] = std::sqrt(top) * static_cast<ld>(gauss(r));
    const auto cand = script::aim<N>(k, exact, h2p, a1, a2);
    for (size_t n = 1 + t.below(4); n > 0; n--)
      head.insert(head.end(), cand.stream.begin(), cand.stream.end());
  }
  auto at = [&](const uint64_t i) { return i < head.size() ? head[i] : det::byte_of(key, i); };
  shake256::probe::st.source = [&](uint64_t p, uint8_t* d, size_t n) {
    for (size_t i = 0; i < n; i++)
      d[i] = at(p + i);
    return true;
  };
  prng::prng_t rng;
  uint64_t pos = 0;
  for (size_t call = 0; call < calls; call++) {
    const bytes& msg = msgs[call];
    bytes sig(Pm::siglen);
    shake256::probe::st.budget = 4000000;
    try {
      if (pre)
        falcon::sign<N>(x.B.data(), x.T.data(), msg.data(), msg.size(), sig.data(), rng);
      else
        c.require(falcon::sign<N>(sk.data(), msg.data(), msg.size(), sig.data()), "signing refused a valid secret key");
    } catch (const shake256::probe::budget_exceeded&) {
      c.fail("signing does not end: it reads random bytes without limit");
    }
    const uint64_t end = shake256::probe::st.total_read;
    // where the salt lies in the stream; the rest feeds the sampler
    auto is_salt = [&](const uint64_t p) {
      for (size_t i = 0; i < 40; i++)
        if (at(p + i) != sig[1 + i])
          return false;
      return true;
    };
    uint64_t sp = pos;
    while (sp + 40 <= end && !is_salt(sp))
      sp++;
    if (sp + 40 > end)
      c.discard("the salt is not forty consecutive bytes of the stream");
    const ivec cc = ref::hash_to_point(sig.data() + 1, 40, msg.data(), msg.size(), N);
    const cvec C = ref::fft_i(cc), ff = ref::fft_i(k.f), FF = ref::fft_i(k.F);
    cvec t0(N), t1(N);
    for (size_t i = 0; i < N; i++)
      t0[i] = -C[i] * FF[i] / static_cast<ld>(ref::Q), t1[i] = C[i] * ff[i] / static_cast<ld>(ref::Q);
    uint64_t from = pos;
    size_t rejected = 0, too_long = 0;
    auto info = [&] { return cat(show(k), mode == 1 ? "; widened leaves" : mode == 2 ? "; chosen candidates first" : "", "; stream key ", key, ", call ", call, pre ? " (precomputed)" : " (one-shot)", ", candidates rejected before: ", rejected); };
    bytes want;
    while (want.empty()) {
      if (rejected > 40)
        c.discard("more than forty candidates");
      const auto r = ffm::model(t0, t1, T, Pm::sigma_min, [&](const uint64_t i) { const uint64_t p = from + i; return at(p < sp ? p : p + 40); });
      if (r.ambiguous)
        c.discard("outcome within rounding errors");
      from += r.used;
      const ivec p = ref::mul(r.z0, k.g), q = ref::mul(r.z1, k.G), u = ref::mul(r.z0, k.f), v = ref::mul(r.z1, k.F);
      ivec s1(N), s2(N);
      for (size_t i = 0; i < N; i++)
        s1[i] = cc[i] - p[i] - q[i], s2[i] = u[i] + v[i];
      const int64_t norm = ref::norm2(s1) + ref::norm2(s2);
      if (std::llabs(norm - Pm::beta2) < 50)
        c.discard("norm within rounding errors of the bound");
      if (norm <= Pm::beta2) {
        want = make_sig<N>(bytes(sig.begin() + 1, sig.begin() + 41), s2);
        too_long += want.empty();
      }
      rejected += want.empty();
    }
    c.require(sig == want, [&] {
      const auto got = ref::verify_h<N>(k.h, msg.data(), msg.size(), sig.data());
      return cat("the signature is not the first acceptable candidate that the specification draws from this random stream (emitted: squared norm ", got.norm, "); ", info());
    });
    c.label(rejected == 0 ? "no candidate rejected" : rejected == 1 ? "one candidate rejected" : "several candidates rejected");
    c.label_if(too_long > 0, "rejected for its encoding");
    c.extra_evals += rejected;
    if (c.verbose)
      c.desc << (pre ? "precomputed" : "one-shot") << ", mode " << mode << ", call " << call << ": " << rejected << " candidates rejected before; ";
    pos = end;
    from = end;
  }
  c.nontrivial();
}
#endif
