// C13: arithmetic modulo 12289, exhaustively
#include "lib.hpp"
using ff::ff_t;
using pbt::cat;
static constexpr uint32_t Q = 12289;

static ff_t
mk(uint32_t v)
{
  ff_t r;
  r.v = static_cast<uint16_t>(v);
  return r;
}

// every pair (a, b): case = a, all b inside
PROP(pairs, 12289, 12289)
{
  const auto a = static_cast<uint32_t>(c.t.enumerate(Q));
  const ff_t x = mk(a);
  static const std::vector<uint32_t> inv = [] {
    std::vector<uint32_t> r(Q, 0);
    for (uint32_t i = 1; i < Q; i++)
      r[i] = static_cast<uint32_t>(ref::invq(i));
    return r;
  }();
  auto bad = [&](const char* op, uint32_t b, uint32_t got, uint32_t want) {
    c.fail(cat(op, ": a=", a, " b=", b, " gives ", got, ", expected ", want));
  };
  for (uint32_t b = 0; b < Q; b++) {
    const ff_t y = mk(b);
    uint32_t w;
#define CK(OP, EXPR, WANT)                                                     \
  w = (WANT);                                                                  \
  if (const uint32_t got = (EXPR).v; got != w) [[unlikely]]                    \
  bad(OP, b, got, w)
    CK("a+b", x + y, (a + b) % Q);
    CK("a-b", x - y, (a + Q - b) % Q);
    CK("a*b", x * y, a * b % Q);
    CK("a/b", x / y, a * inv[b] % Q);
    ff_t z = x;
    z += y;
    CK("a+=b", z, (a + b) % Q);
    z = x;
    z *= y;
    CK("a*=b", z, a * b % Q);
#undef CK
    const bool cmp = (x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) &&
                     (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b);
    if (!cmp) [[unlikely]]
      bad("comparison", b, 0, 1);
    if (y.v != b || x.v != a)
      bad("operand modified", b, 0, 1);
  }
  c.extra_evals = 7ull * Q;
  c.nontrivial();
  if (c.verbose)
    c.desc << "a=" << a << " with every b in [0,12289): + - * / += *= and comparisons";
}

PROP(unary, 12289, 12289)
{
  const auto a = static_cast<uint32_t>(c.t.enumerate(Q));
  const ff_t x = mk(a);
  const uint32_t n = (-x).v, i = x.inv().v;
  c.require(n == (Q - a) % Q, [&] { return cat("-a: a=", a, " gives ", n); });
  const auto wi = a ? static_cast<uint32_t>(ref::invq(a)) : 0u;
  c.require(i == wi, [&] { return cat("inv: a=", a, " gives ", i, ", expected ", wi); });
  // both operands the same object
  {
    ff_t z = x;
    z += z;
    c.require(z.v == 2 * a % Q, [&] { return cat("x += x: x=", a, " gives ", z.v); });
    z = x;
    z *= z;
    c.require(z.v == a * a % Q, [&] { return cat("x *= x: x=", a, " gives ", z.v); });
    z = x;
    z = -z;
    c.require(z.v == (Q - a) % Q, [&] { return cat("x = -x: x=", a, " gives ", z.v); });
    z = x;
    z = z.inv();
    c.require(z.v == wi, [&] { return cat("x = 1/x: x=", a, " gives ", z.v); });
    const ff_t s1 = x + x, s2 = x - x, s3 = x * x, s4 = x / x;
    c.require(s1.v == 2 * a % Q && s2.v == 0 && s3.v == a * a % Q && s4.v == (a ? 1 : 0), [&] { return cat("x + x, x - x, x * x, x / x: x=", a, " give ", s1.v, ", ", s2.v, ", ", s3.v, ", ", s4.v); });
    c.require(x == x && !(x != x) && !(x < x) && !(x > x) && x <= x && x >= x, [&] { return cat("comparison of x with itself: x=", a); });
  }
  // small exponents, all of them
  for (uint64_t e = 0; e < 70; e++) {
    const uint32_t p = (x ^ e).v;
    const auto w = static_cast<uint32_t>(ref::powq(a, e));
    c.require(p == w, [&] { return cat("a^e: a=", a, " e=", e, " gives ", p, ", expected ", w); });
  }
  for (size_t l = 0; l < 14; l++) {
    const uint32_t s = (x << l).v, r = (x >> l).v;
    c.require(s < Q && r < Q, [&] { return cat("shift of ", a, " by ", l, " is not canonical"); });
    if ((a << l) < 65536)
      c.require(s == (a << l) % Q, [&] { return cat(a, " << ", l, " gives ", s); });
  }
  c.nontrivial();
  if (c.verbose)
    c.desc << "a=" << a << ": negation, inverse, a^0..a^69, shifts";
}

PROP(construct, 65536, 65536)
{
  const auto v = static_cast<uint16_t>(c.t.enumerate(65536));
  const uint32_t g = ff_t{ v }.v;
  c.require(g == v % Q, [&] { return cat("ff_t{", v, "} holds ", g); });
  if (v >= Q)
    c.nontrivial();
  if (c.verbose)
    c.desc << "ff_t{" << v << "}";
}

PROP(exponent, 200000, 4000000)
{
  auto& t = c.t;
  const auto a = static_cast<uint32_t>(t.chance(1, 16) ? t.below(3) * 6144 : t.below(Q));
  uint64_t e;
  switch (t.pick({ 4, 2, 2, 1 })) {
    case 0:
      e = t.u64();
      break;
    case 1:
      e = (1ull << t.below(64)) + t.below(3) - 1;
      break;
    case 2:
      e = t.u64() >> t.below(64);
      break;
    default:
      e = ~0ull - t.below(4);
  }
  const uint32_t p = (mk(a) ^ e).v;
  const auto w = static_cast<uint32_t>(ref::powq(a, e));
  c.require(p == w, [&] { return cat(a, "^", e, " gives ", p, ", expected ", w); });
  if (a > 1 && e > 1)
    c.nontrivial();
  c.label(e >> 32 ? "exponent above 32 bits" : "exponent up to 32 bits");
  if (c.verbose)
    c.desc << a << "^" << e;
}

PROP(constants, 1, 1)
{
  c.require(ff::Q == 12289 && ff_t::zero().v == 0 && ff_t::one().v == 1 && ff_t{}.v == 0, "constants");
  c.nontrivial();
}

// ff_t::random: canonical, covering, roughly uniform (entropy is substituted)
PROP(random_elements, 32, 400)
{
  det::seed(c.t.u64());
  constexpr size_t n = 20000, bins = 49;
  std::vector<uint32_t> h(bins, 0);
  double sum = 0;
  for (size_t i = 0; i < n; i++) {
    const uint32_t v = ff_t::random().v;
    c.require(v < Q, [&] { return cat("random element ", v); });
    h[v * bins / Q]++;
    sum += v;
  }
  double chi = 0;
  for (size_t b = 0; b < bins; b++) {
    // bin b holds the v with v*bins/Q == b
    const double cnt = std::ceil((static_cast<double>(b) + 1) * Q / bins) - std::ceil(static_cast<double>(b) * Q / bins);
    const double e = n * cnt / Q;
    chi += (h[b] - e) * (h[b] - e) / e;
    c.require(h[b] > 0, [&] { return cat("no random element in bin ", b, " of ", bins); });
  }
  // 48 degrees of freedom: mean 48, deviation 9.8; 160 has probability < 1e-13
  c.require(chi < 160, [&] { return cat("chi-square ", chi, " with 48 degrees of freedom"); });
  c.extra_evals = n;
  c.nontrivial();
  if (c.verbose)
    c.desc << n << " random elements, chi-square " << chi << " (48 d.o.f.), mean " << sum / n;
}
