// C21: 72-bit integers
#include "lib.hpp"
#include <type_traits>
using u72::u72_t;
using ref::u128;
using pbt::cat;
static const u128 M72 = (static_cast<u128>(1) << 72) - 1;

static u128
val(const u72_t& x)
{
  return (static_cast<u128>(x.hi) << 64) | x.lo;
}
static u72_t
mk(u128 v)
{
  return u72_t{ static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v) };
}
static std::string
sh(u128 v)
{
  char b[40];
  std::snprintf(b, sizeof b, "0x%02x%016llx", static_cast<unsigned>(v >> 64) & 0xffffff, static_cast<unsigned long long>(v));
  return b;
}

static u128
gen(pbt::Tape& t)
{
  u128 v = 0;
  switch (t.pick({ 4, 3, 3, 2, 2 })) {
    case 0:
      v = (static_cast<u128>(t.below(256)) << 64) | t.u64();
      break;
    case 1: // near a power of two
      v = (static_cast<u128>(1) << t.below(73)) + t.below(5) - 2;
      break;
    case 2: { // word-boundary patterns
      static const uint64_t lo[] = { 0, 1, ~0ull, ~0ull - 1, 1ull << 63, (1ull << 63) - 1, (1ull << 63) + 1 };
      static const uint64_t hi[] = { 0, 1, 0x7f, 0x80, 0xfe, 0xff };
      v = (static_cast<u128>(hi[t.below(6)]) << 64) | lo[t.below(7)];
      break;
    }
    case 3: // few bytes set
      for (int i = 0; i < 2; i++)
        v |= static_cast<u128>(t.byte()) << (8 * t.below(9));
      break;
    default:
      v = ((static_cast<u128>(t.below(256)) << 64) | t.u64()) >> t.below(72);
  }
  return v & M72;
}

PROP(arithmetic, 3000000, 60000000)
{
  auto& t = c.t;
  const u128 a = gen(t);
  u128 b;
  switch (t.pick({ 4, 1, 1, 1 })) {
    case 0:
      b = gen(t);
      break;
    case 1:
      b = a;
      break;
    case 2:
      b = (a + t.below(5) - 2) & M72;
      break;
    default:
      b = (M72 - a + t.below(5)) & M72; // sums around 2^72
  }
  const u72_t x = mk(a), y = mk(b);
  if (c.verbose)
    c.desc << "a=" << sh(a) << " b=" << sh(b);
  auto bad = [&](const char* op, u128 got, u128 want) {
    c.fail(cat(op, ": a=", sh(a), " b=", sh(b), " gives ", sh(got), " expected ", sh(want)));
  };
  if (u128 g = val(x + y), w = (a + b) & M72; g != w)
    bad("a+b", g, w);
  if (u128 g = val(x - y), w = (a - b) & M72; g != w)
    bad("a-b", g, w);
  if (u128 g = val(-x), w = (0 - a) & M72; g != w)
    bad("-a", g, w);
  if ((x > y) != (a > b))
    bad("a>b", x > y, a > b);
  if ((x < y) != (a < b))
    bad("a<b", x < y, a < b);
  const bool carry = (static_cast<uint64_t>(a) + static_cast<uint64_t>(b)) < static_cast<uint64_t>(a);
  const bool borrow = static_cast<uint64_t>(a) < static_cast<uint64_t>(b);
  c.label_if(carry, "carry between words");
  c.label_if(borrow, "borrow between words");
  c.label_if(a == b, "equal");
  c.label_if((a >> 64) == (b >> 64), "high words equal");
  c.extra_evals = 5;
  if (carry || borrow || (a >> 64) == (b >> 64))
    c.nontrivial();
}

PROP(bytes_order, 1000000, 20000000)
{
  auto& t = c.t;
  const u128 a = gen(t);
  if (c.verbose)
    c.desc << sh(a);
  const u72_t x = mk(a);
  const auto be = x.to_be_bytes(), le = x.to_le_bytes();
  for (size_t i = 0; i < 9; i++) {
    const auto w = static_cast<uint8_t>(a >> (8 * i));
    c.require(le[i] == w, [&] { return cat("little-endian byte ", i, " of ", sh(a)); });
    c.require(be[8 - i] == w, [&] { return cat("big-endian byte ", 8 - i, " of ", sh(a)); });
  }
  auto b2 = be, l2 = le;
  c.require(val(u72_t::from_be_bytes(std::move(b2))) == a, [&] { return cat("from_be_bytes(to_be_bytes(", sh(a), "))"); });
  c.require(val(u72_t::from_le_bytes(std::move(l2))) == a, [&] { return cat("from_le_bytes(to_le_bytes(", sh(a), "))"); });
  c.extra_evals = 4;
  if (a >> 64)
    c.nontrivial();
}

// all pairs of boundary values
PROP(boundary_pairs, 1, 1)
{
  std::vector<u128> v;
  for (int i = 0; i <= 72; i++)
    for (int d = -2; d <= 2; d++)
      v.push_back(((static_cast<u128>(1) << i) + static_cast<u128>(d)) & M72);
  for (auto r : ref::rcdt())
    for (int d = -1; d <= 1; d++)
      v.push_back((r + static_cast<u128>(d)) & M72);
  for (auto a : v)
    for (auto b : v) {
      const u72_t x = mk(a), y = mk(b);
      const bool ok = val(x + y) == ((a + b) & M72) && val(x - y) == ((a - b) & M72) && (x > y) == (a > b) && (x < y) == (a < b);
      c.require(ok, [&] { return cat("a=", sh(a), " b=", sh(b)); });
    }
  // the same at compile time
  constexpr u72_t k1 = u72_t{ 0, ~0ull } + u72_t{ 0, 1 }, k2 = u72_t{ 1, 0 } - u72_t{ 0, 1 }, k3 = -u72_t{ 0, 1 };
  c.require(k1.hi == 1 && k1.lo == 0 && k2.hi == 0 && k2.lo == ~0ull && k3.hi == 255 && k3.lo == ~0ull, "constant evaluation");
  c.require(val(u72_t::zero()) == 0 && val(u72_t{}) == 0, "zero");
  c.extra_evals = v.size() * v.size();
  c.nontrivial();
  if (c.verbose)
    c.desc << v.size() << "^2 pairs of boundary values";
}
