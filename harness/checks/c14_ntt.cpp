// C14: the NTT is an exact ring isomorphism
#include "shape.hpp"
#include "sigtools.hpp"
using pbt::cat;
using namespace st;
constexpr size_t LG = ref::P<N>::logn;

static std::vector<ff::ff_t>
fwd(pbt::Ctx& c, const ivec& a)
{
  auto v = lib::to_ff<N>(a);
  ntt::ntt<LG>(v.data());
  for (auto& x : v)
    c.require(x.v < ref::Q, [&] { return cat("ntt yields the value ", x.v); });
  return v;
}
static ivec
inv(pbt::Ctx& c, std::vector<ff::ff_t> v)
{
  ntt::intt<LG>(v.data());
  for (auto& x : v)
    c.require(x.v < ref::Q, [&] { return cat("intt yields the value ", x.v); });
  return lib::from_ff(v.data(), N);
}
// the evaluation points, in the library's order: the transform of x
static const ivec&
points(pbt::Ctx& c)
{
  static ivec p;
  if (p.empty()) {
    ivec x(N, 0);
    x[1] = 1;
    const auto v = fwd(c, x);
    ivec r = lib::from_ff(v.data(), N);
    std::vector<bool> seen(ref::Q);
    for (size_t i = 0; i < N; i++) {
      c.require(ref::powq(r[i], N) == ref::Q - 1, [&] { return cat("value ", i, " of the transform of x is ", r[i], ", no root of x^", N, "+1"); });
      c.require(!seen[static_cast<size_t>(r[i])], [&] { return cat("root ", r[i], " occurs twice in the transform of x"); });
      seen[static_cast<size_t>(r[i])] = true;
    }
    p = r;
  }
  return p;
}
static ivec
gen(pbt::Ctx& c)
{
  auto& t = c.t;
  const size_t m = t.pick({ 5, 2, 2, 2, 1, 1 });
  Rng r(t.u64());
  ivec a(N, 0);
  switch (m) {
    case 0:
      for (auto& x : a)
        x = uni(r, 0, ref::Q - 1);
      break;
    case 1:
      for (int64_t k = uni(r, 1, 5); k > 0; k--)
        a[static_cast<size_t>(uni(r, 0, N - 1))] = uni(r, 0, ref::Q - 1);
      break;
    case 2:
      for (auto& x : a)
        x = ref::mod(uni(r, -20, 20));
      break;
    case 3: {
      const int64_t e[] = { 0, 1, ref::Q - 1, ref::Q / 2, ref::Q / 2 + 1, ref::Q - 2 };
      for (auto& x : a)
        x = e[uni(r, 0, 5)];
      break;
    }
    case 4:
      a.assign(N, ref::Q - 1);
      break;
    default: { // a transform that is extreme everywhere, or zero at places
      const int64_t v = uni(r, 0, 1) ? ref::Q - 1 : 1;
      for (auto& x : a)
        x = uni(r, 0, 3) ? v : 0;
      a = ref::interpq(a);
    }
  }
  shape::some(c, a, 4, [](int64_t x) { return ref::mod(-x); });
  return a;
}
static int64_t
horner(const ivec& a, const int64_t x)
{
  uint64_t r = 0;
  for (size_t i = N; i-- > 0;)
    r = (r * static_cast<uint64_t>(x) + static_cast<uint64_t>(a[i])) % static_cast<uint64_t>(ref::Q);
  return static_cast<int64_t>(r);
}

PROPN(evaluations, 6000, 2000, 100000, 40000)
{
  const ivec a = gen(c);
  if (c.verbose)
    c.desc << "a=" << ref::show(a);
  const auto& p = points(c);
  const auto v = fwd(c, a);
  for (size_t i = 0; i < N; i++)
    c.require(v[i].v == horner(a, p[i]), [&] { return cat("value ", i, " of ntt is ", v[i].v, ", a(", p[i], ") = ", horner(a, p[i]), "; a ", ref::show(a, N)); });
  c.extra_evals += N;
  c.nontrivial();
}

PROPN(inverse, 60000, 30000, 2000000, 1000000)
{
  const ivec a = gen(c);
  if (c.verbose)
    c.desc << "a=" << ref::show(a);
  c.require(inv(c, fwd(c, a)) == a, [&] { return cat("intt(ntt(a)) != a; a ", ref::show(a, N)); });
  const ivec b = inv(c, lib::to_ff<N>(a));
  const auto v = fwd(c, b);
  c.require(lib::from_ff(v.data(), N) == a, [&] { return cat("ntt(intt(v)) != v; v ", ref::show(a, N)); });
  // both equal up to the order of the points (the values as a multiset)
  if (c.t.chance(1, 16)) {
    auto x = lib::from_ff(fwd(c, a).data(), N), y = ref::evalq(a);
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    c.require(x == y, "the values are not those at the roots of x^N+1");
  }
  c.nontrivial();
}

PROPN(ring, 6000, 2000, 60000, 24000)
{
  const ivec a = gen(c), b = c.t.below(12) == 11 ? a : gen(c);
  if (c.verbose)
    c.desc << "a=" << ref::show(a) << " b=" << ref::show(b);
  auto info = [&](const char* op) { return cat(op, "; a ", ref::show(a, N), " b ", ref::show(b, N)); };
  const auto A = fwd(c, a), B = fwd(c, b);
  std::vector<ff::ff_t> R(N);
  polynomial::mul<LG>(A.data(), B.data(), R.data());
  const ivec prod = ref::mulq(a, b);
  c.require(inv(c, R) == prod, [&] { return info("product"); });
  c.require(ref::mulq_fast(a, b) == prod, "harness: the two reference products differ");
  R = A;
  polynomial::add_to<LG>(R.data(), B.data());
  ivec s(N), n(N);
  for (size_t i = 0; i < N; i++) {
    s[i] = ref::mod(a[i] + b[i]);
    n[i] = ref::mod(-a[i]);
  }
  c.require(inv(c, R) == s, [&] { return info("sum"); });
  R = A;
  polynomial::neg<LG>(R.data());
  c.require(inv(c, R) == n, [&] { return info("negation"); });
  size_t zeros = 0;
  if (ref::invertible(b)) {
    polynomial::div<LG>(A.data(), B.data(), R.data());
    const ivec q = inv(c, R);
    c.require(ref::mulq(q, b) == a, [&] { return info("quotient"); });
    // and (a b) / b
    const auto PR = fwd(c, prod);
    polynomial::div<LG>(PR.data(), B.data(), R.data());
    c.require(inv(c, R) == a, [&] { return info("quotient of the product"); });
    c.label("division");
  }
  // element by element, zero where the divisor is
  polynomial::div<LG>(A.data(), B.data(), R.data());
  for (size_t i = 0; i < N; i++) {
    const auto x = static_cast<int64_t>(A[i].v), y = static_cast<int64_t>(B[i].v), q = static_cast<int64_t>(R[i].v);
    c.require(q < ref::Q && (y == 0 ? q == 0 : q * y % ref::Q == x % ref::Q), [&] { return info(cat("element ", i, " of the quotient: ", x, " / ", y, " gives ", q).c_str()); });
    if (y == 0)
      zeros++;
  }
  c.label_if(zeros > 0, "divisor with zeros in its transform");
  c.nontrivial();
}
