// C22: big-integer polynomial multiplication
#include "lib.hpp"
#include "bigint.hpp"
#include "shape.hpp"
using pbt::cat;

template<size_t n>
static void
run(pbt::Ctx& c)
{
  auto& t = c.t;
  const auto sh = big::shape(t, n <= 64 ? 4000 : n <= 256 ? 600 : 200);
  auto a = big::poly(t, n, sh.bits_a, sh.kind_a), b = big::poly(t, n, sh.bits_b, sh.kind_b);
  const auto neg = [](const mpz_class& v) { return mpz_class(-v); };
  shape::some(c, a, 4, neg);
  shape::some(c, b, 4, neg);
  if (t.below(12) == 11) {
    b = a;
    if (t.below(2))
      for (auto& v : b)
        v = -v;
  }
  if (c.verbose)
    c.desc << "n=" << n << " bits " << sh.bits_a << "/" << sh.bits_b << " a=" << big::show(a) << " b=" << big::show(b);
  std::array<mpz_class, n> x, y;
  std::copy(a.begin(), a.end(), x.begin());
  std::copy(b.begin(), b.end(), y.begin());
  const std::array<mpz_class, 2 * n> full = karatsuba::karatsuba<n>(x, y);
  const std::array<mpz_class, n> red = karatsuba::karamul<n>(x, y);
  const auto want = big::mul_full(a, b);
  for (size_t i = 0; i < 2 * n; i++)
    c.require(full[i] == want[i], [&] {
      return cat("product coefficient ", i, " of ", 2 * n, ": ", full[i].get_str(), " expected ", want[i].get_str());
    });
  for (size_t i = 0; i < n; i++)
    c.require(red[i] == want[i] - want[n + i], [&] {
      return cat("reduced product coefficient ", i, ": ", red[i].get_str(), " expected ", mpz_class(want[i] - want[n + i]).get_str());
    });
  for (size_t i = 0; i < n; i++)
    c.require(x[i] == a[i] && y[i] == b[i], "operand modified");
  c.label(cat("n=", n));
  c.label_if(sh.bits_a > 64 || sh.bits_b > 64, "coefficients above 64 bits");
  bool nza = false, nzb = false;
  for (auto& v : a)
    nza |= v != 0;
  for (auto& v : b)
    nzb |= v != 0;
  if (nza && nzb)
    c.nontrivial();
}

static const std::array<void (*)(pbt::Ctx&), 11> RUN = { run<1>,  run<2>,   run<4>,   run<8>,   run<16>,  run<32>,
                                                         run<64>, run<128>, run<256>, run<512>, run<1024> };

PROP(small_sizes, 24000, 600000)
{
  RUN[c.t.below(6)](c);
}
PROP(medium_sizes, 2400, 60000)
{
  RUN[6 + c.t.below(3)](c);
}
PROP(large_sizes, 160, 3000)
{
  RUN[9 + c.t.below(2)](c);
}

// bilinearity on the largest size: (a + b) * d = a * d + b * d, exact
PROP(unit_vectors, 2048, 8192)
{
  auto& t = c.t;
  constexpr size_t n = 128;
  // x^i * x^j = +-x^(i+j): with i, j enumerated over a grid
  const size_t i = t.enumerate(n), j = t.below(n);
  std::array<mpz_class, n> x{}, y{};
  const mpz_class p = big::number(t, 1 + t.below(300)), q = big::number(t, 1 + t.below(300));
  x[i] = p;
  y[j] = q;
  const std::array<mpz_class, 2 * n> full = karatsuba::karatsuba<n>(x, y);
  const std::array<mpz_class, n> red = karatsuba::karamul<n>(x, y);
  for (size_t k = 0; k < 2 * n; k++)
    c.require(full[k] == (k == i + j ? mpz_class(p * q) : mpz_class(0)), [&] { return cat("x^", i, "*x^", j, " coefficient ", k); });
  for (size_t k = 0; k < n; k++) {
    mpz_class w = 0;
    if (k == (i + j) % n)
      w = i + j >= n ? mpz_class(-p * q) : mpz_class(p * q);
    c.require(red[k] == w, [&] { return cat("reduced x^", i, "*x^", j, " coefficient ", k); });
  }
  if (p != 0 && q != 0)
    c.nontrivial();
  if (c.verbose)
    c.desc << p.get_str() << "*x^" << i << " times " << q.get_str() << "*x^" << j << " (n=128)";
}
