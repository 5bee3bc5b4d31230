// C15: the FFT is accurate at every size
#include "shape.hpp"
#include "sigtools.hpp"
using pbt::cat;
using namespace st;
using ref::cld;
using ref::cvec;
using ref::ld;
using cd = std::complex<double>;
using dvec = std::vector<cd>;
constexpr ld EPS = 0x1p-53L;
// allowed error, in units of EPS * (log2 n + 1) * (norm of the data); the largest
// seen on 500k generated cases is 12
#ifndef PBT_TOL
#define PBT_TOL 60
#endif
constexpr ld TOL = PBT_TOL;

static ld
norm(const cvec& a)
{
  ld s = 0;
  for (auto& x : a)
    s += std::norm(x);
  return std::sqrt(s);
}
static cvec
up(const dvec& a)
{
  cvec r(a.size());
  for (size_t i = 0; i < a.size(); i++)
    r[i] = cld(a[i].real(), a[i].imag());
  return r;
}
#ifdef PBT_MEASURE
static ld worst = 0;
#endif
static void
near(pbt::Ctx& c, const dvec& got, const cvec& want, const ld scale, const size_t lg, const char* what)
{
  const ld tol = TOL * EPS * static_cast<ld>(lg + 1) * scale;
  for (size_t i = 0; i < got.size(); i++) {
    const ld e = std::abs(cld(got[i].real(), got[i].imag()) - want[i]);
#ifdef PBT_MEASURE
    if (scale > 0 && e / (EPS * static_cast<ld>(lg + 1) * scale) > worst) {
      worst = e / (EPS * static_cast<ld>(lg + 1) * scale);
      std::fprintf(stderr, "worst %Lf %s lg %zu\n", worst, what, lg);
    }
#endif
    c.require(!(e > tol) && std::isfinite(static_cast<double>(e)), [&] {
      return cat(what, " at size ", got.size(), ": value ", i, " is ", got[i], ", exact ", cd(static_cast<double>(want[i].real()), static_cast<double>(want[i].imag())), ", error ",
                 static_cast<double>(e), " above ", static_cast<double>(tol));
    });
  }
}
// position i of the library's transform is the evaluation at the root number
// order[i] of the model
template<size_t LG>
static const std::vector<size_t>&
order(pbt::Ctx& c)
{
  static std::vector<size_t> o;
  if (o.empty()) {
    constexpr size_t n = 1ul << LG;
    dvec x(n, cd(0));
    x[1] = 1;
    fft::fft<LG>(x.data());
    std::vector<bool> seen(n);
    std::vector<size_t> r(n);
    for (size_t i = 0; i < n; i++) {
      const ld a = std::atan2(static_cast<ld>(x[i].imag()), static_cast<ld>(x[i].real())) * n / 3.14159265358979323846L;
      auto k = static_cast<int64_t>(std::llround((static_cast<double>(a) - 1) / 2));
      k = (k % static_cast<int64_t>(n) + static_cast<int64_t>(n)) % static_cast<int64_t>(n);
      r[i] = static_cast<size_t>(k);
      c.require(!seen[r[i]], [&] { return cat("size ", n, ": the transform of x holds a root twice"); });
      seen[r[i]] = true;
      const cld w = ref::root(n, r[i]);
      c.require(std::abs(cld(x[i].real(), x[i].imag()) - w) < 4 * EPS, [&] { return cat("size ", n, ": value ", i, " of the transform of x is ", x[i], ", no root of x^n+1"); });
    }
    o = r;
  }
  return o;
}
template<size_t LG>
static cvec
lib_order(pbt::Ctx& c, const cvec& own)
{
  const auto& o = order<LG>(c);
  cvec r(own.size());
  for (size_t i = 0; i < own.size(); i++)
    r[i] = own[o[i]];
  return r;
}
template<size_t LG>
static cvec
own_order(pbt::Ctx& c, const cvec& l)
{
  const auto& o = order<LG>(c);
  cvec r(l.size());
  for (size_t i = 0; i < l.size(); i++)
    r[o[i]] = l[i];
  return r;
}
static dvec
gen(pbt::Ctx& c, const size_t n)
{
  auto& t = c.t;
  const size_t m = t.pick({ 4, 2, 2, 2, 2, 1 });
  const bool real = t.chance(1, 2);
  const double sc = std::ldexp(1.0, static_cast<int>(t.range(-60, 60)));
  Rng r(t.u64());
  dvec a(n, cd(0));
  auto num = [&](double x, double y) { return cd(x, real ? 0 : y); };
  switch (m) {
    case 0:
      for (auto& x : a)
        x = sc * num(gauss(r), gauss(r));
      break;
    case 1: // integers
      for (auto& x : a)
        x = num(static_cast<double>(uni(r, -12289, 12289)), static_cast<double>(uni(r, -12289, 12289)));
      break;
    case 2: // few entries
      for (int64_t k = uni(r, 1, 3); k > 0; k--)
        a[static_cast<size_t>(uni(r, 0, static_cast<int64_t>(n) - 1))] = sc * num(gauss(r), gauss(r));
      break;
    case 3: // wide range within the vector
      for (auto& x : a)
        x = num(std::ldexp(gauss(r), static_cast<int>(uni(r, -40, 40))), std::ldexp(gauss(r), static_cast<int>(uni(r, -40, 40))));
      break;
    case 4: // transform concentrated in few places
    {
      cvec v(n, cld(0));
      for (int64_t k = uni(r, 1, 3); k > 0; k--)
        v[static_cast<size_t>(uni(r, 0, static_cast<int64_t>(n) - 1))] = cld(gauss(r), gauss(r));
      v = ref::ifft(v);
      for (size_t i = 0; i < n; i++)
        a[i] = num(static_cast<double>(v[i].real()), static_cast<double>(v[i].imag()));
      break;
    }
    default:
      for (auto& x : a)
        x = num(sc, sc);
  }
  shape::some(c, a, 4);
  return a;
}

template<size_t LG>
static void
transforms(pbt::Ctx& c)
{
  constexpr size_t n = 1ul << LG;
  const dvec a = gen(c, n);
  const cvec A = up(a);
  const ld s = norm(A);
  if (c.verbose)
    c.desc << "n=" << n << " a0=" << a[0] << " norm=" << static_cast<double>(s);
  const cvec F = ref::fft(A); // own order
  dvec v = a;
  fft::fft<LG>(v.data());
  near(c, v, lib_order<LG>(c, F), s * std::sqrt(static_cast<ld>(2)), LG, "fft");
  dvec w = v;
  fft::ifft<LG>(w.data());
  near(c, w, A, s, LG, "ifft(fft)");
  // inverse alone, on the same numbers taken as values
  dvec u = a;
  fft::ifft<LG>(u.data());
  const cvec I = ref::ifft(own_order<LG>(c, A));
  near(c, u, I, s / std::sqrt(static_cast<ld>(n)) * 1.5L, LG, "ifft");
  fft::fft<LG>(u.data());
  near(c, u, A, s, LG, "fft(ifft)");
  // adjoint: values conjugated = coefficients a0, -a_{n-1}, ... conjugated
  dvec j = v;
  fft::adj_poly<LG>(j.data());
  cvec adj(n);
  adj[0] = std::conj(A[0]);
  for (size_t i = 1; i < n; i++)
    adj[i] = -std::conj(A[n - i]);
  near(c, j, lib_order<LG>(c, ref::fft(adj)), s * std::sqrt(static_cast<ld>(2)), LG, "adjoint");
  for (size_t i = 0; i < n; i++)
    c.require(j[i] == std::conj(v[i]), [&] { return cat("adj_poly at ", i, " is not the conjugate"); });
  if constexpr (LG >= 1) {
    // split: transforms of the even and odd coefficients
    dvec f0(n / 2), f1(n / 2), back(n);
    cvec e(n / 2), o(n / 2);
    for (size_t i = 0; i < n / 2; i++)
      e[i] = A[2 * i], o[i] = A[2 * i + 1];
    fft::split_fft<LG>(v.data(), f0.data(), f1.data());
    if constexpr (LG >= 2) {
      near(c, f0, lib_order<LG - 1>(c, ref::fft(e)), s * 1.5L, LG, "split, even part");
      near(c, f1, lib_order<LG - 1>(c, ref::fft(o)), s * 1.5L, LG, "split, odd part");
    } else {
      near(c, f0, e, s, LG, "split, even part");
      near(c, f1, o, s, LG, "split, odd part");
    }
    fft::merge_fft<LG>(f0.data(), f1.data(), back.data());
    near(c, back, lib_order<LG>(c, F), s * 2, LG, "merge(split)");
    // merge alone, on values taken from the generator
    std::copy_n(a.begin(), n / 2, f0.begin());
    std::copy_n(a.begin() + n / 2, n / 2, f1.begin());
    shape::some(c, f0, 4);
    shape::some(c, f1, 4);
    fft::merge_fft<LG>(f0.data(), f1.data(), back.data());
    cvec x = up(f0), y = up(f1), m;
    if constexpr (LG >= 2)
      m = ref::merge(own_order<LG - 1>(c, x), own_order<LG - 1>(c, y));
    else
      m = ref::merge(x, y);
    near(c, back, lib_order<LG>(c, m), s, LG, "merge");
    dvec g0(n / 2), g1(n / 2);
    fft::split_fft<LG>(back.data(), g0.data(), g1.data());
    near(c, g0, x, s, LG, "split(merge), first");
    near(c, g1, y, s, LG, "split(merge), second");
  }
}
template<size_t LG>
static void
ring(pbt::Ctx& c)
{
  constexpr size_t n = 1ul << LG;
  const dvec a = gen(c, n), b = c.t.below(12) == 11 ? a : gen(c, n);
  const ld sa = norm(up(a)), sb = norm(up(b));
  if (c.verbose)
    c.desc << "n=" << n << " norms " << static_cast<double>(sa) << " " << static_cast<double>(sb);
  dvec A = a, B = b, R(n);
  fft::fft<LG>(A.data());
  fft::fft<LG>(B.data());
  const cvec FA = ref::fft(up(a)), FB = ref::fft(up(b));
  cvec w(n);
  // pointwise, against exact arithmetic on the same numbers
  const cvec XA = up(A), XB = up(B);
  auto pointwise = [&](const char* op, auto f, auto size) {
    for (size_t i = 0; i < n; i++) {
      const cld want = f(XA[i], XB[i]);
      const ld e = std::abs(cld(R[i].real(), R[i].imag()) - want);
      c.require(!(e > 8 * EPS * size(XA[i], XB[i])), [&] { return cat(op, " at ", i, ": ", A[i], " and ", B[i], " give ", R[i]); });
    }
  };
  polynomial::mul<LG>(A.data(), B.data(), R.data());
  pointwise("mul", [](cld x, cld y) { return x * y; }, [](cld x, cld y) { return std::abs(x) * std::abs(y); });
  {
    dvec back = R;
    fft::ifft<LG>(back.data());
    for (size_t i = 0; i < n; i++)
      w[i] = FA[i] * FB[i];
    near(c, back, ref::ifft(w), 3 * sa * sb, LG, "product");
    if (n <= 64) { // schoolbook, so that the model's transform is not trusted blindly
      const cvec x = up(a), y = up(b);
      cvec p(n, cld(0));
      for (size_t i = 0; i < n; i++)
        for (size_t k = 0; k < n; k++)
          if (i + k < n)
            p[i + k] += x[i] * y[k];
          else
            p[i + k - n] -= x[i] * y[k];
      near(c, back, p, 3 * sa * sb, LG, "product (schoolbook)");
    }
  }
  polynomial::add<LG>(A.data(), B.data(), R.data());
  pointwise("add", [](cld x, cld y) { return x + y; }, [](cld x, cld y) { return std::abs(x) + std::abs(y); });
  polynomial::sub<LG>(A.data(), B.data(), R.data());
  pointwise("sub", [](cld x, cld y) { return x - y; }, [](cld x, cld y) { return std::abs(x) + std::abs(y); });
  R = A;
  polynomial::add_to<LG>(R.data(), B.data());
  pointwise("add_to", [](cld x, cld y) { return x + y; }, [](cld x, cld y) { return std::abs(x) + std::abs(y); });
  bool nz = true;
  for (auto& x : B)
    nz &= std::abs(x) > 1e-100;
  if (nz) {
    polynomial::div<LG>(A.data(), B.data(), R.data());
    pointwise("div", [](cld x, cld y) { return x / y; }, [](cld x, cld y) { return std::abs(x) / std::abs(y); });
    c.label("division");
  }
}
template<size_t... I, typename F>
static void
dispatch(const size_t lg, std::index_sequence<I...>, F f)
{
  (void)((lg == I + 1 ? (f(std::integral_constant<size_t, I + 1>{}), true) : false) || ...);
}
PROP(transform, 30000, 3000000)
{
  const size_t lg = 1 + c.t.enumerate(10);
  dispatch(lg, std::make_index_sequence<10>{}, [&](auto k) { transforms<k()>(c); });
  c.label(cat("size ", 1ul << lg));
  c.nontrivial();
}
// Single entries: every value is a root (or its inverse over n), so that an error
// in any root of the tables shows undiluted.
static void
close(pbt::Ctx& c, const dvec& got, const cvec& want, const ld unit, const size_t lg, const char* what, const size_t k)
{
  const ld tol = 3.5L * static_cast<ld>(lg + 1) * EPS * unit;
  for (size_t i = 0; i < got.size(); i++) {
    const ld e = std::abs(cld(got[i].real(), got[i].imag()) - want[i]);
#ifdef PBT_MEASURE
    if (e / (EPS * static_cast<ld>(lg + 1) * unit) > worst) {
      worst = e / (EPS * static_cast<ld>(lg + 1) * unit);
      std::fprintf(stderr, "worst %Lf %s lg %zu\n", worst, what, lg);
    }
#endif
    c.require(e <= tol, [&] { return cat(what, " of the unit vector ", k, " at size ", got.size(), ": value ", i, " is ", got[i], ", error ", static_cast<double>(e), " above ", static_cast<double>(tol)); });
  }
}
template<size_t LG>
static void
units(pbt::Ctx& c, const size_t k)
{
  constexpr size_t n = 1ul << LG;
  dvec e(n, cd(0));
  e[k] = c.t.below(2) ? cd(0, 1) : cd(1);
  const cvec E = up(e);
  dvec v = e;
  fft::fft<LG>(v.data());
  close(c, v, lib_order<LG>(c, ref::fft(E)), 1, LG, "fft", k);
  v = e;
  fft::ifft<LG>(v.data());
  close(c, v, ref::ifft(own_order<LG>(c, E)), 1 / static_cast<ld>(n), LG, "ifft", k);
  if constexpr (LG >= 2) {
    dvec a(n / 2), b(n / 2);
    fft::split_fft<LG>(e.data(), a.data(), b.data());
    const cvec co = ref::ifft(own_order<LG>(c, E)); // even and odd coefficients
    cvec x(n / 2), y(n / 2);
    for (size_t i = 0; i < n / 2; i++)
      x[i] = co[2 * i], y[i] = co[2 * i + 1];
    close(c, a, lib_order<LG - 1>(c, ref::fft(x)), 0.5L, 1, "split, even part", k);
    close(c, b, lib_order<LG - 1>(c, ref::fft(y)), 0.5L, 1, "split, odd part", k);
    dvec f0(e.begin(), e.begin() + n / 2), f1(e.begin() + n / 2, e.end()), m(n);
    fft::merge_fft<LG>(f0.data(), f1.data(), m.data());
    close(c, m, lib_order<LG>(c, ref::merge(own_order<LG - 1>(c, up(f0)), own_order<LG - 1>(c, up(f1)))), 1, 1, "merge", k);
  }
}
PROP(unit_vectors, 2046, 4092)
{
  size_t i = c.t.enumerate(2046), lg = 1;
  while (i >= 1ul << lg)
    i -= 1ul << lg++;
  if (c.verbose)
    c.desc << "size " << (1ul << lg) << " entry " << i;
  dispatch(lg, std::make_index_sequence<10>{}, [&](auto k) { units<k()>(c, i); });
  c.label(cat("size ", 1ul << lg));
  c.nontrivial();
}
PROP(ring_operations, 20000, 2000000)
{
  const size_t lg = 1 + c.t.enumerate(10);
  dispatch(lg, std::make_index_sequence<10>{}, [&](auto k) { ring<k()>(c); });
  c.label(cat("size ", 1ul << lg));
  c.nontrivial();
}
