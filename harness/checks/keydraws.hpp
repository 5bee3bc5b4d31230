#pragma once
// Draws of (f, g) for key generation: ones it has to discard, ones it has to
// keep, and the random bytes that make it draw them.
#include "script.hpp"

namespace kd {
using pbt::cat;
using namespace st;
using namespace tt;
using Pm = ref::P<N>;

// squared Gram-Schmidt norm of the NTRU basis of (f, g): the larger of the norm
// of (g, -f) and of q (f*, g*) / (f f* + g g*)
inline ld
gs_norm(const ivec& f, const ivec& g, ld* first = nullptr)
{
  const cvec F = ref::fft_i(f), G = ref::fft_i(g);
  ld dual = 0;
  for (size_t i = 0; i < N; i++)
    dual += 1 / (std::norm(F[i]) + std::norm(G[i]));
  const ld a = static_cast<ld>(ref::norm2(f) + ref::norm2(g)), b = dual * static_cast<ld>(ref::Q) * ref::Q / N;
  if (first)
    *first = a;
  return std::max(a, b);
}
constexpr ld LIMIT = 1.17L * 1.17L * 12289;

// random bytes for which the samples add up to a given polynomial
inline void
draw_bytes(Rng& r, const ivec& p, bytes& out)
{
  constexpr size_t k = 4096 / N;
  bool doubt = false;
  for (auto v : p) {
    int64_t left = v;
    for (size_t j = 0; j < k; j++) {
      const auto m = static_cast<int64_t>(k - j);
      int64_t x = j + 1 == k ? left : left / m + (r.next() % 3 == 0 ? static_cast<int64_t>(r.next() % 3) - 1 : 0);
      x = std::clamp<int64_t>(x, -17, 17);
      left -= script::leaf(0, 1.43300980528773L, Pm::sigma_min, x, out, doubt);
    }
  }
}
struct pair_t
{
  ivec f, g;
};
constexpr double WIDTH = N == 512 ? 4.053 : 2.866; // 1.17 sqrt(q / 2N)
inline pair_t
draw(Rng& r, const double w)
{
  pair_t p{ gauss_vec(r, N, w), gauss_vec(r, N, w) };
  for (auto* v : { &p.f, &p.g })
    for (auto& x : *v)
      x = std::clamp<int64_t>(x, -Pm::fgmax, Pm::fgmax);
  return p;
}
// passes the tests that precede solving
inline bool
good(const pair_t& p)
{
  return ref::invertible(p.f) && gs_norm(p.f, p.g) <= LIMIT;
}
inline bool
odd(const ivec& v)
{
  int64_t s = 0;
  for (auto x : v)
    s += x;
  return s & 1;
}
// pairs from the corpus (found by tools/find_wide)
inline std::vector<pair_t>
pairs(const char* name)
{
  std::vector<pair_t> r;
  std::ifstream f(cat(CORPUS_DIR, "/", name, N, ".bin"), std::ios::binary);
  std::vector<int16_t> b(2 * N);
  while (f.read(reinterpret_cast<char*>(b.data()), static_cast<long>(4 * N)))
    r.push_back({ ivec(b.begin(), b.begin() + N), ivec(b.begin() + N, b.end()) });
  return r;
}
// those whose reduced F leaves [-127, 127]
inline const std::vector<pair_t>&
wide()
{
  static const std::vector<pair_t> w = pairs("wide");
  return w;
}
// those whose reduced F just stays within
inline const std::vector<pair_t>&
edge()
{
  static const std::vector<pair_t> w = pairs("edge");
  return w;
}
inline pair_t
moved(pbt::Tape& t, pair_t p)
{
  const uint64_t a = 2 * t.below(N) + 1;
  p.f = shift(automorphism(p.f, a), t.below(2 * N));
  p.g = shift(automorphism(p.g, a), t.below(2 * N));
  return p;
}
static const char* const kinds[] = { "coefficient of f out of range", "coefficient of g out of range", "f not invertible", "norm of (f, g) too large", "dual norm too large",
                               "Gram-Schmidt norm just above the limit", "resultants not coprime", "F out of range" };
// a pair that passes, changed in a few places
inline pair_t
near_good(pbt::Tape& t, Rng& r)
{
  const lib::key k = variant<N>(t, false);
  pair_t p{ k.f, k.g };
  for (size_t m = r.next() % 6; m > 0; m--) {
    auto& v = (r.next() & 1 ? p.f : p.g)[static_cast<size_t>(uni(r, 0, N - 1))];
    v += r.next() & 1 ? 1 : -1;
    v = std::clamp<int64_t>(v, -Pm::fgmax, Pm::fgmax);
  }
  return p;
}
// brings the Gram-Schmidt norm back under the limit by moving single
// coefficients by one; the coefficients marked stay
inline bool
climb(Rng& r, pair_t& p, const ivec* keep, const size_t at, const bool keep_parity)
{
  ld now = gs_norm(p.f, p.g);
  for (int i = 0; i < 300 && now > LIMIT; i++) {
    auto& v = r.next() & 1 ? p.f : p.g;
    const auto x = static_cast<size_t>(uni(r, 0, N - 1));
    if (&v == keep && x == at)
      continue;
    const int64_t was = v[x];
    v[x] += (keep_parity ? 2 : 1) * (was > 0 ? -1 : was < 0 ? 1 : r.next() & 1 ? 1 : -1);
    const ld then = gs_norm(p.f, p.g);
    if (then < now)
      now = then;
    else
      v[x] = was;
  }
  return now <= LIMIT;
}
// moves single coefficients by one until the Gram-Schmidt norm is close to the
// limit, from above or from below; returns it
inline ld
approach(Rng& r, pair_t& p, const bool above)
{
  ld now = gs_norm(p.f, p.g);
  for (int i = 0; i < 600 && std::fabs(now - LIMIT) > 3e-5L * LIMIT; i++) {
    auto& v = (r.next() & 1 ? p.f : p.g)[static_cast<size_t>(uni(r, 0, N - 1))];
    const int64_t was = v;
    v += r.next() & 1 ? 1 : -1;
    if (std::llabs(v) > Pm::fgmax) {
      v = was;
      continue;
    }
    const ld then = gs_norm(p.f, p.g);
    // towards the limit, past it only on the way to the wanted side
    const bool take = above ? (now <= LIMIT ? then > now : then > LIMIT && then < now) : (now > LIMIT ? then < now : then <= LIMIT && then > now);
    if (take)
      now = then;
    else
      v = was;
  }
  return now;
}
// an automorphism that moves a root of f to the given place of the transform
// (bit-reversed order of the powers of 49 or 7, as customary)
inline void
vanish_at(pair_t& p, const size_t place)
{
  constexpr int64_t psi = N == 512 ? 49 : 7;
  uint64_t z = 0;
  int64_t x = psi;
  for (uint64_t e = 1; e < 2 * N && z == 0; e += 2, x = x * psi % ref::Q * psi % ref::Q) {
    int64_t v = 0;
    for (size_t i = N; i-- > 0;)
      v = ref::mod(v * x + p.f[i]);
    if (v == 0)
      z = e;
  }
  if (z == 0)
    return;
  uint64_t rev = 0;
  for (size_t b = 1; b < N; b *= 2)
    rev = 2 * rev + ((place & b) != 0);
  const uint64_t e = 2 * rev + 1;
  uint64_t a = 1;
  while (a * e % (2 * N) != z)
    a += 2;
  p.f = automorphism(p.f, a);
  p.g = automorphism(p.g, a);
}
inline std::optional<pair_t>
bad_pair(pbt::Tape& t, Rng& r, const size_t kind)
{
  for (int tries = 0; tries < 60; tries++) {
    pair_t p;
    switch (kind) {
      case 0:
      case 1: {
        p = near_good(t, r);
        auto& v = kind ? p.g : p.f;
        const auto over = static_cast<int64_t>(1 + t.below(4));
        // anywhere, or near the ends or the middle
        const size_t w = t.pick({ 3, 3, 2, 1 }), near = t.below(16);
        const size_t at = w == 0 ? t.below(N) : w == 1 ? N - 1 - near : w == 2 ? near : N / 2 - 8 + near;
        v[at] = t.below(2) ? Pm::fgmax + over : -Pm::fgmax - over;
        if (climb(r, p, &v, at, false) && good(p) && (odd(p.f) || odd(p.g)))
          return p;
        break;
      }
      case 2: {
        p = near_good(t, r);
        for (int i = 0; i < 200 && ref::invertible(p.f); i++)
          p.f[static_cast<size_t>(uni(r, 0, N - 1))] += r.next() & 1 ? 1 : -1;
        if (t.below(2))
          vanish_at(p, t.below(3) ? (t.below(2) ? N - 1 - t.below(8) : t.below(8)) : t.below(N));
        if (!ref::invertible(p.f) && gs_norm(p.f, p.g) <= LIMIT && in_range(p.f, Pm::fgmax) && (odd(p.f) || odd(p.g)))
          return p;
        break;
      }
      case 3: {
        p = draw(r, WIDTH * (1.03 + 0.2 * u01(r)));
        ld a = 0;
        if (gs_norm(p.f, p.g, &a) > LIMIT && a > LIMIT && ref::invertible(p.f) && (odd(p.f) || odd(p.g)))
          return p;
        break;
      }
      case 4: {
        p = draw(r, WIDTH * (0.75 + 0.2 * u01(r)));
        ld a = 0;
        if (gs_norm(p.f, p.g, &a) > LIMIT && a < LIMIT && ref::invertible(p.f) && (odd(p.f) || odd(p.g)))
          return p;
        break;
      }
      case 5: { // from just under to just over
        p = near_good(t, r);
        const ld gs = approach(r, p, true);
        if (gs > LIMIT && gs < LIMIT * 1.02L && ref::invertible(p.f) && (odd(p.f) || odd(p.g)))
          return p;
        break;
      }
      case 6: // f(1) and g(1) even: the resultants are even
        p = near_good(t, r);
        if (odd(p.f))
          p.f[0] += p.f[0] > 0 ? -1 : 1;
        if (odd(p.g))
          p.g[0] += p.g[0] > 0 ? -1 : 1;
        if (climb(r, p, nullptr, 0, true) && good(p))
          return p;
        break;
      default: {
        if (wide().empty())
          return {};
        p = moved(t, wide()[t.below(wide().size())]);
        return p;
      }
    }
  }
  return {};
}

// pairs that pass every test, one of them barely
static const char* const edge_kinds[] = { "coefficient at the end of its range", "Gram-Schmidt norm just within the limit", "F at the end of its range", "f(1) or g(1) even" };
inline std::optional<pair_t>
edge_pair(pbt::Tape& t, Rng& r, const size_t kind)
{
  for (int tries = 0; tries < 60; tries++) {
    pair_t p = near_good(t, r);
    switch (kind) {
      case 0: {
        auto& v = t.below(2) ? p.g : p.f;
        const size_t w = t.pick({ 3, 3, 2, 1 }), near = t.below(16);
        const size_t at = w == 0 ? t.below(N) : w == 1 ? N - 1 - near : w == 2 ? near : N / 2 - 8 + near;
        v[at] = t.below(2) ? Pm::fgmax : -Pm::fgmax;
        if (climb(r, p, &v, at, false) && good(p) && (odd(p.f) || odd(p.g)))
          return p;
        break;
      }
      case 1: { // as long as it stays within
        approach(r, p, false);
        if (gs_norm(p.f, p.g) > LIMIT * 0.999L && good(p) && (odd(p.f) || odd(p.g)))
          return p;
        break;
      }
      case 2:
        if (edge().empty())
          return {};
        return moved(t, edge()[t.below(edge().size())]);
      default: {
        auto& v = t.below(2) ? p.g : p.f;
        if (odd(v))
          v[t.below(N)] += t.below(2) ? 1 : -1;
        if (climb(r, p, nullptr, 0, true) && good(p) && in_range(p.f, Pm::fgmax) && in_range(p.g, Pm::fgmax) && (odd(p.f) || odd(p.g)))
          return p;
      }
    }
  }
  return {};
}
}
