// Searches for short (f, g) whose reduced F is at or beyond the edge of the
// secret key format, while every test before solving is passed.  About one
// ordinary key in a thousand is of that kind; pairs whose length lies mostly
// in f, with an even spectrum, are so far more often.  Appends (f, g as int16)
// to OUT/edge<N>.bin (largest |F| 126 or 127) and OUT/wide<N>.bin (128 or more).
//   clang++-18 -std=c++20 -O3 -march=native -DPBT_NO_MAIN -DFALCON_UNDER_TEST_FULL \
//     -I harness/shim -I harness/engine -I harness/ref -I /repo/include \
//     tools/find_wide.cpp -o /tmp/find_wide -lgmpxx -lgmp
//   /tmp/find_wide 512 SEED SECONDS OUT
#include "sigtools.hpp"
using namespace st;
using spec = std::vector<std::complex<double>>;
template<size_t N>
static void
go(uint64_t seed, long secs, const std::string& out)
{
  constexpr size_t LG = ref::P<N>::logn;
  constexpr double Q = 12289, LIMIT = 1.17 * 1.17 * Q;
  Rng r(seed);
  const auto t0 = time(nullptr);
  uint64_t keys = 0, edge = 0, wide = 0;
  auto to = [](const ivec& v) {
    spec s(v.begin(), v.end());
    fft::fft<LG>(s.data());
    return s;
  };
  while (time(nullptr) - t0 < secs) {
    const double share = 0.6 + 0.35 * u01(r); // of f in the length
    const double w = 1.12 * std::sqrt(Q / N);
    ivec f = gauss_vec(r, N, w * std::sqrt(share)), g = gauss_vec(r, N, w * std::sqrt(1 - share));
    const auto m = ref::P<N>::fgmax;
    for (auto* v : { &f, &g })
      for (auto& x : *v)
        x = std::clamp<int64_t>(x, -m, m);
    // change single coefficients until both norms are within the limit
    spec a = to(f), b = to(g), u[2];
    auto dual = [&](const spec& x, const spec& y) {
      double s = 0;
      for (size_t i = 0; i < N; i++)
        s += 1 / (std::norm(x[i]) + std::norm(y[i]));
      return s * Q * Q / N;
    };
    double now = dual(a, b);
    auto n2 = [&] { return static_cast<double>(ref::norm2(f) + ref::norm2(g)); };
    for (int i = 0; i < 6000 && (now > LIMIT * 0.9999 || n2() > LIMIT * 0.9999); i++) {
      const bool inf = r.next() % 4 != 0;
      auto& v = inf ? f : g;
      const auto x = static_cast<size_t>(uni(r, 0, N - 1));
      const int64_t d = n2() > LIMIT * 0.9999 ? (v[x] > 0 ? -1 : 1) : (r.next() & 1 ? 1 : -1);
      if (std::llabs(v[x] + d) > m)
        continue;
      ivec e(N, 0);
      e[x] = d;
      const spec c = to(e);
      spec& t = inf ? a : b;
      for (size_t k = 0; k < N; k++)
        t[k] += c[k];
      const double then = dual(a, b);
      if (then < now || n2() > LIMIT)
        now = then, v[x] += d;
      else
        for (size_t k = 0; k < N; k++)
          t[k] -= c[k];
    }
    int64_t sf = 0, sg = 0;
    for (size_t i = 0; i < N; i++)
      sf += f[i], sg += g[i];
    if (!((sf | sg) & 1) || !ref::invertible(f) || now > LIMIT * 0.9999 || n2() > LIMIT * 0.9999)
      continue;
    std::array<mpz_class, N> F, G;
    for (size_t i = 0; i < N; i++)
      F[i] = static_cast<long>(f[i]), G[i] = static_cast<long>(g[i]);
    const auto s = ntru_gen::ntru_solve<N>(F, G);
    if (!s.second.is_solution())
      continue;
    keys++;
    long most = 0;
    for (auto& x : s.first.first)
      most = std::max(most, std::labs(x.get_si()));
    if (most < 126 || (most > 128 && r.next() % 4) || (most == 126 && r.next() % 2))
      continue;
    (most < 128 ? edge : wide)++;
    std::vector<int16_t> o(2 * N);
    for (size_t i = 0; i < N; i++)
      o[i] = static_cast<int16_t>(f[i]), o[N + i] = static_cast<int16_t>(g[i]);
    std::ofstream fo(out + (most < 128 ? "/edge" : "/wide") + std::to_string(N) + ".bin", std::ios::app | std::ios::binary);
    fo.write(reinterpret_cast<char*>(o.data()), static_cast<long>(o.size() * 2));
    std::printf("N=%zu share %.2f: largest %ld\n", N, share, most);
    std::fflush(stdout);
  }
  std::printf("N=%zu: %lu keys, %lu at the edge, %lu wide\n", N, keys, edge, wide);
}
int
main(int, char** v)
{
  if (std::stoi(v[1]) == 512)
    go<512>(std::stoull(v[2]), std::stol(v[3]), v[4]);
  else
    go<1024>(std::stoull(v[2]), std::stol(v[3]), v[4]);
}
