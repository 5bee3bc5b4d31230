// Generates the key corpus (corpus/keysN.bin): f, g, F, G as int16, checked by
// the model.  Build (for N = 512 or 1024), then run with a count and a file:
//   clang++ -std=c++20 -O3 -march=native -DPBT_N=512 -I harness/shim -I harness/engine \
//     -I harness/ref -I /repo/include tools/gen_keys.cpp -o /tmp/gen_keys -lgmpxx -lgmp
#define FALCON_UNDER_TEST_FULL
#define PBT_NO_MAIN
#include "lib.hpp"
int
main(int argc, char** argv)
{
  const int n = std::atoi(argv[1]);
  std::ofstream o(argv[2], std::ios::binary);
  for (int i = 0; i < n; i++) {
    det::seed(1000 + static_cast<uint64_t>(i));
    prng::prng_t rng;
    static int32_t f[N], g[N], F[N], G[N];
    ntru_gen::ntru_gen<N>(f, g, F, G, rng);
    const auto a = lib::from_i32(f, N), b = lib::from_i32(g, N), c = lib::from_i32(F, N), d = lib::from_i32(G, N);
    const auto x = ref::mul(a, d), y = ref::mul(b, c);
    bool ok = ref::invertible(a);
    for (size_t j = 0; j < N; j++)
      ok &= x[j] - y[j] == (j == 0 ? 12289 : 0);
    if (!ok) {
      std::printf("bad key %d\n", i);
      return 1;
    }
    for (auto* p : { f, g, F, G })
      for (size_t j = 0; j < N; j++) {
        const auto v = static_cast<int16_t>(p[j]);
        o.write(reinterpret_cast<const char*>(&v), 2);
      }
  }
}
