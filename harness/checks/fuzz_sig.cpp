// Coverage-guided: signature decoding against the specification's decoder
#include "fuzz.hpp"
#include "lib.hpp"
using pbt::cat;

template<size_t N>
static void
run(const uint8_t* d, size_t n)
{
  using L = ref::P<N>;
  // exact-size heap block: reads outside it are reported
  std::unique_ptr<uint8_t[]> sig(new uint8_t[L::siglen]);
  std::memset(sig.get(), 0, L::siglen);
  sig[0] = L::sighdr;
  std::memcpy(sig.get() + 41, d, std::min(n, L::siglen - 41));
  std::unique_ptr<int32_t[]> s(new int32_t[N]);
  std::unique_ptr<uint8_t[]> salt(new uint8_t[40]);
  const bool ok = decoding::decode_sig<N>(sig.get(), salt.get(), s.get());
  const auto want = ref::decompress(sig.get() + 41, L::sigbits, N);
  if (ok != want.has_value())
    fz::fail(cat("decode_sig<", N, "> ", ok ? "accepts" : "refuses", " what the specification ", want ? "accepts" : "refuses"));
  if (ok) {
    for (size_t i = 0; i < N; i++)
      if (s[i] != (*want)[i])
        fz::fail(cat("coefficient ", i, " read as ", s[i], ", expected ", (*want)[i]));
    std::unique_ptr<uint8_t[]> again(new uint8_t[L::siglen]);
    if (!encoding::compress_sig<N, L::siglen>(s.get(), again.get()) || std::memcmp(again.get() + 41, sig.get() + 41, L::siglen - 41))
      fz::fail("an accepted encoding does not compress back to the same bytes");
  }
  fz::stats.labels[cat(N, ok ? " accepted" : " refused")]++;
  // non-trivial: at least eight coefficients precede the decision
  bool nt = ok;
  if (!nt) {
    size_t i = 0;
    int k = 0;
    while (k < 8 && i + 8 < L::sigbits) {
      i += 8;
      while (i < L::sigbits && !ref::bit_at(sig.get() + 41, i))
        i++;
      i++, k++;
    }
    nt = k == 8 && i < L::sigbits;
  }
  if (nt)
    fz::nontrivial(d, n);
}
extern "C" int
LLVMFuzzerTestOneInput(const uint8_t* d, size_t n)
{
  if (n == 0)
    return 0;
  fz::stats.evals++;
  try {
    if (d[0] & 1)
      run<1024>(d + 1, n - 1);
    else
      run<512>(d + 1, n - 1);
  } catch (const pbt::Absent& e) {
    fz::stats.labels["not in this tree: " + e.what]++;
  }
  return 0;
}
