// fast Fourier sampling of the specification on a known random stream, in long
// double
#pragma once
#include "treetools.hpp"

namespace ffm {
using namespace st;
using namespace tt;

// centre uncertainty granted to the model: far above the rounding errors of
// the recursion for the targets generated here, far below anything that
// matters; cases where it would decide are discarded
constexpr double MU_ERR = 1e-8;

struct run_t
{
  ivec z0, z1;
  uint64_t used = 0;
  size_t iters = 0, leaves = 0;
  bool ambiguous = false;
  bool extreme = false;
  ld dev = 0; // largest |z - mu| / sigma' over the leaves
};
// s: byte at a position of the stream
template<class Stream>
run_t
model(const cvec& t0, const cvec& t1, const ref::tree& T, const double smin, const Stream& s, const bool exact = false)
{
  run_t r;
  const size_t n = t0.size();
  auto leaf = [&](const ld mu, const ref::tree& l) -> ld {
    if (r.ambiguous)
      return 0;
    const auto z = ref::samplerz(mu, l.leaf, smin, [&](size_t i) { return s(r.used + i); }, true, 1u << 20, exact && mu == std::floor(mu) ? 0 : MU_ERR);
    r.used += z.used;
    r.iters += z.iters;
    r.leaves++;
    r.ambiguous |= z.ambiguous || z.exhausted;
    r.dev = std::max(r.dev, std::fabs(static_cast<ld>(z.z) - mu) / l.leaf);
    return static_cast<ld>(z.z);
  };
  cvec z0, z1;
  ref::ffsampling(t0, t1, T, leaf, z0, z1);
  z0 = ref::ifft(z0), z1 = ref::ifft(z1);
  r.z0.resize(n), r.z1.resize(n);
  for (size_t i = 0; i < n; i++) {
    r.z0[i] = std::llround(z0[i].real());
    r.z1[i] = std::llround(z1[i].real());
  }
  return r;
}
}
