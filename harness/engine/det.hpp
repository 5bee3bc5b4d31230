#pragma once
// Determinism and steering of randomness.
//
//  * std::random_device is replaced for the whole program (the symbol
//    std::random_device::_M_getval is defined here, which takes precedence over
//    the one in libstdc++), so that every entropy word the library draws comes
//    from a per-case generator - or from a substitute set by the case.
//  * the PRNG stream of prng_t can be steered through the shim's probe.
#include "pbt.hpp"
#include "shake256.hpp"
#include <functional>
#include <memory>
#include <random>

namespace det {

struct entropy_t
{
  pbt::Rng rng{ 1 };
  std::function<uint32_t(uint64_t)> source{}; // by word number
  uint64_t words = 0;
};
inline thread_local entropy_t ent{};

inline void
seed(uint64_t s)
{
  ent.rng = pbt::Rng(s);
  ent.source = nullptr;
  ent.words = 0;
}

inline void
reset()
{
  seed(0x5eed);
  shake256::probe::st.reset();
}

// A random byte by (key, position): pure function, so that the model and the
// library can read the same stream independently
inline uint8_t
byte_of(uint64_t key, uint64_t pos)
{
  uint64_t x = key ^ (pos >> 3) * 0x9e3779b97f4a7c15ull;
  x = pbt::Rng::splitmix(x);
  return static_cast<uint8_t>(x >> (8 * (pos & 7)));
}

// Stretches of forced bytes in an otherwise pseudo-random PRNG stream
struct stretch
{
  uint64_t at, len;
  int kind;      // 0: zeros, 1: ones (0xff), 2: constant v, 3: small values
  uint8_t v;
};
struct stream
{
  uint64_t key = 0;
  std::vector<stretch> st{};
  uint8_t operator()(uint64_t pos) const
  {
    const uint8_t b = byte_of(key, pos);
    for (auto& s : st)
      if (pos >= s.at && pos < s.at + s.len)
        switch (s.kind) {
          case 0:
            return 0;
          case 1:
            return 0xff;
          case 2:
            return s.v;
          default:
            return b & 3;
        }
    return b;
  }
  // make the library's PRNG instances read this stream, in the order of reads
  // whatever the instance (position counts from here on)
  void install() const
  {
    auto pos = std::make_shared<uint64_t>(0);
    const stream me = *this;
    shake256::probe::st.source = [me, pos](uint64_t, uint8_t* p, size_t n) {
      for (size_t i = 0; i < n; i++)
        p[i] = me((*pos)++);
      return true;
    };
  }
};

}

uint32_t
std::random_device::_M_getval()
{
  auto& e = det::ent;
  const uint64_t i = e.words++;
  if (e.source)
    return e.source(i);
  return static_cast<uint32_t>(e.rng.next() >> 32);
}

namespace det {
// every case starts from the same state
inline const bool hooked = [] {
  pbt::reset_hook() = [] { reset(); };
  return true;
}();
}
