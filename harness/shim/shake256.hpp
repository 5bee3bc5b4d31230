#pragma once
// Stand-in for itzmeanjan/sha3's `shake256.hpp` (the git submodule is empty in
// this sandbox).  Same public interface as the release /repo was written for
// (shake256::rate in bits, shake256<false>::hash/read, shake256<true>::absorb/
// finalize/read), written from FIPS 202, plus observation and substitution
// points used by the checks (namespace shake256::probe).  With every probe at
// its default the class is plain SHAKE256.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <span>
#include <stdexcept>
#include <vector>

namespace shake256 {

constexpr size_t rate = 1088; // bits
constexpr size_t capacity = 512;

struct keccak_t
{
  uint64_t s[25] = {};

  static constexpr uint64_t rol(const uint64_t x, const unsigned n)
  {
    return n == 0 ? x : ((x << n) | (x >> (64 - n)));
  }

  void permute()
  {
    // Round constants are generated with the LFSR of FIPS 202, section 3.2.5
    uint8_t lfsr = 1;
    for (int rnd = 0; rnd < 24; rnd++) {
      uint64_t c[5], d[5], b[25];
      for (int x = 0; x < 5; x++)
        c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
      for (int x = 0; x < 5; x++)
        d[x] = c[(x + 4) % 5] ^ rol(c[(x + 1) % 5], 1);
      for (int i = 0; i < 25; i++)
        s[i] ^= d[i % 5];
      // rho + pi
      b[0] = s[0];
      int x = 1, y = 0;
      for (unsigned t = 0; t < 24; t++) {
        const unsigned r = ((t + 1) * (t + 2) / 2) % 64;
        const int nx = y, ny = (2 * x + 3 * y) % 5;
        b[nx + 5 * ny] = rol(s[x + 5 * y], r);
        x = nx;
        y = ny;
      }
      for (int yy = 0; yy < 5; yy++)
        for (int xx = 0; xx < 5; xx++)
          s[xx + 5 * yy] = b[xx + 5 * yy] ^ (~b[(xx + 1) % 5 + 5 * yy] &
                                             b[(xx + 2) % 5 + 5 * yy]);
      for (unsigned j = 0; j <= 6; j++) {
        if (lfsr & 1)
          s[0] ^= 1ull << ((1u << j) - 1);
        lfsr = static_cast<uint8_t>((lfsr << 1) ^ ((lfsr >> 7) * 0x71));
      }
    }
  }
};

// Byte-oriented SHAKE256 sponge
struct sponge_t
{
  static constexpr size_t R = rate / 8;
  keccak_t k{};
  size_t pos = 0;

  void absorb_byte(const uint8_t b)
  {
    k.s[pos >> 3] ^= static_cast<uint64_t>(b) << (8 * (pos & 7));
    if (++pos == R) {
      k.permute();
      pos = 0;
    }
  }
  void absorb(const uint8_t* const p, const size_t n)
  {
    for (size_t i = 0; i < n; i++)
      absorb_byte(p[i]);
  }
  void pad()
  {
    k.s[pos >> 3] ^= 0x1full << (8 * (pos & 7));
    k.s[(R - 1) >> 3] ^= 0x80ull << (8 * ((R - 1) & 7));
    k.permute();
    pos = 0;
  }
  void squeeze(uint8_t* const p, const size_t n)
  {
    for (size_t i = 0; i < n; i++) {
      if (pos == R) {
        k.permute();
        pos = 0;
      }
      p[i] = static_cast<uint8_t>(k.s[pos >> 3] >> (8 * (pos & 7)));
      pos++;
    }
  }
};

namespace probe {

struct budget_exceeded : std::runtime_error
{
  budget_exceeded()
    : std::runtime_error("PRNG byte budget exceeded")
  {
  }
};

// What the non-incremental instances (= the library's PRNG) do.  Thread-local,
// so that concurrent checks do not interfere through the probe itself.
struct state_t
{
  // when set: bytes for a PRNG read; (stream position, destination, length);
  // returns true if it filled the destination itself
  std::function<bool(uint64_t, uint8_t*, size_t)> source{};
  // when set: bytes for an XOF (incremental instance) read, by position
  std::function<bool(uint64_t, uint8_t*, size_t)> xof{};
  // when set: called after each PRNG read with what was delivered
  std::function<void(const uint8_t*, size_t)> on_read{};
  // when set: called with every message hashed by a PRNG instance
  std::function<void(const uint8_t*, size_t)> on_seed{};
  // when set: sees what XOF instances absorb; true: don't read or hash it
  std::function<bool(const uint8_t*, size_t)> on_absorb{};
  // PRNG bytes the current case may still read; exceeding it throws
  uint64_t budget = UINT64_MAX;
  uint64_t total_read = 0;

  void reset() { *this = state_t{}; }
};

inline thread_local state_t st{};

}

template<const bool incremental = false>
struct shake256
{
private:
  sponge_t sp{};
  uint64_t at = 0;

public:
  inline shake256() = default;

  inline void hash(const uint8_t* const msg, const size_t mlen)
    requires(!incremental)
  {
    if (probe::st.on_seed)
      probe::st.on_seed(msg, mlen);
    sp = sponge_t{};
    at = 0;
    sp.absorb(msg, mlen);
    sp.pad();
  }
  inline void hash(std::span<const uint8_t> m)
    requires(!incremental)
  {
    hash(m.data(), m.size());
  }

  inline void absorb(const uint8_t* const msg, const size_t mlen)
    requires(incremental)
  {
    if (probe::st.on_absorb && probe::st.on_absorb(msg, mlen))
      return;
    sp.absorb(msg, mlen);
  }
  inline void absorb(std::span<const uint8_t> m)
    requires(incremental)
  {
    absorb(m.data(), m.size());
  }

  inline void finalize()
    requires(incremental)
  {
    sp.pad();
  }

  inline void reset()
  {
    sp = sponge_t{};
    at = 0;
  }

  inline void read(uint8_t* const dig, const size_t dlen)
  {
    if constexpr (!incremental) {
      auto& p = probe::st;
      if (p.budget < dlen)
        throw probe::budget_exceeded{};
      p.budget -= dlen;
      p.total_read += dlen;
      if (!(p.source && p.source(at, dig, dlen)))
        sp.squeeze(dig, dlen);
      at += dlen;
      if (p.on_read)
        p.on_read(dig, dlen);
    } else {
      auto& p = probe::st;
      if (!(p.xof && p.xof(at, dig, dlen)))
        sp.squeeze(dig, dlen);
      at += dlen;
    }
  }
  inline void read(std::span<uint8_t> d) { read(d.data(), d.size()); }
  inline void squeeze(uint8_t* const dig, const size_t dlen) { read(dig, dlen); }
  inline void squeeze(std::span<uint8_t> d) { read(d.data(), d.size()); }
};

}
