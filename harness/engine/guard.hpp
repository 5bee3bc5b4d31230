#pragma once
// Buffers with guard zones: under AddressSanitizer an exact heap block (any
// access outside is reported); otherwise a page-backed buffer that ends at (or
// starts after) an inaccessible page, with canary bytes on the other side.
#include <cstdint>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>
namespace guard {
struct buf
{
  size_t n, map_len = 0;
  uint8_t* base = nullptr;
  uint8_t* p = nullptr;
  uint8_t fill;
  static constexpr size_t CAN = 64;
  // low = true: the buffer starts right after an inaccessible page
  explicit buf(size_t n_, uint8_t fill_ = 0, bool low_ = false)
    : n(n_)
    , fill(fill_)
    , low(low_)
  {
    alloc();
    std::memset(p, fill, n);
  }
  explicit buf(const std::vector<uint8_t>& v, bool low_ = false)
    : n(v.size())
    , fill(0)
    , low(low_)
  {
    alloc();
    if (n)
      std::memcpy(p, v.data(), n);
  }
  buf(const buf&) = delete;
  buf& operator=(const buf&) = delete;
  ~buf() { munmap(base, map_len); }
  uint8_t* data() { return p; }
  const uint8_t* data() const { return p; }
  uint8_t& operator[](size_t i) { return p[i]; }
  size_t size() const { return n; }
  std::vector<uint8_t> vec() const { return { p, p + n }; }
  bool same(const std::vector<uint8_t>& v) const { return v.size() == n && (n == 0 || !std::memcmp(v.data(), p, n)); }
  // canaries on the accessible side
  bool intact() const
  {
    const uint8_t* q = low ? p + n : p - CAN;
    for (size_t i = 0; i < CAN; i++)
      if (q[i] != static_cast<uint8_t>(0xc3 ^ i))
        return false;
    return true;
  }

private:
  bool low = false;
  void alloc()
  {
    const auto pg = static_cast<size_t>(sysconf(_SC_PAGESIZE));
    const size_t body = (n + CAN + pg - 1) / pg * pg;
    map_len = body + 2 * pg;
    base = static_cast<uint8_t*>(mmap(nullptr, map_len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(base + pg, body, PROT_READ | PROT_WRITE);
    p = low ? base + pg : base + pg + body - n;
    uint8_t* q = low ? p + n : p - CAN;
    for (size_t i = 0; i < CAN; i++)
      q[i] = static_cast<uint8_t>(0xc3 ^ i);
  }
};
}
