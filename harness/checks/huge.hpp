#pragma once
// Messages longer than 4 GiB: pages that are reserved but never written, and a
// sponge that counts what it is given instead of reading it.
#include "sigtools.hpp"
#include <sys/mman.h>

namespace huge {
struct message
{
  size_t n;
  uint8_t* p;
  explicit message(const size_t n_)
    : n(n_)
    , p(static_cast<uint8_t*>(mmap(nullptr, n_, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)))
  {
    if (p == MAP_FAILED)
      throw pbt::Discard("no address space");
  }
  ~message() { munmap(p, n); }
  message(const message&) = delete;
};
// runs f(message, length); the hash has to be given all of it and the salt
template<class F>
void
absorbs_all(pbt::Ctx& c, const char* what, const size_t salt, F f)
{
  const size_t n = (1ull << 32) + (c.t.below(2) ? c.t.below(1000) : c.t.below(1ull << 31));
  const message m(n);
  uint64_t seen = 0, calls = 0;
  shake256::probe::st.on_absorb = [&](const uint8_t*, const size_t k) {
    seen += k;
    calls++;
    return true;
  };
  f(m.p, n);
  shake256::probe::st.on_absorb = nullptr;
  if (c.verbose)
    c.desc << what << ": message of " << n << " bytes";
  const uint64_t rounds = calls == 0 ? 1 : std::max<uint64_t>(1, (seen + n / 2) / n); // signing may hash again
  c.require(seen == rounds * (n + salt), [&] { return pbt::cat(what, ": of ", salt, " bytes of salt and ", n, " bytes of message, ", seen, " bytes are hashed"); });
  c.nontrivial();
}
}
