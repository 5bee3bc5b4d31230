// C08: compression is lossless and honest about fitting
#include "sigcodec.hpp"
#include "shape.hpp"
using namespace codec;

static void
judge(pbt::Ctx& c, const ivec& s)
{
  const size_t bits = ref::sig_bitlen(s);
  const auto want = ref::compress(s, L::sigbits);
  if (c.verbose)
    c.desc << bits << " of " << L::sigbits << " bits, squared norm " << ref::norm2(s) << ", s=" << ref::show(s);
  auto info = [&] { return cat(bits, " of ", L::sigbits, " bits, squared norm ", ref::norm2(s), ", s ", ref::show(s, 1024)); };
  for (const uint8_t fill : { uint8_t{ 0 }, uint8_t{ 0xff } }) {
    const auto r = compress(c, s, fill);
    c.require(r.ok == want.has_value(), [&] { return cat("compress_sig returns ", r.ok, " for ", info()); });
    if (!r.ok)
      continue;
    bytes body(r.sig.begin() + 41, r.sig.end());
    c.require(body == *want, [&] {
      size_t i = 0;
      while (body[i] == (*want)[i])
        i++;
      return cat("body byte ", i, " is ", int(body[i]), ", expected ", int((*want)[i]), "; ", info());
    });
    const auto back = decompress(c, r.sig, fill == 0, fill);
    c.require(back.has_value(), [&] { return cat("decompress_sig refuses what compress_sig wrote: ", info()); });
    c.require(*back == s, [&] {
      size_t i = 0;
      while ((*back)[i] == s[i])
        i++;
      return cat("coefficient ", i, " comes back as ", (*back)[i], ", was ", s[i]);
    });
    bytes full = r.sig, salt;
    full[0] = L::sighdr;
    const auto d = decode(c, full, salt);
    c.require(d && *d == s && std::equal(salt.begin(), salt.end(), full.begin() + 1), [&] { return cat("decode_sig: ", info()); });
  }
  c.extra_evals++;
  c.label(want ? "fits" : "does not fit");
  c.label_if(bits == L::sigbits, "fits exactly");
  c.label_if(bits == L::sigbits + 1, "one bit too long");
  int64_t big = 0;
  for (auto x : s)
    big = std::max<int64_t>(big, std::llabs(x));
  c.label_if(big >= 1024, "coefficient of 1024 or more");
  c.label_if(big >= 2048, "coefficient of 2048 or more");
}
static ivec
gen(pbt::Ctx& c)
{
  auto& t = c.t;
  const size_t m = t.pick({ 4, 3, 2, 2 });
  const double sg = t.real(1, N == 512 ? 250 : 255);
  Rng r(t.u64());
  ivec s(N, 0);
  const int64_t b = isqrt(L::beta2);
  switch (m) {
    case 0:
      s = gauss_vec(r, N, sg);
      break;
    case 1: // a few large ones on a quiet background
      s = gauss_vec(r, N, sg / 8);
      for (int64_t k = uni(r, 1, 4); k > 0; k--)
        s[static_cast<size_t>(uni(r, 0, 9) == 0 ? N - 1 : uni(r, 0, N - 1))] = uni(r, -b, b);
      break;
    case 2: // values around multiples of 128
      for (auto& x : s)
        x = 128 * uni(r, -2, 2) + uni(r, -1, 1);
      break;
    default:
      for (auto& x : s)
        x = uni(r, -3, 3);
  }
  shape::some(c, s, 4);
  // stay within the signature bound
  while (ref::norm2(s) > L::beta2) {
    size_t k = 0;
    for (size_t i = 1; i < N; i++)
      if (std::llabs(s[i]) > std::llabs(s[k]))
        k = i;
    s[k] = s[k] * 3 / 4;
  }
  return s;
}

PROPN(any_short, 12000, 6000, 600000, 300000)
{
  const ivec s = gen(c);
  c.nontrivial();
  judge(c, s);
}

// encodings of a chosen length around the space available
PROPN(chosen_length, 12000, 6000, 600000, 300000)
{
  auto& t = c.t;
  const int64_t target = static_cast<int64_t>(L::sigbits) + (t.chance(1, 2) ? 0 : t.range(-20, 12));
  const bool tail = t.chance(1, 3);
  const double sg = t.real(60, N == 512 ? 200 : 205);
  Rng r(t.u64());
  ivec s = gauss_vec(r, N, sg);
  if (tail)
    s[N - 1] = uni(r, 1000, 3000) * ((r.next() & 1) ? 1 : -1);
  int64_t need = target - static_cast<int64_t>(ref::sig_bitlen(s));
  for (int guard = 0; need != 0 && guard < 100000; guard++) {
    auto& x = s[static_cast<size_t>(uni(r, 0, N - 1))];
    const int64_t sgn = x < 0 ? -1 : 1;
    if (need > 0) {
      if (std::llabs(x) < 128 || uni(r, 0, 30) == 0)
        x += 128 * sgn, need--;
    } else if (std::llabs(x) >= 256 || (std::llabs(x) >= 128 && uni(r, 0, 3) == 0)) {
      // never -0: |x| - 128 may be 0, which is encoded as +0
      x -= 128 * sgn, need++;
    }
  }
  if (need != 0)
    c.discard("length not reached");
  if (ref::norm2(s) > L::beta2)
    c.discard("above the norm bound");
  c.nontrivial();
  judge(c, s);
}

// each magnitude up to the bound, at a generated place
PROPN(every_magnitude, 8000, 8400, 80000, 84000)
{
  auto& t = c.t;
  const int64_t b = isqrt(L::beta2);
  const auto v = static_cast<int64_t>(t.enumerate(static_cast<uint64_t>(b) + 1));
  ivec s(N, 0);
  if (t.chance(1, 2)) {
    Rng r(t.u64());
    s = gauss_vec(r, N, 4);
  }
  const size_t at = t.chance(1, 4) ? N - 1 : t.below(N);
  s[at] = t.chance(1, 2) ? -v : v;
  if (ref::norm2(s) > L::beta2) {
    const auto keep = s[at];
    s.assign(N, 0);
    s[at] = keep;
  }
  c.nontrivial();
  judge(c, s);
}
