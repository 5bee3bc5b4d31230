// C09: each polynomial has exactly one accepted encoding
#include "sigcodec.hpp"
#include "shape.hpp"
using namespace codec;

static void
judge(pbt::Ctx& c, const bytes& sig, const std::string& what)
{
  const auto want = ref::decompress(sig.data() + 41, L::sigbits, N);
  const auto a = decompress(c, sig, false, 0x11111);
  const auto b = decompress(c, sig, true, -0x2222);
  if (c.verbose)
    c.desc << what << ": specification " << (want ? "accepts" : "refuses") << " " << ref::hex(sig.data() + 41, sig.size() - 41);
  auto info = [&] { return cat(what, ", body ", ref::hex(sig.data() + 41, sig.size() - 41, 2000)); };
  c.require(a.has_value() == want.has_value() && b.has_value() == want.has_value(), [&] {
    return cat("decompress_sig ", a ? "accepts" : "refuses", " / ", b ? "accepts" : "refuses", " (other surroundings) what the specification ", want ? "accepts" : "refuses", ": ", info());
  });
  bytes salt;
  bytes full = sig;
  const auto d = decode(c, full, salt);
  c.require(d.has_value() == (want.has_value() && full[0] == L::sighdr), [&] { return cat("decode_sig ", d ? "accepts" : "refuses", ", header ", int(full[0]), ": ", info()); });
  if (want) {
    c.require(*a == *want && *b == *want, [&] {
      size_t i = 0;
      while ((*a)[i] == (*want)[i] && (*b)[i] == (*want)[i])
        i++;
      return cat("coefficient ", i, " read as ", (*a)[i], "/", (*b)[i], ", expected ", (*want)[i], ": ", info());
    });
    if (d)
      c.require(*d == *want && std::equal(salt.begin(), salt.end(), full.begin() + 1), [&] { return cat("decode_sig: ", info()); });
    const auto r = compress(c, *want, 0);
    c.require(r.ok && std::equal(r.sig.begin() + 41, r.sig.end(), sig.begin() + 41), [&] { return cat("does not compress back to the same bytes: ", info()); });
  }
  c.extra_evals++;
  c.label(want ? "accepted by the specification" : "refused by the specification");
}
struct bits
{
  std::vector<uint8_t> v{};
  void put(int64_t x, int n)
  {
    for (int i = n - 1; i >= 0; i--)
      v.push_back((x >> i) & 1);
  }
  // sign, 7 low bits, unary; neg0: as written
  void coeff(bool neg, int64_t low, int64_t high)
  {
    put(neg, 1);
    put(low, 7);
    for (int64_t i = 0; i < high; i++)
      v.push_back(0);
    v.push_back(1);
  }
  bytes sig(uint8_t pad) const
  {
    bytes s(L::siglen, 0);
    s[0] = L::sighdr;
    for (size_t i = 0; i < L::sigbits; i++)
      if (i < v.size() ? v[i] : pad)
        s[41 + i / 8] |= static_cast<uint8_t>(0x80 >> (i % 8));
    return s;
  }
};
static void
coeff_of(bits& b, Rng& r, const double sg)
{
  const int64_t x = std::llround(sg * gauss(r));
  b.coeff(x < 0, std::llabs(x) & 127, std::llabs(x) >> 7);
}

// encodings by grammar, with one feature that decides
PROPN(grammar, 20000, 10000, 1000000, 500000)
{
  auto& t = c.t;
  const size_t m = t.pick({ 3, 3, 3, 3, 2, 2, 2 });
  const double sg = t.real(1, N == 512 ? 160 : 165);
  const size_t at = t.chance(1, 4) ? (t.chance(1, 2) ? 0 : N - 1) : t.below(N);
  const uint64_t q = t.u64();
  Rng r(t.u64());
  bits b;
  uint8_t pad = 0;
  std::string what = "plain";
  size_t cnt = N;
  int64_t high = -1;
  if (m == 2)
    cnt = N - 1 - (q % 3 ? 0 : q % 20); // too few coefficients
  for (size_t i = 0; i < cnt; i++) {
    if (i == at && m == 1) {
      what = "negative zero";
      b.coeff(true, 0, 0);
    } else if (i == at && m == 3) {
      what = "long unary run";
      high = static_cast<int64_t>(q % 5 == 0 ? q % 300 : q % 40);
      b.coeff(q >> 63, static_cast<int64_t>(r.next() & 127), high);
    } else if (i == at && m == 4) {
      what = "negative multiple of 128";
      b.coeff(true, 0, 1 + static_cast<int64_t>(q % 4));
    } else
      coeff_of(b, r, sg);
  }
  if (m == 2)
    what = "too few coefficients";
  if (m == 5) {
    what = "trailing bits";
    if (b.v.size() < L::sigbits) {
      const size_t room = L::sigbits - b.v.size();
      const size_t z = q % 3 == 0 ? room - 1 - (q >> 8) % std::min<size_t>(room, 9) : (q >> 8) % room;
      b.v.insert(b.v.end(), z, 0);
      b.v.push_back(1);
    }
  }
  if (m == 6) {
    what = "all ones after the end";
    pad = 1;
  }
  bytes s = b.sig(pad);
  if (t.chance(1, 20))
    s[0] = t.byte();
  Rng r2(q);
  for (size_t i = 1; i < 41; i++)
    s[i] = static_cast<uint8_t>(r2.next());
  c.label(what);
  c.nontrivial();
  judge(c, s, what);
}

// the last coefficient around the end of the space: cut at a chosen bit, ending
// exactly there, or lacking its final 1
PROPN(ends, 20000, 10000, 1000000, 500000)
{
  auto& t = c.t;
  const size_t m = t.pick({ 3, 3, 2, 2 });
  const int64_t off = t.range(-12, 12);
  const uint64_t q = t.u64();
  Rng r(t.u64());
  bits b;
  // N - 1 coefficients ending near the end
  int64_t want = static_cast<int64_t>(L::sigbits) - 9 + off;
  ivec s = gauss_vec(r, N - 1, 120);
  int64_t need = want - static_cast<int64_t>(ref::sig_bitlen(s));
  for (int g = 0; need != 0 && g < 200000; g++) {
    auto& x = s[static_cast<size_t>(uni(r, 0, N - 2))];
    if (need > 0)
      x += x < 0 ? -128 : 128, need--;
    else if (std::llabs(x) >= 128)
      x -= x < 0 ? -128 : 128, need++;
  }
  for (auto x : s)
    b.coeff(x < 0, std::llabs(x) & 127, std::llabs(x) >> 7);
  std::string what;
  if (m == 0) {
    what = "last coefficient cut by the end";
    b.coeff(q & 1, static_cast<int64_t>((q >> 1) & 127), static_cast<int64_t>((q >> 8) % 12));
  } else if (m == 1) { // ends exactly with the last bit, if there is room for it
    what = "last coefficient ends with the last bit";
    const int64_t room = static_cast<int64_t>(L::sigbits) - static_cast<int64_t>(b.v.size()) - 9;
    b.coeff(q & 1, static_cast<int64_t>((q >> 1) & 127), std::max<int64_t>(0, room));
  } else if (m == 2) {
    what = "last coefficient lacks its final one";
    b.put(static_cast<int64_t>(q & 255), 8);
  } else {
    what = "negative zero at the end";
    b.coeff(true, 0, 0);
  }
  if (b.v.size() > L::sigbits)
    b.v.resize(L::sigbits);
  c.label(what);
  c.nontrivial();
  judge(c, b.sig(0), what);
}

// changed bits of proper encodings, and arbitrary bytes
PROPN(mutations, 20000, 10000, 1000000, 500000)
{
  auto& t = c.t;
  const size_t m = t.pick({ 5, 2, 1, 2 });
  const double sg = t.real(1, N == 512 ? 150 : 155);
  Rng r(t.u64());
  ivec s = gauss_vec(r, N, sg);
  shape::some(c, s, 4);
  fit<N>(s);
  bytes sig = make_sig<N>(bytes(40, t.byte()), s);
  const size_t used = ref::sig_bitlen(s);
  auto flip = [&](size_t b) { sig[41 + b / 8] ^= static_cast<uint8_t>(0x80 >> (b % 8)); };
  std::string what;
  if (m == 0) {
    what = "flipped bits";
    for (uint64_t k = 1 + t.below(3); k > 0; k--)
      flip(t.chance(1, 6) ? L::sigbits - 1 - t.below(9) : t.below(std::min(L::sigbits, used + 12)));
  } else if (m == 1) {
    what = "bytes replaced";
    const size_t a = 41 + t.below(L::siglen - 41), n = t.below(std::min<size_t>(L::siglen - a, 40) + 1);
    const uint8_t v = t.byte();
    for (size_t i = a; i < a + n; i++)
      sig[i] = v == 1 ? static_cast<uint8_t>(r.next()) : v == 2 ? 0xff : v == 3 ? 0 : v;
  } else if (m == 2) {
    what = "arbitrary bytes";
    for (size_t i = 41; i < L::siglen; i++)
      sig[i] = static_cast<uint8_t>(r.next() >> 40);
    if (r.next() & 1)
      for (size_t i = 41; i < L::siglen; i++)
        sig[i] |= static_cast<uint8_t>(r.next() >> 40);
  } else { // one bit removed or inserted: everything behind it shifts
    what = "shifted by a bit";
    bits b;
    for (size_t i = 0; i < L::sigbits; i++)
      b.v.push_back(static_cast<uint8_t>(ref::bit_at(sig.data() + 41, i)));
    const size_t a = t.below(used);
    if (t.chance(1, 2))
      b.v.erase(b.v.begin() + static_cast<long>(a));
    else
      b.v.insert(b.v.begin() + static_cast<long>(a), static_cast<uint8_t>(t.below(2)));
    b.v.resize(L::sigbits);
    sig = b.sig(0);
  }
  c.label(what);
  c.nontrivial();
  judge(c, sig, what);
}

// every single bit of one encoding flipped, one after another
PROPN(every_bit, 24, 12, 2000, 1000)
{
  auto& t = c.t;
  const double sg = t.real(1, N == 512 ? 160 : 165);
  Rng r(t.u64());
  ivec s = gauss_vec(r, N, sg);
  fit<N>(s);
  bytes sig = make_sig<N>(bytes(40, 0), s);
  for (size_t b = 0; b < L::sigbits; b++) {
    sig[41 + b / 8] ^= static_cast<uint8_t>(0x80 >> (b % 8));
    judge(c, sig, cat("bit ", b, " flipped"));
    sig[41 + b / 8] ^= static_cast<uint8_t>(0x80 >> (b % 8));
    c.verbose = false;
  }
  c.nontrivial();
}
