// C18: message hashing matches the specification
#include "guard.hpp"
#include "huge.hpp"
#include "sigtools.hpp"
using pbt::cat;
using namespace st;

template<size_t n>
static ivec
lib_hash(pbt::Ctx& c, const bytes& salt, const bytes& msg, const uint16_t dirt)
{
  std::vector<ff::ff_t> p(n + 8);
  for (auto& x : p)
    x.v = dirt;
  hashing::hash_to_point<n>(salt.data(), salt.size(), msg.data(), msg.size(), p.data());
  for (size_t i = 0; i < 8; i++)
    c.require(p[n + i].v == dirt, [&] { return cat("writes beyond the polynomial, at ", i); });
  for (size_t i = 0; i < n; i++)
    c.require(p[i].v < ref::Q, [&] { return cat("coefficient ", i, " is ", p[i].v); });
  return lib::from_ff(p.data(), n);
}
template<size_t n>
static void
against_model(pbt::Ctx& c, const bytes& salt, const bytes& msg, const uint16_t dirt)
{
  const ivec got = lib_hash<n>(c, salt, msg, dirt);
  ref::h2p_info info;
  const ivec want = ref::hash_to_point(salt.data(), salt.size(), msg.data(), msg.size(), n, &info);
  c.label(info.rejected > 60 ? "over 60 values skipped" : "up to 60 values skipped");
  for (size_t i = 0; i < n; i++)
    c.require(got[i] == want[i], [&] {
      return cat("degree ", n, ", coefficient ", i, " is ", got[i], ", expected ", want[i], "; salt ", ref::hex(salt.data(), salt.size()), " message ", ref::hex(msg.data(), msg.size()), " (",
                 msg.size(), " bytes)");
    });
}
static bytes
salt_of(pbt::Tape& t)
{
  const size_t n = t.pick({ 5, 1, 1 }) == 0 ? 40 : t.below(400);
  bytes s(n);
  const uint64_t k = t.u64();
  for (size_t i = 0; i < n; i++)
    s[i] = k ? det::byte_of(k, i) : 0;
  return s;
}

PROP(messages, 40000, 2000000)
{
  const bytes salt = salt_of(c.t), msg = lib::message(c.t, 20000);
  if (c.verbose)
    c.desc << "salt " << ref::hex(salt.data(), salt.size()) << " message of " << msg.size() << " bytes " << ref::hex(msg.data(), msg.size());
  const auto dirt = static_cast<uint16_t>(c.t.below(65536));
  against_model<512>(c, salt, msg, dirt);
  against_model<1024>(c, salt, msg, dirt);
  c.label(msg.empty() ? "empty message" : salt.size() + msg.size() > 136 ? "several blocks" : "one block");
  c.nontrivial();
}

PROPL(long_messages, 260, 12000, 60)
{
  const bytes salt = salt_of(c.t), msg = lib::long_message(c.t);
  if (c.verbose)
    c.desc << "message of " << msg.size() << " bytes";
  if (c.t.below(2))
    against_model<512>(c, salt, msg, 1);
  else
    against_model<1024>(c, salt, msg, 1);
  // the last byte counts
  if (c.t.below(3) == 0) {
    bytes m = msg;
    const ivec a = lib_hash<512>(c, salt, m, 0);
    m[m.size() - 1 - c.t.below(4)] ^= static_cast<uint8_t>(1u << c.t.below(8));
    c.require(lib_hash<512>(c, salt, m, 0) != a, "one of the last bytes makes no difference");
  }
  c.label(msg.size() >= 65536 ? "64 KiB or more" : "less than 64 KiB");
  c.nontrivial();
}
PROP(huge_messages, 24, 200)
{
  const bytes salt(40, 7);
  if (c.t.below(2))
    huge::absorbs_all(c, "hash_to_point<512>", 40, [&](const uint8_t* m, size_t n) {
      std::vector<ff::ff_t> p(512);
      hashing::hash_to_point<512>(salt.data(), 40, m, n, p.data());
    });
  else
    huge::absorbs_all(c, "hash_to_point<1024>", 40, [&](const uint8_t* m, size_t n) {
      std::vector<ff::ff_t> p(1024);
      hashing::hash_to_point<1024>(salt.data(), 40, m, n, p.data());
    });
}

// every length of the input around the first blocks
PROP(every_length, 1200, 1200)
{
  const size_t len = c.t.enumerate(1200);
  bytes msg(len), salt(40);
  const uint64_t k = 1 + c.t.below(1ull << 62);
  for (size_t i = 0; i < len; i++)
    msg[i] = det::byte_of(k, i);
  for (size_t i = 0; i < 40; i++)
    salt[i] = det::byte_of(~k, i);
  against_model<512>(c, salt, msg, 0);
  against_model<1024>(c, salt, msg, 0xffff);
  c.nontrivial();
}

// chosen XOF output: many skipped values, edge values, at any position
PROP(skipping, 16000, 800000)
{
  const uint64_t key = c.t.u64();
  const auto dense = static_cast<uint32_t>(c.t.below(100)); // percent of skipped values
  const auto kind = c.t.below(3);
  const uint64_t burst_at = c.t.below(2200), burst = c.t.below(400);
  auto word = [&](const uint64_t i) -> uint16_t {
    uint64_t x = key ^ i * 0x9e3779b97f4a7c15ull;
    const uint64_t v = pbt::Rng::splitmix(x);
    static const uint16_t e[] = { 61444, 61445, 61446, 65535, 0, 12288, 12289, 24577, 24578, 36867, 49155, 49156, 61443, 61440, 61695, 61184 };
    if (i >= burst_at && i < burst_at + burst)
      return static_cast<uint16_t>(61445 + (v >> 20) % 4091);
    if (kind == 1)
      return e[v % 16];
    if ((v & 0xffff) % 100 < dense)
      return kind == 2 ? static_cast<uint16_t>(61445 + ((v >> 20) & 1)) : static_cast<uint16_t>(61445 + (v >> 20) % 4091);
    return static_cast<uint16_t>(v >> 40);
  };
  shake256::probe::st.xof = [&](const uint64_t at, uint8_t* p, const size_t n) {
    for (size_t i = 0; i < n; i++) {
      const uint16_t w = word((at + i) / 2);
      p[i] = static_cast<uint8_t>((at + i) % 2 ? w : w >> 8);
    }
    return true;
  };
  if (c.verbose)
    c.desc << "skipped percentage " << dense << " kind " << kind << " burst " << burst << " at " << burst_at;
  auto go = [&]<size_t n>(std::integral_constant<size_t, n>) {
    ivec want;
    size_t skipped = 0;
    for (uint64_t i = 0; want.size() < n; i++) {
      const uint16_t w = word(i);
      if (w < 61445)
        want.push_back(w % ref::Q);
      else
        skipped++;
    }
    const ivec got = lib_hash<n>(c, bytes(40, 1), bytes{ 1, 2, 3 }, 7);
    for (size_t i = 0; i < n; i++)
      c.require(got[i] == want[i], [&] { return cat("degree ", n, ", coefficient ", i, " is ", got[i], ", expected ", want[i], " with ", skipped, " values skipped"); });
    c.label(skipped > n ? "more skipped than used" : skipped > n / 4 ? "many skipped" : "few skipped");
  };
  go(std::integral_constant<size_t, 512>{});
  go(std::integral_constant<size_t, 1024>{});
  shake256::probe::st.xof = nullptr;
  c.nontrivial();
}

// nothing but salt and message matters: other work in between, other places
template<size_t n>
static void
stateless_(pbt::Ctx& c)
{
  const bytes salt = salt_of(c.t), msg = lib::message(c.t, 3000);
  const ivec a = lib_hash<n>(c, salt, msg, 1);
  const bytes other = lib::message(c.t, 3000);
  lib_hash<1536 - n>(c, salt_of(c.t), other, 2);
  guard::buf s(salt), m(msg, c.t.below(2) != 0);
  std::vector<ff::ff_t> p(n);
  hashing::hash_to_point<n>(s.data(), s.size(), m.data(), m.size(), p.data());
  c.require(lib::from_ff(p.data(), n) == a, "the same salt and message give another polynomial");
  c.require(s.intact() && m.intact() && s.same(salt) && m.same(msg), "salt or message changed");
  // one bit of difference
  if (!msg.empty() || !salt.empty()) {
    bytes s2 = salt, m2 = msg;
    const size_t bit = c.t.below(8 * (s2.size() + m2.size()));
    (bit / 8 < s2.size() ? s2[bit / 8] : m2[bit / 8 - s2.size()]) ^= static_cast<uint8_t>(1u << (bit % 8));
    c.require(lib_hash<n>(c, s2, m2, 3) != a, [&] { return cat("bit ", bit, " of salt and message makes no difference"); });
  }
  c.nontrivial();
}

PROP(stateless, 6000, 300000)
{
  if (c.t.below(2))
    stateless_<512>(c);
  else
    stateless_<1024>(c);
}

// the sponge of the harness itself
PROP(sponge, 1, 1)
{
  static const char* want = "46b9dd2b0ba88d13233b3feb743eeb243fcd52ea62b81b82b50c27646ed5762fd75dc4ddd8c0f200cb05019d67b592f6fc821c49479ab48640292eacb3b7c4be";
  shake256::sponge_t s;
  s.pad();
  uint8_t b[64];
  s.squeeze(b, 64);
  c.require(ref::hex(b, 64, 64) == want, "SHAKE256 of the empty string");
  c.nontrivial();
}
