// C20: randomness is fresh, full-width and a plain byte stream
#include "guard.hpp"
#include <set>
#include <unordered_map>
#include "sigtools.hpp"
using pbt::cat;
using namespace st;

static bytes
stream(const size_t n)
{
  prng::prng_t r;
  bytes b(n);
  r.read(b.data(), n);
  return b;
}
// entropy words w[0], w[1], ... with some bits changed
static void
entropy(const uint64_t key, const uint64_t word = UINT64_MAX, const uint32_t mask = 0)
{
  det::ent.words = 0;
  det::ent.source = [=](const uint64_t i) {
    uint64_t x = key ^ (i + 1) * 0xd1342543de82ef95ull;
    auto v = static_cast<uint32_t>(pbt::Rng::splitmix(x) >> 32);
    return i == word ? v ^ mask : v;
  };
}

// At least 256 bits of system entropy reach the stream: they are found by
// changing every single bit drawn.  All resulting streams differ.
PROP(seed_width, 300, 20000)
{
  const uint64_t key = c.t.u64();
  entropy(key);
  const bytes base = stream(40);
  const uint64_t words = det::ent.words;
  if (c.verbose)
    c.desc << "entropy key " << key << ", words drawn " << words;
  entropy(key);
  c.require(stream(40) == base, "the same entropy gives two different streams");
  std::set<bytes> seen{ base };
  uint64_t live = 0;
  for (uint64_t w = 0; w < std::min<uint64_t>(words, 64); w++)
    for (uint32_t b = 0; b < 32; b++) {
      entropy(key, w, 1u << b);
      const bytes s = stream(40);
      if (s == base)
        continue;
      live++;
      c.require(seen.insert(s).second, [&] { return cat("two different entropies give the same stream (word ", w, " bit ", b, ")"); });
    }
  c.extra_evals += words * 32;
  c.require(live >= 256, [&] { return cat("only ", live, " bits of system entropy influence the stream (", words, " words are drawn)"); });
  c.label(cat(words, " entropy words per instance"));
  c.nontrivial();
}
// several bits changed at once
PROP(seed_differences, 20000, 1000000)
{
  const uint64_t key = c.t.u64();
  entropy(key);
  const bytes a = stream(32);
  const uint64_t words = det::ent.words;
  if (words == 0)
    c.discard("no entropy words drawn");
  std::map<uint64_t, uint32_t> ch;
  for (size_t k = 1 + c.t.below(4); k > 0; k--)
    ch[c.t.below(words)] = static_cast<uint32_t>((1 + c.t.below(255)) | (1 + c.t.below(255)) << 8 | (1 + c.t.below(255)) << 16 | (1 + c.t.below(255)) << 24);
  // also: swap and rotate words
  const auto how = c.t.below(3);
  const uint64_t x = c.t.below(words), y = c.t.below(words);
  entropy(key);
  const auto plain = det::ent.source;
  auto changed = [=](uint64_t i) -> uint32_t {
    if (how == 1)
      i = i == x ? y : i == y ? x : i;
    else if (how == 2)
      i = (i + x) % words;
    const auto it = ch.find(i);
    return plain(i) ^ (how == 0 && it != ch.end() ? it->second : 0);
  };
  // the library may use any part of a word: every byte has to change somewhere
  uint32_t diff = 0;
  for (uint64_t i = 0; i < words; i++)
    diff |= changed(i) ^ plain(i);
  const bool same = !(diff & 0xff) || !(diff & 0xff00) || !(diff & 0xff0000) || !(diff >> 24);
  det::ent.words = 0;
  det::ent.source = changed;
  const bytes b = stream(32);
  if (c.verbose)
    c.desc << "key " << key << " kind " << how;
  if (!same)
    c.require(a != b, [&] { return cat("different entropy, same stream (change of kind ", how, ")"); });
  c.label(how == 0 ? "values" : how == 1 ? "swap" : "rotation");
  c.nontrivial();
}
// instances created one after the other from a long run of entropy
PROP(no_collisions, 16, 400)
{
  det::seed(c.t.u64());
  std::unordered_set<uint64_t> seen;
  constexpr size_t COUNT = 25000;
  for (size_t i = 0; i < COUNT; i++) {
    const bytes b = stream(16);
    uint64_t v;
    std::memcpy(&v, b.data(), 8);
    c.require(seen.insert(v).second, [&] { return cat("instances with the same stream among ", i, " (first 8 bytes ", ref::hex(b.data(), 8), ")"); });
  }
  if (c.verbose)
    c.desc << COUNT << " instances, all streams different";
  c.extra_evals += COUNT;
  c.nontrivial();
}
// reading in chunks
PROP(chunks, 20000, 1000000)
{
  const uint64_t key = c.t.u64();
  std::vector<size_t> sz;
  size_t total = 0;
  for (size_t k = 1 + c.t.below(24); k > 0; k--) {
    size_t n = 0;
    switch (c.t.pick({ 4, 3, 2, 1 })) {
      case 0:
        n = c.t.below(20);
        break;
      case 1:
        n = 136 * (1 + c.t.below(3)) + c.t.below(5) - 2;
        break;
      case 2:
        n = c.t.below(300);
        break;
      default:
        n = c.t.below(6000);
    }
    sz.push_back(n);
    total += n;
  }
  if (c.verbose) {
    c.desc << "chunks";
    for (auto n : sz)
      c.desc << " " << n;
  }
  entropy(key);
  const bytes whole = stream(total);
  entropy(key);
  prng::prng_t r;
  size_t at = 0;
  for (size_t k = 0; k < sz.size(); k++) {
    const auto fill = static_cast<uint8_t>(c.t.below(256));
    guard::buf b(sz[k], fill, c.t.below(2) != 0);
    r.read(b.data(), sz[k]);
    c.require(b.intact(), [&] { return cat("read of ", sz[k], " bytes writes outside them"); });
    c.require(b.same(bytes(whole.begin() + static_cast<long>(at), whole.begin() + static_cast<long>(at + sz[k]))), [&] { return cat("chunk ", k, " (", sz[k], " bytes at ", at, ") differs from the stream read at once"); });
    at += sz[k];
  }
  // the stream does not repeat itself
  if (total >= 64) {
    const size_t n = 16;
    for (size_t o = n; o + n <= total; o += n)
      c.require(!std::equal(whole.begin(), whole.begin() + n, whole.begin() + static_cast<long>(o)), [&] { return cat("the stream repeats after ", o, " bytes"); });
  }
  c.nontrivial();
}
// long streams and long reads
PROPL(long_streams, 48, 2000, 60)
{
  const uint64_t key = c.t.u64();
  const size_t total = (1ul << 17) + c.t.below(1ul << 20);
  entropy(key);
  const bytes whole = stream(total);
  entropy(key);
  prng::prng_t r;
  std::vector<uint8_t> b;
  size_t at = 0;
  Rng g(c.t.u64());
  const int64_t top = c.t.below(2) ? 300000 : 3000;
  while (at < total) {
    size_t n = static_cast<size_t>(uni(g, 0, top));
    if (g.next() % 8 == 0)
      n = (1ul << uni(g, 0, 17)) + static_cast<size_t>(uni(g, 0, 2));
    n = std::min(n, total - at);
    b.assign(n, 0x5c);
    r.read(b.data(), n);
    c.require(std::equal(b.begin(), b.end(), whole.begin() + static_cast<long>(at)), [&] { return cat("read of ", n, " bytes at ", at, " differs from the stream read at once"); });
    at += n;
  }
  std::unordered_set<uint64_t> seen;
  for (size_t o = 0; o + 8 <= total; o += 8) {
    uint64_t v;
    std::memcpy(&v, whole.data() + o, 8);
    c.require(seen.insert(v).second, [&] { return cat("the stream repeats 8 bytes at ", o); });
  }
  if (c.verbose)
    c.desc << total << " bytes";
  c.nontrivial();
}
// Very long streams.  Each block the generator squeezes is made up (a function
// of the seed and the position), so that gigabytes can be read.  The stream may
// not depend on how it is read, and does not repeat itself: 8-byte groups at
// any offset which satisfy a condition (one of 65536) are all different.
PROPL(very_long_streams, 24, 200, 400)
{
  const size_t which = c.t.enumerate(24);
  const uint64_t key = c.t.u64(), chunks = c.t.u64();
  const uint64_t total = which == 0 ? (1ull << 32) + (1ull << 26) + c.t.below(1ul << 20) : which < 5 ? (1ull << 28) + c.t.below(1ull << 28) : (1ull << c.t.range(20, 26)) + c.t.below(1ul << 20);
  // single bytes up to whole megabytes
  const int64_t low = which == 0 ? 1 << 16 : c.t.pick({ 3, 1 }) ? 1 : 1 << 12;
  const int64_t top = low == 1 && total < (1ull << 27) ? c.t.range(1, 20) : c.t.range(1 << 16, 1 << 20);
  auto pass = [&](const bool scan) {
    entropy(key);
    uint64_t seed = 0;
    shake256::probe::st.on_seed = [&](const uint8_t* m, const size_t n) {
      seed = 0xcbf29ce484222325ull;
      for (size_t i = 0; i < n; i++)
        seed = (seed ^ m[i]) * 0x100000001b3ull;
    };
    shake256::probe::st.source = [&](const uint64_t at, uint8_t* const d, const size_t n) {
      auto word = [&](const uint64_t i) {
        uint64_t z = seed + i * 0x9e3779b97f4a7c15ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
      };
      size_t o = 0;
      for (; o < n && (at + o) % 8; o++)
        d[o] = static_cast<uint8_t>(word((at + o) / 8) >> (8 * ((at + o) % 8)));
      for (; o + 8 <= n; o += 8) {
        const uint64_t w = word((at + o) / 8);
        std::memcpy(d + o, &w, 8);
      }
      for (; o < n; o++)
        d[o] = static_cast<uint8_t>(word((at + o) / 8) >> (8 * ((at + o) % 8)));
      return true;
    };
    prng::prng_t r;
    std::vector<uint64_t> sums;
    std::unordered_map<uint64_t, uint64_t> seen;
    constexpr size_t MB = 1 << 20;
    bytes block(2 * MB + 8);
    size_t have = 0;
    Rng g(chunks);
    for (uint64_t at = 0; at < total; at += MB) {
      while (have < MB) { // reads cross from one megabyte into the next
        const size_t n = scan ? MB : static_cast<size_t>(uni(g, low, top));
        r.read(block.data() + have, n);
        have += n;
      }
      uint64_t h = 0;
      for (size_t o = 0; o < MB; o += 8) {
        uint64_t v;
        std::memcpy(&v, block.data() + o, 8);
        h = (h ^ v) * 0x9e3779b97f4a7c15ull;
        h ^= h >> 29;
      }
      sums.push_back(h);
      if (scan)
        for (size_t o = 0; o + 8 <= MB; o++) {
          uint16_t m;
          std::memcpy(&m, block.data() + o, 2);
          if (m != 0x5aa5)
            continue;
          uint64_t v;
          std::memcpy(&v, block.data() + o, 8);
          const auto [it, fresh] = seen.insert({ v, at + o });
          c.require(fresh, [&] { return cat("the stream repeats itself: the bytes at ", at + o, " are those at ", it->second); });
        }
      have -= MB;
      std::memmove(block.data(), block.data() + MB, have);
    }
    shake256::probe::st.reset();
    return sums;
  };
  if (c.verbose)
    c.desc << total << " bytes, then in reads of " << low << " to " << top;
  const auto a = pass(true), b = pass(false);
  for (size_t i = 0; i < a.size(); i++)
    c.require(a[i] == b[i], [&] { return cat("in reads of ", low, " to ", top, " bytes the stream differs in the megabyte from ", i << 20); });
  c.label(total >> 32 ? "beyond 2^32 bytes" : total >> 28 ? "beyond 2^28 bytes" : "beyond 2^20 bytes");
  c.nontrivial();
}
// two instances used alternately
PROP(instances, 10000, 400000)
{
  const uint64_t k1 = c.t.u64(), k2 = c.t.u64();
  entropy(k1);
  const bytes a = stream(2000);
  entropy(k2);
  const bytes b = stream(2000);
  entropy(k1);
  prng::prng_t r1;
  entropy(k2);
  prng::prng_t r2;
  size_t p1 = 0, p2 = 0;
  uint8_t buf[256];
  for (size_t k = 1 + c.t.below(12); k > 0; k--) {
    const size_t n = c.t.below(160);
    if (c.t.below(2)) {
      r1.read(buf, n);
      c.require(std::equal(buf, buf + n, a.begin() + static_cast<long>(p1)), "first instance: other bytes when a second one is used in between");
      p1 += n;
    } else {
      r2.read(buf, n);
      c.require(std::equal(buf, buf + n, b.begin() + static_cast<long>(p2)), "second instance: other bytes when a first one is used in between");
      p2 += n;
    }
  }
  c.require(k1 == k2 || a != b, "different entropy, same stream");
  // a byte is a byte: all values occur
  std::array<int, 256> cnt{};
  for (auto v : a)
    cnt[v]++;
  for (auto v : b)
    cnt[v]++;
  for (int v = 0; v < 256; v++)
    c.require(cnt[static_cast<size_t>(v)] < 120, [&] { return cat("byte value ", v, " occurs ", cnt[static_cast<size_t>(v)], " times in 4000"); });
  c.nontrivial();
}
// the same through the public interface: salts of one-shot signatures
template<size_t N>
static void
salts(pbt::Ctx& c)
{
  const auto& k = lib::pick_key<N>(c.t);
  const bytes sk = ref::encode_sk<N>(k.f, k.g, k.F), msg = lib::message(c.t, 100);
  const uint64_t key = c.t.u64();
  bytes sig(ref::P<N>::siglen);
  auto salt = [&] {
    c.require(falcon::sign<N>(sk.data(), msg.data(), msg.size(), sig.data()), "signing failed");
    return bytes(sig.begin() + 1, sig.begin() + 41);
  };
  entropy(key);
  const bytes a = salt();
  const uint64_t words = det::ent.words;
  c.require(words >= 8, [&] { return cat("one signature draws ", words, " words of entropy"); });
  std::set<bytes> seen{ a };
  const uint64_t w = c.t.below(words);
  for (int i = 0; i < 3; i++) {
    entropy(key, w, static_cast<uint32_t>(1u << c.t.below(32)));
    const bytes s = salt();
    c.label(seen.insert(s).second ? "salt differs" : "salt repeats");
  }
  det::seed(key);
  for (int i = 0; i < 6; i++) {
    const bytes s = salt();
    c.require(seen.insert(s).second, "two signatures with the same salt");
    for (const size_t off : { 0, 8, 16, 24, 32 })
      for (auto& o : seen)
        c.require(o == s || !std::equal(s.begin() + static_cast<long>(off), s.begin() + static_cast<long>(off) + 8, o.begin() + static_cast<long>(off)),
                  [&] { return cat("two salts share bytes ", off, "..", off + 7); });
  }
  c.extra_evals += 10;
  c.nontrivial();
}
PROP(signature_salts, 240, 8000)
{
  if (c.t.below(3) == 0)
    salts<1024>(c);
  else
    salts<512>(c);
}
