// C19: calls are independent: no hidden state, no side effects
#include "guard.hpp"
#include "treetools.hpp"
#include <alloca.h>
#include <pthread.h>
#include <thread>
using pbt::cat;
using namespace st;
using namespace tt;

// ------------------------------------------------------------------ the world
template<size_t N>
struct entry
{
  lib::key k;
  bytes pk, sk;
  std::vector<bytes> sig; // one per message
  lib::expanded<N> x;
};
struct world
{
  std::vector<entry<512>> a;
  std::vector<entry<1024>> b;
  std::vector<bytes> msg;
  template<size_t N>
  std::vector<entry<N>>& keys()
  {
    if constexpr (N == 512)
      return a;
    else
      return b;
  }
};
// a different key which shares parts with the given one
template<size_t N>
static lib::key
sibling(pbt::Tape& t, const lib::key& k)
{
  lib::key r = k;
  switch (t.below(5)) {
    case 0: { // same f and g
      const uint64_t at = t.below(2 * N);
      for (size_t i = 0; i < 2 * N; i++) {
        const ivec u = shift(k.f, at + i), v = shift(k.g, at + i);
        ivec F = k.F, G = k.G;
        for (size_t x = 0; x < N; x++)
          F[x] += u[x], G[x] += v[x];
        if (in_range(F, 127)) {
          r.F = F, r.G = G;
          break;
        }
      }
      break;
    }
    case 1: // same f and G
      r.g = neg(k.g), r.F = neg(k.F);
      break;
    case 2: // same g and F
      r.f = neg(k.f), r.G = neg(k.G);
      break;
    case 3: { // f and G the same, g and F by a power of x
      const uint64_t j = t.below(2 * N);
      r.g = shift(k.g, j), r.F = shift(k.F, 2 * N - j);
      break;
    }
    default: { // g and F the same
      const uint64_t j = t.below(2 * N);
      r.f = shift(k.f, j), r.G = shift(k.G, 2 * N - j);
    }
  }
  r.h = ref::divq(ref::modv(r.g), ref::modv(r.f));
  return r;
}
template<size_t N>
static void
populate(pbt::Ctx& c, world& w, const size_t n)
{
  for (size_t i = 0; i < n; i++) {
    entry<N> e;
    if (i > 0 && c.t.below(3) > 0)
      e.k = sibling<N>(c.t, w.keys<N>()[i - 1].k), c.label("key sharing parts with another");
    else
      e.k = variant<N>(c.t);
    e.pk = ref::encode_pk<N>(e.k.h);
    e.sk = ref::encode_sk<N>(e.k.f, e.k.g, e.k.F);
    Rng r(c.t.u64());
    for (auto& m : w.msg) { // some that verify, some that do not
      bytes s(ref::P<N>::siglen);
      det::seed(r.next());
      (void)falcon::sign<N>(e.sk.data(), m.data(), m.size(), s.data());
      switch (r.next() % 5) {
        case 0:
          s[1 + r.next() % 40] ^= 1;
          break;
        case 1:
          s[s.size() - 1] |= 1;
          break;
        case 2:
          s[41 + r.next() % 500] ^= 16;
          break;
        default:;
      }
      e.sig.push_back(s);
    }
    e.x = lib::expand<N>(e.k);
    w.keys<N>().push_back(e);
  }
}
struct op
{
  size_t kind = 0, n = 512, key = 0, msg = 0, sig = 0;
  size_t bad = 0;      // malformed keys: see spoil
  bool staged = false; // inputs copied to the same places for every call
  size_t where = 0;    // which input differs a little from the key's own: 1 public key, 2 secret key, 3 signature, 4 message, 5 polynomials
  uint64_t twist = 0;  // and how
  uint64_t seed = 0;
};
static const char* op_names[] = { "verify", "sign", "sign (precomputed)", "decode public key", "decode secret key", "decode signature", "hash", "expand", "encode", "keygen" };
static std::string
show(const op& o)
{
  return cat(op_names[o.kind], "<", o.n, ">(key ", o.key, ", message ", o.msg, ", signature ", o.sig, o.bad ? cat(", malformed key ", o.bad) : std::string(), o.where ? cat(", input ", o.where, " changed by ", o.twist) : std::string(), o.staged ? ", staged" : "", ")");
}
template<size_t N, class T>
static void
put(bytes& out, const T* p, const size_t n)
{
  const auto* b = reinterpret_cast<const uint8_t*>(p);
  out.insert(out.end(), b, b + n * sizeof(T));
}
// Where a caller keeps its inputs, if it uses the same buffers for all calls.
struct stage
{
  bytes pk = bytes(2048), sk = bytes(4096), sig = bytes(2048), msg = bytes(4096);
  std::vector<fft::cmplx> B = std::vector<fft::cmplx>(4 * 1024), T = std::vector<fft::cmplx>(11 * 1024);
};
static void
spoil(const size_t how, bytes& pk, bytes& sk)
{
  switch (how) {
    case 0:
      break;
    case 1: // header of the other kind of key
      std::swap(pk[0], sk[0]);
      break;
    case 2: // header of the other parameter set
      pk[0] ^= 9 ^ 10, sk[0] ^= 9 ^ 10;
      break;
    default: // last coefficient not below q; secret key empty header
      pk[pk.size() - 1] = pk[pk.size() - 2] = 0xff, sk[0] = 0;
  }
}
// A small change, of the kinds which a remembered result of an earlier call
// with weakly compared arguments would not notice.
static void
change(bytes& b, const size_t lo, const uint64_t how, const bool resize)
{
  Rng r(how);
  const size_t kind = r.next() % (resize ? 9 : 7);
  if (kind >= 7) {
    if (kind == 7 || b.empty())
      b.push_back(r.next() % 2 ? 0 : static_cast<uint8_t>(r.next()));
    else
      b.pop_back();
    return;
  }
  if (b.size() < lo + 2)
    return;
  const size_t n = b.size() - lo, i = lo + r.next() % n, j = lo + r.next() % n;
  static const int mult[] = { 1, 31, 33, 37, 257 - 256, 131 };
  switch (kind) {
    case 0: // one bit
    case 1:
      b[i] ^= static_cast<uint8_t>(1 << r.next() % 8);
      break;
    case 2: // some low bits
      for (size_t k = 1 + r.next() % 6; k > 0; k--)
        b[lo + r.next() % n] ^= 1;
      break;
    case 3: // two bytes exchanged
      std::swap(b[i], b[j]);
      break;
    case 4: { // polynomial checksums stay the same
      const size_t p = lo + r.next() % (n - 1);
      const int m = mult[r.next() % 6], dir = r.next() % 2 ? 1 : -1;
      for (size_t q = 0; q < n - 1; q++) {
        const size_t at = lo + (p - lo + q) % (n - 1);
        const int u = b[at] + dir, v = b[at + 1] - dir * m;
        if (u >= 0 && u < 256 && v >= 0 && v < 256) {
          b[at] = static_cast<uint8_t>(u), b[at + 1] = static_cast<uint8_t>(v);
          break;
        }
      }
      break;
    }
    case 5: { // two words exchanged
      const size_t w = r.next() % 2 ? 8 : 4;
      if (n >= 2 * w) {
        const size_t x = lo + r.next() % (n / w) * w, y = lo + r.next() % (n / w) * w;
        for (size_t k = 0; k < w; k++)
          std::swap(b[x + k], b[y + k]);
      }
      break;
    }
    default: { // the same bit in two places: xor of everything stays the same
      const auto m = static_cast<uint8_t>(1 << r.next() % 8);
      b[i] ^= m;
      b[j] ^= m;
    }
  }
}
// the inputs a call gets
struct args
{
  bytes pk, sk, sig, msg;
};
template<size_t N>
static args
actual(world& w, const op& o)
{
  auto& e = w.keys<N>()[o.key];
  args a{ e.pk, e.sk, e.sig[o.sig], w.msg[o.msg] };
  if (o.bad)
    spoil(o.bad, a.pk, a.sk);
  switch (o.where) {
    case 1:
      change(a.pk, 1, o.twist, false);
      break;
    case 2:
      change(a.sk, 1, o.twist, false);
      break;
    case 3:
      change(a.sig, 1, o.twist, false);
      break;
    case 4:
      change(a.msg, 0, o.twist, true);
      break;
    default:;
  }
  return a;
}
template<size_t N>
struct views
{
  const uint8_t *pk, *sk, *sig, *msg;
  size_t mlen;
  const fft::cmplx *B, *T;
};
template<size_t N>
static views<N>
inputs(world& w, const op& o, const args& a, stage* st)
{
  auto& e = w.keys<N>()[o.key];
  if (!o.staged || !st) {
    views<N> v{ e.pk.data(), e.sk.data(), e.sig[o.sig].data(), w.msg[o.msg].data(), a.msg.size(), e.x.B.data(), e.x.T.data() };
    if (o.bad || o.where == 1)
      v.pk = a.pk.data();
    if (o.bad || o.where == 2)
      v.sk = a.sk.data();
    if (o.where == 3)
      v.sig = a.sig.data();
    if (o.where == 4)
      v.msg = a.msg.data();
    return v;
  }
  std::copy(a.pk.begin(), a.pk.end(), st->pk.begin());
  std::copy(a.sk.begin(), a.sk.end(), st->sk.begin());
  std::copy(a.sig.begin(), a.sig.end(), st->sig.begin());
  std::copy(a.msg.begin(), a.msg.end(), st->msg.begin());
  if (o.kind == 2) {
    std::copy(e.x.B.begin(), e.x.B.end(), st->B.begin());
    std::copy(e.x.T.begin(), e.x.T.end(), st->T.begin());
  }
  return { st->pk.data(), st->sk.data(), st->sig.data(), st->msg.data(), a.msg.size(), st->B.data(), st->T.data() };
}
// All outputs of one call, as bytes.  fill: what output buffers hold before.
template<size_t N>
static bytes
perform(world& w, const op& o, const uint8_t fill, stage* st)
{
  using L = ref::P<N>;
  auto& e = w.keys<N>()[o.key];
  const args given = actual<N>(w, o);
  const auto in = inputs<N>(w, o, given, st);
  bytes out;
  auto i32 = [&] {
    std::vector<int32_t> v(N);
    std::memset(v.data(), fill, 4 * N);
    return v;
  };
  det::seed(o.seed);
  shake256::probe::st.reset();
  switch (o.kind) {
    case 0:
      out.push_back(falcon::verify<N>(in.pk, in.msg, in.mlen, const_cast<uint8_t*>(in.sig)));
      break;
    case 1: {
      bytes s(L::siglen, fill);
      const bool ok = falcon::sign<N>(in.sk, in.msg, in.mlen, s.data());
      if (ok)
        out = s;
      out.push_back(ok);
      break;
    }
    case 2: {
      bytes s(L::siglen, fill);
      prng::prng_t rng;
      for (int i = 0; i < 2; i++) {
        falcon::sign<N>(in.B, in.T, in.msg, in.mlen, s.data(), rng);
        out.insert(out.end(), s.begin(), s.end());
      }
      break;
    }
    case 3: {
      std::vector<ff::ff_t> h(N);
      std::memset(static_cast<void*>(h.data()), fill, N * sizeof(h[0]));
      const bool ok = decoding::decode_pkey<N>(in.pk, h.data());
      if (ok)
        for (auto& x : h)
          out.push_back(static_cast<uint8_t>(x.v)), out.push_back(static_cast<uint8_t>(x.v >> 8));
      out.push_back(ok);
      break;
    }
    case 4: {
      auto f = i32(), g = i32(), F = i32(), G = i32();
      const bool ok = decoding::decode_skey<N>(in.sk, f.data(), g.data(), F.data());
      if (ok) {
        falcon::recompute_G<N>(f.data(), g.data(), F.data(), G.data());
        for (auto* v : { &f, &g, &F, &G })
          put<N>(out, v->data(), N);
      }
      out.push_back(ok);
      break;
    }
    case 5: {
      auto s = i32();
      bytes salt(40, fill);
      const bool ok = decoding::decode_sig<N>(in.sig, salt.data(), s.data());
      if (ok)
        put<N>(out, s.data(), N), out.insert(out.end(), salt.begin(), salt.end());
      out.push_back(ok);
      break;
    }
    case 6: {
      std::vector<ff::ff_t> h(N);
      std::memset(static_cast<void*>(h.data()), fill, N * sizeof(h[0]));
      hashing::hash_to_point<N>(in.sig + 1, 40, in.msg, in.mlen, h.data());
      for (auto& x : h)
        out.push_back(static_cast<uint8_t>(x.v)), out.push_back(static_cast<uint8_t>(x.v >> 8));
      break;
    }
    case 7: {
      std::vector<int32_t> f(N), g(N), F(N), G(N);
      lib::to_i32(e.k.f, f.data());
      lib::to_i32(e.k.g, g.data());
      lib::to_i32(e.k.F, F.data());
      lib::to_i32(e.k.G, G.data());
      std::vector<fft::cmplx> B(4 * N), T((L::logn + 1) * N);
      std::memset(static_cast<void*>(B.data()), fill, B.size() * sizeof(B[0]));
      std::memset(static_cast<void*>(T.data()), fill, T.size() * sizeof(T[0]));
      falcon::compute_matrix_B<N>(f.data(), g.data(), F.data(), G.data(), B.data());
      falcon::compute_falcon_tree<N>(B.data(), T.data());
      put<N>(out, B.data(), B.size());
      put<N>(out, T.data(), T.size());
      break;
    }
    case 8: {
      bytes pk(L::pklen, fill), sk(L::sklen, fill), sg(L::siglen, fill);
      const auto h = lib::to_ff<N>(e.k.h);
      std::vector<int32_t> f(N), g(N), F(N);
      lib::to_i32(e.k.f, f.data());
      lib::to_i32(e.k.g, g.data());
      lib::to_i32(e.k.F, F.data());
      if (o.where == 5) {
        auto& p = o.twist % 3 == 0 ? f : o.twist % 3 == 1 ? g : F;
        auto& v = p[o.twist / 3 % N];
        v = v > 0 ? v - 1 : v + 1;
      }
      encoding::encode_pkey<N>(h.data(), pk.data());
      encoding::encode_skey<N>(f.data(), g.data(), F.data(), sk.data());
      const bool ok = encoding::compress_sig<N, L::siglen>(F.data(), sg.data());
      out = pk;
      out.insert(out.end(), sk.begin(), sk.end());
      if (ok)
        out.insert(out.end(), sg.begin() + 41, sg.end());
      out.push_back(ok);
      break;
    }
    default: {
      bytes pk(L::pklen, fill), sk(L::sklen, fill);
      falcon::keygen<N>(pk.data(), sk.data());
      out = pk;
      out.insert(out.end(), sk.begin(), sk.end());
    }
  }
  return out;
}
static bytes
perform(world& w, const op& o, const uint8_t fill, stage* st = nullptr)
{
  return o.n == 512 ? perform<512>(w, o, fill, st) : perform<1024>(w, o, fill, st);
}
// what calls find below the stack pointer
__attribute__((noinline)) static void
paint(const size_t n, const uint64_t pattern)
{
  auto* p = static_cast<volatile uint64_t*>(alloca(n));
  for (size_t i = 0; i < n / 8; i++)
    p[i] = pattern == 3 ? 0x9e3779b97f4a7c15ull * (i + 1) : pattern == 2 ? 0xffffffffffffffffull : pattern == 1 ? 0x4141414141414141ull : 0;
}
#ifndef PBT_THREADS_ONLY
// The result of a call made alone, in a process of its own: a server forked
// before anything of the library has run forks again for every request.
struct Server
{
  static constexpr size_t CAP = 4 << 20;
  struct Shm
  {
    uint64_t seq, out_len, ok, absent;
    uint8_t in[CAP], out[CAP];
  };
  Shm* sh = nullptr;
  int ask[2], tell[2];

  struct Pack
  {
    uint8_t* p;
    size_t n = 0;
    template<class T>
    void put(const T* x, const size_t k)
    {
      const uint64_t b = k * sizeof(T);
      if (n + 8 + b > CAP)
        throw std::runtime_error("request too long");
      std::memcpy(p + n, &b, 8);
      std::memcpy(p + n + 8, x, b);
      n += 8 + b;
    }
    template<class T>
    std::vector<T> get()
    {
      uint64_t b;
      std::memcpy(&b, p + n, 8);
      std::vector<T> v(b / sizeof(T));
      std::memcpy(static_cast<void*>(v.data()), p + n + 8, b);
      n += 8 + b;
      return v;
    }
  };
  template<size_t N>
  static void send(Pack& q, world& w, const op& o)
  {
    auto& e = w.keys<N>()[o.key];
    for (auto* v : { &e.k.f, &e.k.g, &e.k.F, &e.k.G, &e.k.h })
      q.put(v->data(), v->size());
    for (auto* v : { &e.pk, &e.sk, &e.sig[o.sig], &w.msg[o.msg] })
      q.put(v->data(), v->size());
    q.put(e.x.B.data(), e.x.B.size());
    q.put(e.x.T.data(), e.x.T.size());
  }
  template<size_t N>
  static bytes handle(Pack& q, op o)
  {
    world w;
    entry<N> e;
    for (auto* v : { &e.k.f, &e.k.g, &e.k.F, &e.k.G, &e.k.h })
      *v = q.get<ivec::value_type>();
    e.pk = q.get<uint8_t>();
    e.sk = q.get<uint8_t>();
    e.sig.push_back(q.get<uint8_t>());
    w.msg.push_back(q.get<uint8_t>());
    e.x.B = q.get<fft::cmplx>();
    e.x.T = q.get<fft::cmplx>();
    w.keys<N>().push_back(e);
    o.key = o.msg = o.sig = 0;
    return perform<N>(w, o, 0, nullptr);
  }
  Server()
  {
    sh = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (sh == MAP_FAILED || pipe(ask) || pipe(tell))
      std::abort();
    if (fork() != 0) {
      close(ask[0]);
      close(tell[1]);
      return;
    }
    close(ask[1]);
    close(tell[0]);
    uint64_t id;
    while (read(ask[0], &id, 8) == 8) {
      const pid_t pid = fork();
      if (pid == 0) {
        op o;
        std::memcpy(&o, sh->in, sizeof(o));
        Pack q{ sh->in + sizeof(o) };
        bytes r;
        try {
          r = o.n == 512 ? handle<512>(q, o) : handle<1024>(q, o);
        } catch (const pbt::Absent&) {
          _exit(pbt::EXIT_ABSENT);
        }
        std::memcpy(sh->out, r.data(), r.size());
        sh->out_len = r.size();
        _exit(0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      sh->ok = st == 0;
      sh->absent = WIFEXITED(st) && WEXITSTATUS(st) == pbt::EXIT_ABSENT;
      if (write(tell[1], &id, 8) != 8)
        break;
    }
    _exit(0);
  }
  bytes call(world& w, const op& o)
  {
    std::memcpy(sh->in, &o, sizeof(o));
    Pack q{ sh->in + sizeof(o) };
    if (o.n == 512)
      send<512>(q, w, o);
    else
      send<1024>(q, w, o);
    const uint64_t id = ++sh->seq;
    uint64_t got = 0;
    if (write(ask[1], &id, 8) != 8)
      throw std::runtime_error("server gone");
    while (got != id) // a requester which was killed may have left an answer
      if (read(tell[0], &got, 8) != 8)
        throw std::runtime_error("server gone");
    if (sh->absent)
      pbt::absent("a function of this call");
    if (!sh->ok)
      throw pbt::Failure(cat("a call made alone crashed: ", show(o)));
    return bytes(sh->out, sh->out + sh->out_len);
  }
};
static Server server;
static bytes
alone(world& w, const op& o)
{
  return server.call(w, o);
}
#else
static bytes
alone(world& w, const op& o)
{
  return perform(w, o, 0);
}
#endif
// what the specification says about a result, where it says something
template<size_t N>
static bool
plausible(world& w, const op& o, const bytes& r)
{
  const args a = actual<N>(w, o);
  const auto& m = a.msg;
  if (o.bad && (o.kind == 0 || o.kind == 1 || o.kind == 3 || o.kind == 4))
    return r.size() == 1 && r[0] == 0;
  switch (o.kind) {
    case 0:
      return r[0] == ref::verify<N>(a.pk.data(), m.data(), m.size(), a.sig.data()).accept;
    case 1:
      return r.back() == 1 && ref::verify<N>(w.keys<N>()[o.key].pk.data(), m.data(), m.size(), r.data()).accept;
    case 2:
      return ref::verify<N>(w.keys<N>()[o.key].pk.data(), m.data(), m.size(), r.data()).accept && ref::verify<N>(w.keys<N>()[o.key].pk.data(), m.data(), m.size(), r.data() + ref::P<N>::siglen).accept;
    case 9: {
      const auto h = ref::decode_pk<N>(r.data());
      const auto d = ref::decode_sk<N>(r.data() + ref::P<N>::pklen);
      return h && d && ref::mulq_fast(ref::modv(d->f), *h) == ref::modv(d->g);
    }
    default:
      return true;
  }
}
static op
any_op(pbt::Tape& t, const world& w, const bool keygen)
{
  op o;
  o.n = t.below(2) ? 1024 : 512;
  o.kind = t.pick({ 4, 4, 4, 2, 2, 2, 2, 1, 2 });
  if (keygen && t.below(12) == 0)
    o.kind = 9, o.n = t.below(4) ? 512 : 1024;
  o.key = t.below(o.n == 512 ? w.a.size() : w.b.size());
  o.msg = o.sig = t.below(w.msg.size());
  if (t.below(4) == 0)
    o.sig = t.below(w.msg.size());
  o.staged = t.below(2);
  if (t.below(6) == 0)
    o.bad = 1 + t.below(3);
  o.seed = t.below(4); // few, so that calls recur with the same randomness
  return o;
}
// often a call close to an earlier one of the same history: the same again, or
// with one input slightly changed, or the other way round
static op
next_op(pbt::Tape& t, const world& w, const bool keygen, const std::vector<op>& past)
{
  if (past.empty() || t.below(5) < 3)
    return any_op(t, w, keygen);
  op o = t.below(2) ? past.back() : past[t.below(past.size())];
  const bool changed = o.where != 0;
  o.where = 0, o.twist = 0;
  if (t.below(4) > 0 && !changed) {
    static const std::vector<size_t> of[] = { { 1, 3, 4, 4 }, { 4 }, { 4 }, { 1 }, { 2 }, { 3 }, { 3, 4 }, {}, { 5 }, {} };
    const auto& l = of[o.kind];
    if (!l.empty())
      o.where = l[t.below(l.size())], o.twist = t.u64();
  }
  return o;
}
static world
make_world(pbt::Ctx& c, const size_t keys)
{
  world w;
  const size_t m = 2 + c.t.below(2);
  for (size_t i = 0; i < m; i++)
    if (i > 0 && c.t.below(2)) { // nearly the previous message
      bytes b = w.msg.back();
      const size_t how = c.t.below(4);
      if (how == 0 || b.empty())
        b.push_back(c.t.byte());
      else if (how == 1)
        b.pop_back();
      else
        b[how == 2 ? b.size() - 1 : c.t.below(b.size())] ^= static_cast<uint8_t>(1 << c.t.below(8));
      w.msg.push_back(b);
    } else
      w.msg.push_back(lib::message(c.t, 400));
  populate<512>(c, w, keys);
  populate<1024>(c, w, keys);
  return w;
}
static bool
same_inputs(const world& a, const world& b)
{
  auto eq = [](auto& x, auto& y) {
    for (size_t i = 0; i < x.size(); i++)
      if (x[i].pk != y[i].pk || x[i].sk != y[i].sk || x[i].sig != y[i].sig || std::memcmp(x[i].x.B.data(), y[i].x.B.data(), x[i].x.B.size() * sizeof(x[i].x.B[0])) ||
          std::memcmp(x[i].x.T.data(), y[i].x.T.data(), x[i].x.T.size() * sizeof(x[i].x.T[0])))
        return false;
    return true;
  };
  return a.msg == b.msg && eq(a.a, b.a) && eq(a.b, b.b);
}

// one thread: any history gives what each call gives alone
static void
history(pbt::Ctx& c, const bool keygen)
{
  world w = make_world(c, 2);
  const world before = w;
  const size_t steps = 6 + c.t.below(20);
  std::string told;
  stage st;
  std::vector<op> past;
  for (size_t i = 0; i < steps; i++) {
    const op o = next_op(c.t, w, keygen, past);
    past.push_back(o);
    const bytes want = alone(w, o);
    const auto pattern = c.t.below(4);
    const auto fill = static_cast<uint8_t>(c.t.byte());
    paint(1200000, pattern);
    const bytes got = perform(w, o, fill, &st);
    told += show(o) + "; ";
    c.require(got == want, [&] { return cat("call ", i, ", ", show(o), ", gives another result than alone (output buffers held ", int(fill), ", stack pattern ", pattern, "); history: ", told); });
    c.require(o.n == 512 ? plausible<512>(w, o, got) : plausible<1024>(w, o, got), [&] { return cat("call ", i, ", ", show(o), ", gives a wrong result; history: ", told); });
    c.require(same_inputs(w, before), [&] { return cat("call ", i, ", ", show(o), ", changed its inputs; history: ", told); });
    c.label(cat(op_names[o.kind], "<", o.n, ">"));
    if (o.where)
      c.label(cat("slightly changed input: ", op_names[o.kind]));
    c.label_if(o.bad && o.kind != 2 && o.kind < 5, "malformed key");
  }
  c.extra_evals += 3 * steps;
  if (c.verbose)
    c.desc << told;
  c.nontrivial();
}
#ifndef PBT_THREADS_ONLY
PROPL(histories, 400, 10000, 120)
{
  history(c, false);
}
PROPL(histories_with_keygen, 12, 400, 150)
{
  history(c, true);
}
#endif

// many threads at once, sharing keys, messages and expansions
struct job
{
  world* w;
  std::vector<op> ops;
  std::vector<bytes> got;
  pthread_barrier_t* bar;
  uint8_t fill;
};
static void*
work(void* p)
{
  auto& j = *static_cast<job*>(p);
  pthread_barrier_wait(j.bar);
  stage st;
  for (auto& o : j.ops)
    j.got.push_back(perform(*j.w, o, j.fill, &st));
  return nullptr;
}
static void
concurrent(pbt::Ctx& c, const bool keygen)
{
  world w = make_world(c, 2);
  const world before = w;
  const size_t T = 2 + c.t.below(5);
  std::vector<job> jobs(T);
  pthread_barrier_t bar;
  pthread_barrier_init(&bar, nullptr, static_cast<unsigned>(T));
  const bool alike = c.t.below(3) == 0; // all threads make the same calls
  for (size_t i = 0; i < T; i++) {
    jobs[i].w = &w;
    jobs[i].bar = &bar;
    jobs[i].fill = c.t.byte();
    if (alike && i > 0) {
      jobs[i].ops = jobs[0].ops;
      continue;
    }
    const size_t n = 2 + c.t.below(8);
    for (size_t k = 0; k < n; k++)
      jobs[i].ops.push_back(next_op(c.t, w, keygen, jobs[i].ops));
  }
  // threads first: nothing has been warmed up by a sequential run of this case
  std::vector<pthread_t> th(T);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 64 << 20);
  for (size_t i = 0; i < T; i++)
    if (pthread_create(&th[i], &at, work, &jobs[i]))
      throw std::runtime_error("pthread_create");
  for (size_t i = 0; i < T; i++)
    pthread_join(th[i], nullptr);
  pthread_attr_destroy(&at);
  pthread_barrier_destroy(&bar);
  std::string told;
  size_t calls = 0;
  for (size_t i = 0; i < T; i++)
    for (size_t k = 0; k < jobs[i].ops.size(); k++) {
      const op& o = jobs[i].ops[k];
      c.require(jobs[i].got[k] == alone(w, o), [&] { return cat("call ", k, " of thread ", i, " of ", T, ", ", show(o), ", gives another result than alone"); });
      c.require(o.n == 512 ? plausible<512>(w, o, jobs[i].got[k]) : plausible<1024>(w, o, jobs[i].got[k]), [&] { return cat("call ", k, " of thread ", i, ", ", show(o), ", gives a wrong result"); });
      c.label(cat(op_names[o.kind], "<", o.n, ">"));
      calls++;
    }
  c.require(same_inputs(w, before), "concurrent calls changed their inputs");
  c.extra_evals += calls;
  if (c.verbose)
    c.desc << T << " threads, " << calls << " calls" << (alike ? ", the same in all threads" : "");
  c.nontrivial();
}
PROPL(threads, 120, 4000, 150)
{
  concurrent(c, false);
}
PROPL(threads_with_keygen, 4, 150, 300)
{
  concurrent(c, true);
}
