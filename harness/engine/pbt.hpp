#pragma once
// A small property-based testing engine ("tapecheck").
//
// Every random decision of a case is drawn from a Tape.  While generating, the
// tape records the (bounded) value of each decision; a recorded tape replays
// the same case, and shrinking works on the tape itself (drop the tail, delete
// blocks, zero blocks, lower single values), so that any generator shrinks
// without code of its own.  Generated values are arranged so that smaller tape
// values mean simpler cases.
//
// A run is a pure function of (code under test, VERIF_SEED, tier): case i of
// sub-property p uses the generator state derived from (seed, p, i), whatever
// the number of worker processes.
//
// Isolation: cases run in a forked child of the worker, which keeps the current
// case number in shared memory.  If the child dies (sanitizer report, signal,
// watchdog on CPU time) the parent knows the case; every shrinking attempt also
// runs in a child of its own.
#include <algorithm>
#include <array>
#include <atomic>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Failure : std::runtime_error
{
  using std::runtime_error::runtime_error;
};

// thrown by a property to say: this case decides nothing (counted, not judged)
struct Discard : std::exception
{
  std::string why;
  explicit Discard(std::string w)
    : why(std::move(w))
  {
  }
};

struct Rng
{
  uint64_t s[4];
  static uint64_t splitmix(uint64_t& x)
  {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  explicit Rng(uint64_t seed = 0)
  {
    for (auto& v : s)
      v = splitmix(seed);
  }
  static uint64_t rol(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next()
  {
    const uint64_t r = rol(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rol(s[3], 45);
    return r;
  }
};

inline uint64_t
fnv(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
{
  const auto* b = static_cast<const uint8_t*>(p);
  for (size_t i = 0; i < n; i++)
    h = (h ^ b[i]) * 0x100000001b3ull;
  return h;
}

struct Tape
{
  std::vector<uint64_t> rec;
  size_t pos = 0;
  bool replaying = false;
  Rng rng{ 0 };
  // when set: every recorded decision is also written to this shared memory
  // (word 0 = count), where it survives the death of this process
  uint64_t* pub = nullptr;
  static constexpr size_t PUB_WORDS = 1 << 22;

  // a decision in [0, n); n = 0 means the full 64-bit range
  uint64_t below(const uint64_t n)
  {
    uint64_t v;
    if (replaying) {
      v = pos < rec.size() ? rec[pos] : 0;
      pos++;
      if (n)
        v = v < n ? v : v % n;
    } else {
      v = rng.next();
      if (n)
        v = static_cast<uint64_t>((static_cast<unsigned __int128>(v) * n) >> 64);
      rec.push_back(v);
      if (pub && pub[0] < PUB_WORDS - 2)
        pub[++pub[0]] = v;
    }
    return v;
  }
  // exhaustive enumeration: the case number modulo n (recorded like any other
  // decision, so that it replays and shrinks)
  uint64_t index = 0;
  uint64_t enumerate(const uint64_t n)
  {
    if (replaying)
      return below(n);
    const uint64_t v = index % n;
    rec.push_back(v);
    if (pub && pub[0] < PUB_WORDS - 2)
      pub[++pub[0]] = v;
    return v;
  }
  uint64_t u64() { return below(0); }
  uint8_t byte() { return static_cast<uint8_t>(below(256)); }
  bool chance(const uint64_t num, const uint64_t den)
  {
    return below(den) >= den - num; // shrinks to false
  }
  // value in [lo, hi], shrinks towards the value nearest to 0
  int64_t range(const int64_t lo, const int64_t hi)
  {
    const uint64_t span = static_cast<uint64_t>(hi - lo) + 1;
    const uint64_t v = below(span);
    if (lo >= 0)
      return lo + static_cast<int64_t>(v);
    if (hi <= 0)
      return hi - static_cast<int64_t>(v);
    const uint64_t m = static_cast<uint64_t>(std::min<int64_t>(-lo, hi));
    if (v <= 2 * m)
      return (v & 1) ? static_cast<int64_t>((v + 1) / 2)
                     : -static_cast<int64_t>(v / 2);
    const auto rest = static_cast<int64_t>(v - m);
    return hi > -lo ? rest : -rest;
  }
  // real number in [lo, hi)
  double real(const double lo, const double hi)
  {
    return lo + (hi - lo) * (static_cast<double>(below(1ull << 53)) * 0x1p-53);
  }
  // index by weights; shrinks towards index 0
  size_t pick(std::initializer_list<unsigned> w)
  {
    uint64_t tot = 0;
    for (auto x : w)
      tot += x;
    uint64_t v = below(tot);
    size_t i = 0;
    for (auto x : w) {
      if (v < x)
        return i;
      v -= x;
      i++;
    }
    return 0;
  }
  void bytes(uint8_t* p, size_t n)
  {
    for (size_t i = 0; i < n; i += 8) {
      const uint64_t v = u64();
      for (size_t j = i; j < std::min(n, i + 8); j++)
        p[j] = static_cast<uint8_t>(v >> (8 * (j - i)));
    }
  }
};

struct Ctx
{
  Tape& t;
  bool verbose = false; // fill `desc`
  std::ostringstream desc{};
  std::map<std::string, uint64_t> labels{};
  bool is_nontrivial = false;
  uint64_t nt_hash = 0;
  uint64_t extra_evals = 0; // oracle evaluations beyond one per case

  explicit Ctx(Tape& t_)
    : t(t_)
  {
  }
  void label(const std::string& s, uint64_t n = 1) { labels[s] += n; }
  void label_if(bool b, const char* s)
  {
    if (b)
      labels[s]++;
  }
  // declares the case non-trivial; h identifies it (0: the tape does)
  void nontrivial(uint64_t h = 0)
  {
    is_nontrivial = true;
    nt_hash = h;
  }
  [[noreturn]] void fail(const std::string& m) { throw Failure(m); }
  void require(bool ok, const char* m)
  {
    if (!ok) [[unlikely]]
      throw Failure(m);
  }
  template<typename F>
    requires std::is_invocable_v<F>
  void require(bool ok, F&& mk)
  {
    if (!ok) [[unlikely]] {
      std::ostringstream s;
      s.precision(17);
      mk_(s, mk);
      throw Failure(s.str());
    }
  }
  [[noreturn]] void discard(const std::string& m) { throw Discard(m); }

private:
  template<typename F>
  static void mk_(std::ostringstream& s, F& f)
  {
    s << f();
  }
};

template<typename... A>
std::string
cat(const A&... a)
{
  std::ostringstream s;
  s.precision(17);
  (s << ... << a);
  return s.str();
}

struct Prop
{
  std::string name;
  uint64_t quick, thorough; // number of cases
  std::function<void(Ctx&)> fn;
  double cpu_limit = 60; // seconds of CPU time one case may use
};

inline std::vector<Prop>&
props()
{
  static std::vector<Prop> v;
  return v;
}

inline std::function<void()>&
reset_hook()
{
  static std::function<void()> f;
  return f;
}

struct Reg
{
  Reg(const char* n, uint64_t q, uint64_t th, std::function<void(Ctx&)> f,
      double cpu = 60)
  {
    props().push_back({ n, q, th, std::move(f), cpu });
  }
};

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_STR2(a) #a
#define PBT_STR(a) PBT_STR2(a)
// a sub-property: number of cases in the quick and the thorough tier
#define PROP(NAME, QUICK, THOROUGH) PROPL(NAME, QUICK, THOROUGH, 60)
#define PROPL(NAME, QUICK, THOROUGH, CPU)                                      \
  static void NAME(pbt::Ctx& c);                                               \
  static pbt::Reg PBT_CAT(reg_, NAME){ #NAME, QUICK, THOROUGH, NAME, CPU };    \
  static void NAME([[maybe_unused]] pbt::Ctx& c)
#ifdef PBT_N
// the same for programs compiled once per parameter set (PBT_N = 512 or 1024)
#define PROPN(NAME, QUICK512, QUICK1024, TH512, TH1024)                        \
  PROPNL(NAME, QUICK512, QUICK1024, TH512, TH1024, 60)
#define PROPNL(NAME, QUICK512, QUICK1024, TH512, TH1024, CPU)                  \
  static void NAME(pbt::Ctx& c);                                               \
  static pbt::Reg PBT_CAT(reg_, NAME){ #NAME "/" PBT_STR(PBT_N),               \
                                       PBT_N == 512 ? QUICK512 : QUICK1024,    \
                                       PBT_N == 512 ? TH512 : TH1024, NAME,    \
                                       CPU };                                  \
  static void NAME([[maybe_unused]] pbt::Ctx& c)
#endif

// Thrown by the stand-in of an internal function that the tree under test does
// not have (bin/check writes the stand-ins): the case is not a verdict.
struct Absent
{
  std::string what;
};
constexpr int EXIT_ABSENT = 96;
[[noreturn]] inline void
absent(const char* what)
{
  if (getpid() != static_cast<pid_t>(syscall(SYS_gettid)))
    _exit(EXIT_ABSENT);
  throw Absent{ what };
}
struct absent_value
{
  template<class T>
  operator T() const
  {
    absent("?");
  }
};

enum class Res
{
  pass,
  fail,
  discard
};

inline Res
run_case(const Prop& p, Ctx& c, std::string& msg)
{
  if (reset_hook())
    reset_hook()();
  try {
    p.fn(c);
    return Res::pass;
  } catch (const Failure& e) {
    msg = e.what();
    return Res::fail;
  } catch (const Discard& e) {
    msg = e.why;
    return Res::discard;
  } catch (const Absent& e) {
    msg = "not in this tree: " + e.what;
    return Res::discard;
  } catch (const std::exception& e) {
    msg = std::string("unexpected exception: ") + e.what();
    return Res::fail;
  }
}

inline uint64_t
case_seed(uint64_t seed, const std::string& prop, uint64_t idx)
{
  uint64_t h = fnv(prop.data(), prop.size());
  h = fnv(&seed, 8, h);
  h = fnv(&idx, 8, h);
  return h;
}

constexpr int EXIT_HANG = 97;
constexpr int EXIT_FAIL = 98;
struct wait_t
{
  double limit, waited, cpu, idle;
};
inline wait_t wait_state{};
inline void
arm_cpu_timer(double sec)
{
  itimerval it{};
  it.it_value.tv_sec = static_cast<time_t>(sec);
  it.it_value.tv_usec = static_cast<suseconds_t>((sec - std::floor(sec)) * 1e6);
  setitimer(ITIMER_PROF, &it, nullptr);
  // and, for what waits without computing, real time
  wait_state = { sec > 300 ? 2 * sec + 60 : std::min(2 * sec + 60, 330.), 0, 0, 0 };
  if (sec > 0)
    it.it_value.tv_sec = it.it_interval.tv_sec = 5, it.it_value.tv_usec = 0;
  setitimer(ITIMER_REAL, &it, nullptr);
}
// Every 5 s: a case that has not used 0.1 s of processor time during two minutes
// (its threads wait for each other), or takes too long altogether, hangs.
inline void
on_sigalrm(int)
{
  timespec ts{};
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
  const double cpu = static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
  auto& w = wait_state;
  w.waited += 5;
  if (cpu > w.cpu + 0.1)
    w.cpu = cpu, w.idle = 0;
  else
    w.idle += 5;
  if (w.waited >= w.limit || w.idle >= 120)
    _exit(EXIT_HANG);
}

inline void
on_sigprof(int)
{
  _exit(EXIT_HANG);
}

struct Stats
{
  uint64_t evals = 0, nontrivial = 0, discards = 0, extra = 0;
  std::map<std::string, uint64_t> labels{};
  std::vector<uint64_t> hashes{};
  std::vector<std::string> samples{};
};

struct Shared
{
  std::atomic<uint64_t> prop, idx, state; // state: 1 = in a case, 2 = finished
  char msg[4096];
};

inline std::string
esc(const std::string& s)
{
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += static_cast<char>(ch);
    } else if (ch == '\n')
      o += "\\n";
    else if (ch < 0x20)
      o += ' ';
    else
      o += static_cast<char>(ch);
  }
  return o;
}

// outcome of one tape run in a child process
struct Outcome
{
  std::string kind; // "pass", "fail", "discard", "crash", "hang", "killed"
  std::string msg;
  std::string desc;
  bool bad() const { return kind == "fail" || kind == "crash" || kind == "hang"; }
};

inline Outcome
run_in_child(const Prop& p, const std::vector<uint64_t>& tape, bool verbose,
             bool quiet)
{
  auto* shm = static_cast<char*>(mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE,
                                      MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    if (quiet) {
      [[maybe_unused]] auto* f = freopen("/dev/null", "w", stderr);
    }
    signal(SIGPROF, on_sigprof);
    signal(SIGALRM, on_sigalrm);
    arm_cpu_timer(p.cpu_limit);
    Tape t;
    t.rec = tape;
    t.replaying = true;
    Ctx c(t);
    c.verbose = verbose;
    std::string msg;
    const Res r = run_case(p, c, msg);
    std::snprintf(shm, 1 << 14, "%s", msg.c_str());
    std::snprintf(shm + (1 << 14), (1 << 20) - (1 << 14), "%s",
                  c.desc.str().c_str());
    _exit(r == Res::pass ? 0 : r == Res::fail ? EXIT_FAIL : 99);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Outcome o;
  o.msg = shm;
  o.desc = shm + (1 << 14);
  munmap(shm, 1 << 20);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    o.kind = "pass";
  else if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAIL)
    o.kind = "fail";
  else if (WIFEXITED(st) && (WEXITSTATUS(st) == 99 || WEXITSTATUS(st) == EXIT_ABSENT))
    o.kind = "discard";
  else if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_HANG)
    o.kind = "hang", o.msg = cat("no result after ", p.cpu_limit, " s of CPU time");
  else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
    o.kind = "killed";
  else if (WIFSIGNALED(st))
    o.kind = "crash", o.msg = cat("killed by signal ", WTERMSIG(st));
  else
    o.kind = "crash", o.msg = cat("sanitizer report or abnormal exit, status ", WEXITSTATUS(st));
  return o;
}

// Tape shrinking.  Any failing outcome of the same kind counts.
inline std::vector<uint64_t>
shrink(const Prop& p, std::vector<uint64_t> best, const std::string& kind,
       double budget_s)
{
  if (kind == "hang")
    return best;
  const auto t0 = time(nullptr);
  int evals = 0;
  auto ok = [&](const std::vector<uint64_t>& t) {
    if (difftime(time(nullptr), t0) > budget_s || evals > 3000)
      return false;
    evals++;
    return run_in_child(p, t, false, true).kind == kind;
  };
  auto strip = [](std::vector<uint64_t>& v) {
    while (!v.empty() && v.back() == 0)
      v.pop_back();
  };
  strip(best);
  bool progress = true;
  while (progress && difftime(time(nullptr), t0) <= budget_s) {
    progress = false;
    // drop tail
    for (size_t keep = 0; keep < best.size();
         keep += std::max<size_t>(1, (best.size() - keep) / 2)) {
      auto t = best;
      t.resize(keep);
      if (ok(t)) {
        best = t;
        strip(best);
        progress = true;
        break;
      }
    }
    for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1; blk /= 2) {
      // zero blocks
      for (size_t i = 0; i < best.size(); i += blk) {
        auto t = best;
        bool nz = false;
        for (size_t j = i; j < std::min(best.size(), i + blk); j++) {
          nz |= t[j] != 0;
          t[j] = 0;
        }
        if (nz && ok(t)) {
          best = t;
          strip(best);
          progress = true;
        }
      }
      // delete blocks
      for (size_t i = 0; i + blk <= best.size();) {
        auto t = best;
        t.erase(t.begin() + static_cast<long>(i),
                t.begin() + static_cast<long>(i + blk));
        if (ok(t)) {
          best = t;
          strip(best);
          progress = true;
        } else
          i += blk;
      }
      if (blk == 1)
        break;
    }
    // lower single values
    for (size_t i = 0; i < best.size(); i++) {
      uint64_t lo = 0, hi = best[i];
      while (lo < hi) {
        const uint64_t mid = lo + (hi - lo) / 2;
        auto t = best;
        t[i] = mid;
        if (ok(t)) {
          best = t;
          hi = mid;
          progress = true;
        } else
          lo = mid + 1;
        if (difftime(time(nullptr), t0) > budget_s)
          break;
      }
    }
  }
  return best;
}

inline void
write_replay(const std::string& path, const Prop& p, const std::string& kind,
             const std::vector<uint64_t>& tape, const Outcome& o, uint64_t seed,
             uint64_t idx)
{
  std::ofstream f(path);
  f << "format tapecheck-1\n";
  f << "sub " << p.name << "\n";
  f << "kind " << kind << "\n";
  f << "found seed=" << seed << " case=" << idx << "\n";
  f << "tape " << tape.size();
  for (auto v : tape)
    f << ' ' << std::hex << v << std::dec;
  f << "\nmessage " << esc(o.msg) << "\n";
  f << "case " << esc(o.desc) << "\n";
}

inline const Prop*
find_prop(const std::string& n)
{
  for (auto& p : props())
    if (p.name == n)
      return &p;
  return nullptr;
}

inline std::string
arg(int argc, char** argv, const char* k, const char* def)
{
  for (int i = 1; i + 1 < argc; i++)
    if (std::string(argv[i]) == k)
      return argv[i + 1];
  return def;
}

inline int
replay_main(const std::string& file)
{
  std::ifstream f(file);
  std::string line, sub;
  std::vector<uint64_t> tape;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "sub")
      is >> sub;
    else if (k == "tape") {
      size_t n;
      is >> n >> std::hex;
      for (size_t i = 0; i < n; i++) {
        uint64_t v;
        is >> v;
        tape.push_back(v);
      }
    }
  }
  const Prop* p = find_prop(sub);
  if (!p) {
    std::fprintf(stderr, "no such sub-property: %s\n", sub.c_str());
    return 3;
  }
  const auto o = run_in_child(*p, tape, true, false);
  std::printf("replay %s: %s %s\n%s\n", sub.c_str(), o.kind.c_str(),
              o.msg.c_str(), o.desc.c_str());
  return o.bad() ? 1 : o.kind == "killed" ? 4 : 0;
}

inline int
worker_main(int argc, char** argv)
{
  const uint64_t seed = std::stoull(arg(argc, argv, "--seed", "1"));
  const bool thorough = arg(argc, argv, "--tier", "quick") == "thorough";
  const uint64_t w = std::stoull(arg(argc, argv, "--worker", "0"));
  const uint64_t nw = std::stoull(arg(argc, argv, "--workers", "1"));
  const std::string out = arg(argc, argv, "--out", "/dev/null");
  const std::string only = arg(argc, argv, "--only", "");
  const std::string stop = arg(argc, argv, "--stop", "");
  const double scale = std::stod(arg(argc, argv, "--scale", "1"));
  const double cap = std::stod(arg(argc, argv, "--cap", "1e9"));
  const auto t0 = time(nullptr);

  auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
                                       PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  auto* tp = static_cast<uint64_t*>(mmap(nullptr, Tape::PUB_WORDS * 8,
                                         PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    signal(SIGPROF, on_sigprof);
    signal(SIGALRM, on_sigalrm);
    std::vector<Stats> all(props().size());
    bool capped = false, stopped = false;
    std::ofstream tf(out + ".times");
    for (size_t pi = 0; pi < props().size() && !capped && !stopped; pi++) {
      const Prop& p = props()[pi];
      if (!only.empty() && p.name.find(only) == std::string::npos)
        continue;
      Stats& S = all[pi];
      uint64_t n = thorough ? p.thorough : p.quick;
      n = static_cast<uint64_t>(std::ceil(static_cast<double>(n) * scale));
      std::unordered_set<uint64_t> seen;
      const clock_t c0 = clock();
      clock_t longest = 0;
      time_t looked = 0;
      for (uint64_t i = w; i < n; i += nw) {
        if (difftime(time(nullptr), t0) > cap) {
          capped = true;
          break;
        }
        if (const time_t now = time(nullptr); !stop.empty() && now != looked) {
          looked = now;
          if (access(stop.c_str(), F_OK) == 0) {
            stopped = true;
            break;
          }
        }
        sh->prop = pi;
        sh->idx = i;
        sh->state = 1;
        Tape t;
        t.rng = Rng(case_seed(seed, p.name, i));
        t.pub = tp;
        t.index = i;
        tp[0] = 0;
        Ctx c(t);
        c.verbose = i < 2;
        std::string msg;
        arm_cpu_timer(p.cpu_limit * (thorough ? 4 : 1));
        const clock_t c1 = clock();
        const Res r = run_case(p, c, msg);
        longest = std::max(longest, clock() - c1);
        S.evals++;
        S.extra += c.extra_evals;
        if (r == Res::fail) {
          std::snprintf(sh->msg, sizeof(sh->msg), "%s", msg.c_str());
          _exit(EXIT_FAIL);
        }
        if (r == Res::discard) {
          S.discards++;
          S.labels["discarded: " + msg]++;
          continue;
        }
        for (auto& [k, v] : c.labels)
          S.labels[k] += v;
        if (c.is_nontrivial) {
          S.nontrivial++;
          const uint64_t h =
            c.nt_hash ? c.nt_hash : fnv(t.rec.data(), t.rec.size() * 8);
          if (seen.size() < 2000000 && seen.insert(h).second)
            S.hashes.push_back(h);
        }
        if (c.verbose)
          S.samples.push_back(c.desc.str());
      }
      tf << p.name << " " << static_cast<double>(clock() - c0) / CLOCKS_PER_SEC << " longest " << static_cast<double>(longest) / CLOCKS_PER_SEC << "\n";
      tf.flush();
    }
    arm_cpu_timer(0);
    std::ofstream f(out);
    f << "{\"capped\":" << (capped ? "true" : "false") << ",\"props\":{";
    bool first = true;
    for (size_t pi = 0; pi < props().size(); pi++) {
      const Stats& S = all[pi];
      if (!first)
        f << ",";
      first = false;
      f << "\n\"" << esc(props()[pi].name) << "\":{\"evals\":" << S.evals
        << ",\"extra\":" << S.extra << ",\"nontrivial\":" << S.nontrivial
        << ",\"discards\":" << S.discards << ",\"labels\":{";
      bool f2 = true;
      for (auto& [k, v] : S.labels) {
        f << (f2 ? "" : ",") << "\"" << esc(k) << "\":" << v;
        f2 = false;
      }
      f << "},\"samples\":[";
      f2 = true;
      for (auto& s : S.samples) {
        f << (f2 ? "" : ",") << "\"" << esc(s.substr(0, 1500)) << "\"";
        f2 = false;
      }
      f << "]}";
    }
    f << "}}\n";
    f.close();
    std::ofstream hf(out + ".hashes", std::ios::binary);
    for (size_t pi = 0; pi < props().size(); pi++) {
      const uint64_t salt = fnv(props()[pi].name.data(), props()[pi].name.size());
      for (auto h : all[pi].hashes) {
        const uint64_t x = h ^ salt;
        hf.write(reinterpret_cast<const char*>(&x), 8);
      }
    }
    hf.close();
    sh->state = 2;
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->state == 2)
    return 0;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
    std::fprintf(stderr, "worker child was killed (out of memory?)\n");
    return 4;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_ABSENT)
    return 5;
  // a failing case: take its tape, shrink it, write the replay file
  const Prop& p = props()[sh->prop];
  const uint64_t idx = sh->idx;
  std::string kind = "crash", msg;
  if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAIL)
    kind = "fail", msg = sh->msg;
  else if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_HANG)
    kind = "hang";
  std::fprintf(stderr, "sub=%s case=%" PRIu64 " kind=%s %s\n", p.name.c_str(),
               idx, kind.c_str(), msg.c_str());
  if (!stop.empty()) {
    std::ofstream(stop) << "x";
  }
  // the decisions of the failing case are in shared memory
  std::vector<uint64_t> tape(tp + 1, tp + 1 + tp[0]);
  Outcome o;
  std::string note;
  if (kind == "hang") // replayed once, later
    o.kind = kind, o.msg = cat("no result after ", p.cpu_limit, " s of CPU time, or twice that");
  else
    o = run_in_child(p, tape, true, false);
  if (kind == "hang") {
  } else if (!o.bad()) {
    note = cat("[the replay of this case gave '", o.kind, "'; originally: ", msg, "] ");
  } else {
    kind = o.kind;
    const auto whole = tape;
    const Outcome first = o;
    const double sb = std::stod(arg(argc, argv, "--shrink", "30"));
    if (kind != "hang") {
      tape = shrink(p, tape, kind, sb);
      o = run_in_child(p, tape, true, true);
      if (!o.bad()) { // depends on the schedule: keep the case as it was found
        tape = whole;
        o = first;
      }
    }
  }
  o.msg = note + o.msg;
  write_replay(out + ".replay", p, kind, tape, o, seed, idx);
  return 1;
}

inline int
main_(int argc, char** argv)
{
  if (argc >= 3 && std::string(argv[1]) == "replay")
    return replay_main(argv[2]);
  if (argc >= 2 && std::string(argv[1]) == "list") {
    for (auto& p : props())
      std::printf("%s %" PRIu64 " %" PRIu64 "\n", p.name.c_str(), p.quick,
                  p.thorough);
    return 0;
  }
  return worker_main(argc, argv);
}

}

#ifdef PBT_N
constexpr size_t N = PBT_N;
#endif

#ifndef PBT_NO_MAIN
int
main(int argc, char** argv)
{
  return pbt::main_(argc, argv);
}
#endif
