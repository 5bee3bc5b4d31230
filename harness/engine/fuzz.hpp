#pragma once
// Common part of the libFuzzer targets: statistics for the evidence file and an
// oracle failure that libFuzzer reports as a crash.
#define PBT_NO_MAIN
#include "pbt.hpp"
namespace fz {
struct stats_t
{
  uint64_t evals = 0, nontrivial = 0;
  std::map<std::string, uint64_t> labels{};
  std::unordered_set<uint64_t> hashes{};
  ~stats_t()
  {
    const char* fn = std::getenv("FUZZ_STATS");
    if (!fn)
      return;
    std::ofstream f(fn);
    f << "{\"evals\":" << evals << ",\"nontrivial\":" << nontrivial << ",\"labels\":{";
    bool first = true;
    for (auto& [k, v] : labels) {
      f << (first ? "" : ",") << "\"" << pbt::esc(k) << "\":" << v;
      first = false;
    }
    f << "},\"hashes\":[";
    first = true;
    for (auto h : hashes) {
      f << (first ? "" : ",") << h;
      first = false;
    }
    f << "]}\n";
  }
};
inline stats_t stats{};
inline void
nontrivial(const uint8_t* d, size_t n)
{
  stats.nontrivial++;
  if (stats.hashes.size() < 300000)
    stats.hashes.insert(pbt::fnv(d, n));
}
[[noreturn]] inline void
fail(const std::string& m)
{
  std::fprintf(stderr, "ORACLE: %s\n", m.c_str());
  std::fflush(stderr);
  __builtin_trap();
}
}
