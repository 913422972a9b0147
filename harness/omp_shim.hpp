#pragma once
#include <atomic>
#include <cstdint>
namespace vfomp {
struct Config {
  uint64_t seed        = 1;
  int      max_threads = 4;
  int      smaller     = 0;  // 1: teams may be smaller than requested
  int      limit       = 0;  // largest team, 0 for none
  int      delays      = 0;  // largest pause in microseconds
  bool     serial      = false;  // one thread at a time, in random order
  bool     nested      = false;
};
struct Seen {
  std::atomic<long>     regions{0}, parallel{0}, smaller{0}, barriers{0};
  std::atomic<uint64_t> order{0};
};
extern Config cfg;
extern Seen   seen;
}  // namespace vfomp
