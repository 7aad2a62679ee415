// Runtime of the simulator: scheduler, simulated OpenMP, allocator seam,
// race detection. Everything nondeterministic that the solver can meet inside
// one process goes through here.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace sim {

struct Rng { // splitmix64
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double uni() { return (next() >> 11) * (1. / 9007199254740992.); }
  double in(double a, double b) { return a + (b - a) * uni(); }
};

struct Config {
  std::vector<int> teams{1};   // team size of successive parallel regions
  int schedMode = 0;           // 0: run to block, 1: random, 2: replay the list
  uint64_t schedSeed = 1;
  double gap = 50;             // mean number of opportunities between switches
  int maxSwitches = 2000;
  std::vector<std::pair<uint64_t, int>> list; // replay: at opportunity n run task t
  int poison = 0;              // fill of fresh memory
  uint64_t poisonSeed = 1;
  long failAlloc = -1;         // index of the allocation that fails
  bool failAll = false;        // ... and all after it
  bool race = false;           // detect races
};

// what happened in one execution; lives in shared memory
struct Stats {
  uint64_t opportunities, switches, forced, regions, maxTeam, tasks, allocs,
      failedAllocs, races, blocked, poisoned, heapErrors, trackedAccesses;
  char raceText[400];
  char heapText[200];
  uint32_t nList;
  struct { uint64_t n; int32_t t; } list[20000];
};

void begin(const Config &c, Stats *st); // start simulating (in a forked child)
void end();                             // stop simulating
void run_lanes(const std::vector<std::function<void()>> &bodies);
int current_lane();
void lane_switch_point(); // a caller thread may be descheduled here
bool deadlocked();
void dirty_stack();
void set_fail(long at, bool all);
bool check_heap(); // verifies all live redzones

struct Internal { // harness code: no faults, no switches, no tracking
  Internal();
  ~Internal();
};
struct External { // back into simulated code from harness code
  External();
  ~External();
  int saved;
};

} // namespace sim
