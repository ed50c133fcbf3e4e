// Controlled scheduler used to model check the real multi-threaded code.
//
// The library is compiled with ThreadSanitizer instrumentation but linked
// against vsched.cpp, which implements the instrumentation calls: only one
// thread runs at a time, and at every synchronisation operation (atomics,
// mutexes, condition variables, thread creation and join) the explorer decides
// which one goes on. Every execution runs in a forked child.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace vs {
struct Options {
  int preemptions = 2;     // bound on the switches away from a thread that could go on
  int forcedCost = 0;      // cost of not taking the default thread when the current one blocks
  long maxSchedules = 1000000;
  int failCreate = 0;      // 1-based index of the thread creation to refuse (0: none)
  int failCreates = 1;     // how many in a row are refused
  bool skipLocal = false;  // no preemption right before an operation on a location that no other thread
                           // uses in that execution: it is equivalent to one right after it
  unsigned part = 0, parts = 1; // share of the first deviations explored
  std::function<void()> heartbeat;
};
using Schedule = std::vector<std::pair<std::uint32_t, std::uint8_t>>; // (choice point, choice)
struct Result {
  long schedules = 0, complete = 0, pruned = 0;
  std::uint64_t transitions = 0; // scheduled synchronisation operations
  std::uint64_t maxPoints = 0;
  long diverged = 0;
  int threads = 0;           // biggest number of threads alive at once
  int created = 0;           // thread creations attempted (max)
  bool capped = false, violation = false;
  std::string msg;
  Schedule schedule;
  std::vector<std::uint64_t> outcomes; // distinct outcomes reported
  std::vector<std::uint64_t> states;   // hashes of the distinct states where a choice was made
};
Result explore(const std::function<void()> &scenario, const Options &o);
Result replay(const std::function<void()> &scenario, const Options &o, const Schedule &s);
std::string show(const Schedule &s);

// to be used in scenarios
[[noreturn]] void fail(const std::string &msg); // the property is broken
void outcome(std::uint64_t h);                  // what was observed by this execution
void event(int what);      // scheduling point whose order w.r.t. other events matters
bool threadsRunning();     // some thread was created and not joined yet
struct Quiet {             // accesses of the monitors are not part of the program
  Quiet();
  ~Quiet();
};
} // namespace vs
