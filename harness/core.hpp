// Exploration core shared by all sequential harnesses: sharding, counting,
// crash/hang attribution (a memory mapped status record names the case under
// execution), violation reporting and replay of a single case.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf {
struct Violation : std::runtime_error {
  using std::runtime_error::runtime_error;
};
template <typename... A> std::string str(A &&...a) {
  std::ostringstream o;
  (o << ... << a);
  return o.str();
}
template <typename... A> [[noreturn]] void fail(A &&...a) {
  throw Violation(str(std::forward<A>(a)...));
}
#define VF_REQUIRE(cond, ...)                                                  \
  do {                                                                         \
    if (!(cond))                                                               \
      ::vf::fail(__VA_ARGS__);                                                 \
  } while (0)

struct Status {
  volatile std::uint64_t seq;   // cases started
  volatile std::uint64_t index; // index of the case being executed
  char what[1 << 14];
};

inline std::string jsonEscape(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += (char)c;
  }
  return o;
}

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  return h * 1099511628211ull;
}
inline std::uint64_t mix(std::uint64_t h, const std::string &s) {
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ull;
  return mix(h, (std::uint64_t)s.size());
}

struct Ctx {
  std::string prop = "P00", tier = "quick", out, statusFile, scratch = ".";
  std::string world; // optional restriction used by some harnesses
  std::uint64_t shard = 0, nshards = 1;
  bool hasOnly = false;
  std::uint64_t only = 0;

  bool thorough() const { return tier == "thorough"; }
  template <typename T> T pick(T quick, T deep) const {
    return thorough() ? deep : quick;
  }

  // measured coverage
  std::uint64_t cases = 0, transitions = 0, traces = 0, comparisons = 0,
                skipped = 0;
  std::unordered_set<std::uint64_t> states; // distinct states visited
  std::map<std::string, std::uint64_t> extra;
  std::unordered_set<std::uint64_t> outcomes; // distinct observed outcomes
  std::vector<std::string> samples;
  struct V {
    std::uint64_t index;
    std::string what, msg;
  };
  std::vector<V> violations;
  std::uint64_t next = 0;
  Status *status = nullptr;
  bool stop = false;

  void outcome(std::uint64_t h) {
    if (outcomes.size() < 500000)
      outcomes.insert(h);
  }
  void state(std::uint64_t h) {
    if (states.size() < 20000000)
      states.insert(h);
  }

  // describe is evaluated only for executed cases
  template <typename D, typename F> void run(D &&describe, F &&body) {
    std::uint64_t idx = next++;
    if (stop)
      return;
    if (hasOnly) {
      if (idx != only)
        return;
    } else if ((idx * 0x9e3779b97f4a7c15ull >> 40) % nshards != shard)
      return;
    std::string d = describe();
    status->index = idx;
    strncpy(status->what, d.c_str(), sizeof(status->what) - 1);
    status->what[sizeof(status->what) - 1] = 0;
    status->seq = status->seq + 1;
    ++cases;
    if (samples.size() < 3 && (cases == 1 || cases == 57 || cases == 523))
      samples.push_back(d);
    try {
      body();
    } catch (const Violation &v) {
      violations.push_back({idx, d, v.what()});
    } catch (const std::exception &e) {
      violations.push_back({idx, d, str("unexpected exception: ", e.what())});
    } catch (...) {
      violations.push_back({idx, d, "unexpected exception of unknown type"});
    }
    if (violations.size() >= 3)
      stop = true;
  }

  static void dump(const std::string &file,
                   const std::unordered_set<std::uint64_t> &s) {
    std::ofstream o(file, std::ios::binary);
    for (std::uint64_t h : s)
      o.write(reinterpret_cast<const char *>(&h), sizeof h);
  }

  void write() const {
    std::ofstream o(out);
    dump(out + ".states", states);
    dump(out + ".outcomes", outcomes);
    o << "{\"cases\":" << cases
      << ",\"transitions\":" << transitions << ",\"traces\":" << traces
      << ",\"comparisons\":" << comparisons << ",\"skipped\":" << skipped
      << ",\"enumerated\":" << next << ",\"extra\":{";
    bool first = true;
    for (auto &[k, v] : extra) {
      o << (first ? "" : ",") << '"' << k << "\":" << v;
      first = false;
    }
    o << "},\"samples\":[";
    first = true;
    for (auto &s : samples) {
      o << (first ? "" : ",") << '"' << jsonEscape(s) << '"';
      first = false;
    }
    o << "],\"violations\":[";
    first = true;
    for (auto &v : violations) {
      o << (first ? "" : ",") << "{\"index\":" << v.index << ",\"case\":\""
        << jsonEscape(v.what) << "\",\"msg\":\"" << jsonEscape(v.msg) << "\"}";
      first = false;
    }
    o << "]}\n";
  }
};

inline int harness_main(int argc, char **argv,
                        const std::function<void(Ctx &)> &body) {
  // same addresses in every run, so that hash orders based on pointers and with
  // them counterexamples are repeatable; best effort
  if (!getenv("VF_NOASLR") &&
      personality(ADDR_NO_RANDOMIZE) != -1) {
    setenv("VF_NOASLR", "1", 1);
    execv("/proc/self/exe", argv);
  }
  Ctx c;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop")
      c.prop = v;
    else if (k == "--tier")
      c.tier = v;
    else if (k == "--out")
      c.out = v;
    else if (k == "--status")
      c.statusFile = v;
    else if (k == "--scratch")
      c.scratch = v;
    else if (k == "--world")
      c.world = v;
    else if (k == "--shard")
      c.shard = std::stoull(v);
    else if (k == "--nshards")
      c.nshards = std::stoull(v);
    else if (k == "--only") {
      c.hasOnly = true;
      c.only = std::stoull(v);
    }
  }
  int fd = open(c.statusFile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ftruncate(fd, sizeof(Status)) != 0) {
    perror("status");
    return 3;
  }
  c.status = (Status *)mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE,
                            MAP_SHARED, fd, 0);
  body(c);
  c.write();
  return c.violations.empty() ? 0 : 1;
}

} // namespace vf
