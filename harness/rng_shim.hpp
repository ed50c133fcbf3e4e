// Included before every source: the random engines answer what the harness
// decides, so that all the answers can be enumerated.
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <functional>
#include <memory>
#include <numeric>
#include <random>
#include <string>
#include <vector>

std::uint32_t vf_rng(std::uint64_t seed, std::uint64_t call);
namespace std {
struct vf_engine {
  using result_type = std::uint32_t;
  static constexpr result_type default_seed = 1u;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 0xffffffffu; }
  std::uint64_t seed_ = 1, calls_ = 0;
  vf_engine() = default;
  explicit vf_engine(std::uint64_t s) : seed_((std::uint32_t)s) {}
  template <typename S, typename = std::enable_if_t<std::is_class_v<S> && !std::is_same_v<S, vf_engine>>> explicit vf_engine(S &) {}
  void seed(std::uint64_t s = 1) {
    seed_ = (std::uint32_t)s;
    calls_ = 0;
  }
  result_type operator()() { return vf_rng(seed_, calls_++); }
  void discard(unsigned long long n) { calls_ += n; }
  bool operator==(const vf_engine &o) const { return seed_ == o.seed_ && calls_ == o.calls_; }
};
} // namespace std
#define default_random_engine vf_engine
#define minstd_rand vf_engine
#define minstd_rand0 vf_engine
#define mt19937 vf_engine
#define mt19937_64 vf_engine
