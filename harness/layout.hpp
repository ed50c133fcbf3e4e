// The order in which the unordered containers of the library are iterated
// depends on the hashes of the names and on the addresses of what they hold.
// Both are inputs of the environment: a layout fixes which names share a bucket
// and the bucket of every allocated address (13 buckets: the size all the
// containers of up to 13 elements have).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <new>
#include <string>
#include <vector>

namespace vf {
constexpr std::size_t BUCKETS = 13;
// all the ways to share buckets among n names, as restricted growth strings
inline std::vector<std::vector<int>> sharings(int n) {
  std::vector<std::vector<int>> r;
  std::vector<int> s;
  std::function<void(int)> go = [&](int top) {
    if ((int)s.size() == n) {
      r.push_back(s);
      return;
    }
    for (int k = 0; k <= top; ++k) {
      s.push_back(k);
      go(std::max(top, k + 1));
      s.pop_back();
    }
  };
  go(0);
  return r;
}
inline std::string nameInBucket(int i, std::size_t bucket) {
  for (int k = 0;; ++k) {
    std::string n = "v" + std::to_string(i) + (k ? "_" + std::to_string(k) : "");
    if (std::hash<std::string>{}(n) % BUCKETS == bucket % BUCKETS)
      return n;
  }
}
inline std::vector<std::string> namesFor(const std::vector<int> &sharing) {
  std::vector<std::string> r;
  for (std::size_t i = 0; i < sharing.size(); ++i)
    r.push_back(nameInBucket((int)i, (std::size_t)sharing[i] * 5 + 1));
  return r;
}
// bucket of the i-th allocation of the case
enum { ADDRESS_LAYOUTS = 7 };
inline int g_addresses = 0;
inline std::uint64_t g_allocation = 0;
inline std::size_t bucketOf(int layout, std::uint64_t i) {
  switch (layout) {
  case 1:
    return 0; // all of them collide
  case 2:
    return i % BUCKETS;
  case 3:
    return (i / 3) % BUCKETS;
  case 4:
    return (BUCKETS - i % BUCKETS) % BUCKETS;
  case 5:
    return (i * i * 7 + i * 3) % BUCKETS;
  default:
    return (i * 0x9e3779b97f4a7c15ull >> 40) % BUCKETS;
  }
}
inline void setAddresses(int layout) {
  g_addresses = layout;
  g_allocation = 0;
}
} // namespace vf

#ifdef VF_ADDRESSES
// every block is preceded by a header with the displacement
static void *vfNew(std::size_t n) {
  std::size_t pad = 16;
  char *p = (char *)std::malloc(n + 16 + (vf::g_addresses ? 16 * vf::BUCKETS : 0));
  if (!p)
    throw std::bad_alloc();
  if (vf::g_addresses) {
    std::size_t want = vf::bucketOf(vf::g_addresses, vf::g_allocation++);
    while ((std::uintptr_t)(p + pad) % vf::BUCKETS != want)
      pad += 16;
  }
  *(std::size_t *)(p + pad - 16) = pad;
  return p + pad;
}
static void vfDelete(void *p) {
  if (p)
    std::free((char *)p - *(std::size_t *)((char *)p - 16));
}
void *operator new(std::size_t n) { return vfNew(n); }
void *operator new[](std::size_t n) { return vfNew(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return vfNew(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return vfNew(n); }
void operator delete(void *p, const std::nothrow_t &) noexcept { vfDelete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { vfDelete(p); }
void operator delete(void *p) noexcept { vfDelete(p); }
void operator delete[](void *p) noexcept { vfDelete(p); }
void operator delete(void *p, std::size_t) noexcept { vfDelete(p); }
void operator delete[](void *p, std::size_t) noexcept { vfDelete(p); }
#endif
