#include "vsched.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

namespace {
constexpr int MAXT = 16;
constexpr std::uint32_t MAXPOINTS = 1 << 17;
using u64 = std::uint64_t;
using u32 = std::uint32_t;
using u8 = std::uint8_t;

long rawsys(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
u64 mixh(u64 a, u64 b) {
  a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
  a *= 0xff51afd7ed558ccdull;
  a ^= a >> 32;
  return a;
}

// ------------------------------------------------------------ shared with the parent
struct Point {
  u8 n, chosen, preemptive;
  bool local;       // operation on a location no other thread uses in this execution
  const void *addr; // location of the operation about to be done, when there is one only
  u64 key;          // state it was met in
};
struct Seen {
  u64 key;
  u8 budget; // remaining + 1
};
constexpr u64 SEEN = 1ull << 22;
struct Shared {
  u32 npoints;
  u32 nprefix;
  int verdict; // 0 running, 1 done, 2 violation, 3 pruned, 4 diverged
  u64 steps;
  int maxThreads, created;
  u64 outcome;
  bool hasOutcome;
  char msg[4096];
  Point points[MAXPOINTS];
  u32 nkeys;
  u64 keys[MAXPOINTS]; // states met for the first time by this execution
  std::pair<u32, u8> prefix[4096];
};
Shared *sh = nullptr;
Seen *seen = nullptr;
u64 salt = 1;

// ------------------------------------------------------------ state of an execution
enum Block { NONE, MUTEX, RWR, RWW, JOIN, COND, SPIN, GUARD, FUTEX };
struct Read {
  const void *pc;
  const void *addr;
  u64 version;
};
struct Th {
  u32 vc[MAXT] = {};
  bool exists = false, exited = false, joined = false, detached = false;
  Block block = NONE;
  const void *obj = nullptr;
  int target = -1;
  bool signaled = false, timed = false, timedOut = false;
  u32 futex = 0;
  u64 idx = 0;
  std::vector<Read> reads;
  int credits = 0;
  int run = 0; // consecutive steps
  pthread_t real;
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr, *ret = nullptr;
};
struct Loc {
  u32 vc[MAXT] = {};
  u64 version = 0, lastWrite = 0, reads = 0;
  u32 tids = 0; // threads that used it
  // mutex / rwlock
  int owner = -1, count = 0, readers = 0;
};
Th *th = nullptr;
int nth = 0, cur = 0, unjoined = 0;
std::unordered_map<const void *, Loc> *locs = nullptr;
u64 stateHash = 0;
int used = 0;      // preemptions used
bool active = false;
u32 prefixAt = 0;
vs::Options opt;
int lastChance = 0;
u64 lastChoice = 0;
u64 progressAt = 0, progress = 0;
thread_local int me = -1;
thread_local int quiet = 0;

struct RT { // runtime code is not observed
  RT() { ++quiet; }
  ~RT() { --quiet; }
};
bool on() { return active && me >= 0 && quiet == 0; }

// ------------------------------------------------------------ real functions
template <typename F> F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
int (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = nullptr;
int (*r_join)(pthread_t, void **) = nullptr;

void markLocal();
[[noreturn]] void finish(int verdict) {
  if (verdict == 1 && opt.skipLocal)
    markLocal();
  sh->verdict = verdict;
  rawsys(SYS_exit_group, 0, 0, 0, 0, 0, 0);
  for (;;)
    ;
}
std::string symbol(const void *pc) {
  Dl_info i;
  char b[64];
  if (pc && dladdr(pc, &i) && i.dli_sname) {
    int st = 0;
    char *d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    std::string r = d ? d : i.dli_sname;
    if (r.size() > 160)
      r = r.substr(0, 157) + "...";
    snprintf(b, sizeof b, "+0x%lx", (unsigned long)((const char *)pc - (const char *)i.dli_saddr));
    return r + b;
  }
  snprintf(b, sizeof b, "%p", pc);
  return b;
}
[[noreturn]] void violation(const std::string &m) {
  ++quiet;
  strncpy(sh->msg, m.c_str(), sizeof(sh->msg) - 1);
  finish(2);
}

// ------------------------------------------------------------ baton
void wakeThread(int t) {
  __atomic_store_n(&th[t].futex, 1u, __ATOMIC_SEQ_CST);
  rawsys(SYS_futex, (long)&th[t].futex, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
void waitBaton(int t) {
  while (__atomic_load_n(&th[t].futex, __ATOMIC_SEQ_CST) == 0)
    rawsys(SYS_futex, (long)&th[t].futex, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&th[t].futex, 0u, __ATOMIC_SEQ_CST);
}

Loc &loc(const void *a) { return (*locs)[a]; }
void markLocal() {
  for (u32 i = 0; i < sh->npoints; ++i)
    if (sh->points[i].addr) {
      auto it = locs->find(sh->points[i].addr);
      u32 t = it == locs->end() ? 0 : it->second.tids;
      sh->points[i].local = t != 0 && (t & (t - 1)) == 0;
    }
}
const void *nextOp = nullptr; // location the running thread is about to use
u64 versionOf(const void *a) {
  auto it = locs->find(a);
  return it == locs->end() ? 0 : it->second.version;
}
bool enabled(int t) {
  Th &x = th[t];
  if (!x.exists || x.exited)
    return false;
  switch (x.block) {
  case NONE:
    return true;
  case MUTEX:
  case RWW: {
    Loc &l = loc(x.obj);
    return l.owner == -1 && l.readers == 0;
  }
  case RWR:
    return loc(x.obj).owner == -1;
  case JOIN:
    return th[x.target].exited;
  case COND:
  case FUTEX:
    return x.signaled;
  case GUARD:
    return x.signaled;
  case SPIN:
    for (auto &r : x.reads)
      if (versionOf(r.addr) != r.version)
        return true;
    return false;
  }
  return true;
}
std::string describe() {
  std::string r;
  static const char *n[] = {"runnable", "waits for a mutex", "waits for a lock", "waits for a lock", "waits in join", "waits on a condition", "spins", "waits for a static", "waits on a futex"};
  for (int t = 0; t < nth; ++t)
    if (th[t].exists && !th[t].exited) {
      r += " thread " + std::to_string(t) + " " + n[th[t].block];
      if (th[t].block == SPIN && !th[t].reads.empty())
        r += " at " + symbol(th[t].reads.back().pc);
    }
  return r;
}
// which thread goes on; selfOk: the current one could
int choose(bool voluntary) {
  int en[MAXT], n = 0;
  bool selfOk = enabled(me) && !voluntary;
  if (selfOk)
    en[n++] = me;
  for (int k = 1; k < nth; ++k) {
    int t = (me + k) % nth;
    if (enabled(t))
      en[n++] = t;
  }
  if (voluntary && enabled(me))
    en[n++] = me;
  if (n == 0) {
    // time passes: waits with a time limit expire
    for (int t = 0; t < nth; ++t)
      if (th[t].exists && !th[t].exited && th[t].timed && !th[t].signaled && (th[t].block == COND || th[t].block == FUTEX)) {
        th[t].timedOut = true;
        th[t].signaled = true;
        return t;
      }
    // spinning threads might be counting: let them spin for a while
    if (progress != progressAt) {
      progressAt = progress;
      lastChance = 0;
    }
    if (lastChance < 60) {
      int best = -1;
      for (int k = 1; k <= nth; ++k) {
        int t = (me + k) % nth;
        if (th[t].exists && !th[t].exited && th[t].block == SPIN) {
          best = t;
          break;
        }
      }
      if (best >= 0) {
        ++lastChance;
        th[best].credits = 2000;
        return best;
      }
    }
    violation("deadlock:" + describe());
  }
  if (n == 1)
    return en[0];
  // nothing happened since the last choice of this thread: not another one
  u64 here = mixh(mixh(stateHash, (u64)me + 1), selfOk);
  if (here == lastChoice)
    return en[0];
  lastChoice = here;
  // a real choice
  u32 p = sh->npoints;
  if (p >= MAXPOINTS)
    return en[0]; // a very long execution: no other choices from here on
  int pick = 0;
  if (prefixAt < sh->nprefix && sh->prefix[prefixAt].first == p) {
    pick = sh->prefix[prefixAt].second;
    if (pick >= n)
      finish(4);
    ++prefixAt;
  }
  bool pre = selfOk;
  if (pick != 0)
    used += pre ? 1 : opt.forcedCost;
  if (prefixAt >= sh->nprefix && (sh->nprefix == 0 || p > sh->prefix[sh->nprefix - 1].first)) {
    // new territory: was an equivalent state met before?
    u64 key = mixh(here, salt);
    if (!key)
      key = 1;
    u8 budget = (u8)(opt.preemptions - used + 1);
    for (u64 i = key & (SEEN - 1), tries = 0; tries < 64; i = (i + 1) & (SEEN - 1), ++tries) {
      if (seen[i].key == key) {
        if (seen[i].budget >= budget)
          finish(3);
        seen[i].budget = budget;
        break;
      }
      if (seen[i].key == 0) {
        seen[i].key = key;
        seen[i].budget = budget;
        sh->keys[sh->nkeys++] = here;
        break;
      }
    }
  }
  sh->points[p] = {(u8)n, (u8)pick, (u8)pre, false, pre ? nextOp : nullptr, here};
  sh->npoints = p + 1;
  return en[pick];
}
void switchTo(int t) {
  if (t == me)
    return;
  th[me].run = 0;
  cur = t;
  int self = me;
  wakeThread(t);
  waitBaton(self);
}
void schedule(bool voluntary = false) {
  ++sh->steps;
  if (sh->steps > 20000000)
    violation("execution too long: the threads do not terminate:" + describe());
  if (++th[me].run > 20000) {
    th[me].run = 0;
    voluntary = true;
  }
  int t = choose(voluntary);
  nextOp = nullptr;
  switchTo(t);
}
// blocks until enabled
void blockOn(Block b, const void *obj, int target = -1) {
  Th &x = th[me];
  x.block = b;
  x.obj = obj;
  x.target = target;
  while (!enabled(me)) {
    ++sh->steps;
    int t = choose(false);
    if (t == me)
      break;
    switchTo(t);
    if (x.credits > 0 || x.timedOut)
      break;
  }
  x.block = NONE;
}

// ------------------------------------------------------------ happens before
void tick() { ++th[me].vc[me]; }
void acquire(const Loc &l) {
  for (int t = 0; t < MAXT; ++t)
    th[me].vc[t] = std::max(th[me].vc[t], l.vc[t]);
}
void releaseStore(Loc &l) {
  memcpy(l.vc, th[me].vc, sizeof l.vc);
  tick();
}
void releaseJoin(Loc &l) {
  for (int t = 0; t < MAXT; ++t)
    l.vc[t] = std::max(l.vc[t], th[me].vc[t]);
  tick();
}
void hashRead(Loc &l, int kind) {
  u64 h = mixh(mixh(mixh(me + 1, ++th[me].idx), kind), l.lastWrite);
  l.reads += h;
  stateHash += h;
}
void hashWrite(Loc &l, int kind) {
  u64 h = mixh(mixh(mixh(mixh(me + 1, ++th[me].idx), kind), l.lastWrite), l.reads);
  l.lastWrite = h;
  l.reads = 0;
  stateHash += h;
}
void effect() {
  th[me].reads.clear();
  th[me].credits = 0;
  ++progress;
}

// ------------------------------------------------------------ data races
struct Rec {
  u32 clk;
  u8 tid, mask, write;
  const void *pc;
};
struct Gran {
  u64 key;
  u32 gen;
  u32 n;
  Rec r[6];
};
constexpr u64 GRANS = 1ull << 18;
Gran *grans = nullptr;
u32 gen = 1;
struct Freed {
  std::uintptr_t b, e;
  const void *pc;
  int tid;
};
std::vector<Freed> *freed = nullptr; // sorted by begin

Gran *gran(u64 g) {
  u64 i = (g ^ ((g >> 15) * 0x9e3779b97f4a7c15ull >> 40 << 6)) & (GRANS - 1);
  for (int k = 0; k < 4096; ++k, i = (i + 1) & (GRANS - 1)) {
    if (grans[i].gen != gen) {
      grans[i].gen = gen;
      grans[i].key = g;
      grans[i].n = 0;
      return &grans[i];
    }
    if (grans[i].key == g)
      return &grans[i];
  }
  return nullptr;
}
[[noreturn]] void race(const Rec &o, const void *pc, bool write, const void *a) {
  violation(std::string("data race: ") + (write ? "write" : "read") + " by thread " + std::to_string(me) + " at " +
            symbol(pc) + " and " + (o.write == 2 ? "release" : o.write ? "write" : "read") + " by thread " + std::to_string((int)o.tid) +
            " at " + symbol(o.pc) + " are not ordered");
}
void access1(u64 g, u8 mask, u8 write, const void *pc, const void *a) {
  Gran *x = gran(g);
  if (!x)
    return;
  Th &t = th[me];
  u32 out = 0;
  for (u32 k = 0; k < x->n; ++k) {
    Rec &o = x->r[k];
    if (o.tid != me && (o.mask & mask) && (o.write || write) && o.clk > t.vc[o.tid])
      race(o, pc, write, a);
    // records covered by this access
    bool drop = (o.mask & ~mask) == 0 && ((o.tid == me && write >= o.write) || (write && o.clk <= t.vc[o.tid]));
    if (!drop)
      x->r[out++] = o;
  }
  x->n = out;
  if (x->n == 6) {
    // forget an ordered record
    u32 v = 0;
    for (u32 k = 0; k < 6; ++k)
      if (x->r[k].clk <= t.vc[x->r[k].tid]) {
        v = k;
        break;
      }
    x->r[v] = x->r[5];
    x->n = 5;
  }
  x->r[x->n++] = {t.vc[me], (u8)me, mask, write, pc};
}
void checkFreed(std::uintptr_t a, std::size_t n, const void *pc, bool write) {
  if (!freed || freed->empty())
    return;
  auto it = std::upper_bound(freed->begin(), freed->end(), a + n - 1, [](std::uintptr_t v, const Freed &f) { return v < f.b; });
  if (it == freed->begin())
    return;
  --it;
  if (a < it->e)
    violation(std::string("use of released memory: ") + (write ? "write" : "read") + " by thread " + std::to_string(me) + " at " +
              symbol(pc) + ", released by thread " + std::to_string(it->tid) + " at " + symbol(it->pc));
}
void accessRange(const void *p, std::size_t n, u8 write, const void *pc) {
  if (!on() || unjoined == 0 || n == 0)
    return;
  ++quiet;
  std::uintptr_t a = (std::uintptr_t)p, e = a + n;
  checkFreed(a, n, pc, write);
  while (a < e) {
    u64 g = a >> 3;
    unsigned lo = a & 7, hi = (unsigned)std::min<std::uintptr_t>(8, lo + (e - a));
    u8 mask = (u8)((0xffu << lo) & (0xffu >> (8 - hi)));
    access1(g, mask, write, pc, (void *)a);
    a += hi - lo;
  }
  --quiet;
}
void singleThreaded() { // everything so far is ordered before what follows
  ++gen;
  for (auto &f : *freed)
    free((void *)f.b);
  freed->clear();
}

// ------------------------------------------------------------ atomics
bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
u32 fenceRel[MAXT][MAXT];
bool hasFenceRel[MAXT];
u32 relaxedAcq[MAXT][MAXT]; // clocks of relaxed loads, acquired by a later fence

void spinCheck(const void *pc, const void *a) {
  Th &x = th[me];
  for (;;) {
    bool again = false, same = true;
    for (auto &r : x.reads) {
      if (r.pc == pc && r.addr == a)
        again = true;
      if (versionOf(r.addr) != r.version)
        same = false;
    }
    if (!same) {
      x.reads.clear();
      break;
    }
    if (!again)
      break;
    if (x.credits > 0) {
      --x.credits;
      x.reads.clear();
      break;
    }
    blockOn(SPIN, a);
    if (x.credits == 0)
      x.reads.clear();
  }
}
void beforeLoad(const void *a, const void *pc) {
  nextOp = a;
  schedule();
  spinCheck(pc, a);
  checkFreed((std::uintptr_t)a, 1, pc, false);
}
void didLoad(const void *a, int mo, const void *pc) {
  Loc &l = loc(a);
  l.tids |= 1u << me;
  hashRead(l, 1);
  if (acq(mo))
    acquire(l);
  else
    for (int t = 0; t < MAXT; ++t)
      relaxedAcq[me][t] = std::max(relaxedAcq[me][t], l.vc[t]);
  th[me].reads.push_back({pc, a, l.version});
}
void didStore(const void *a, int mo, bool changed, bool rmw, int kind) {
  Loc &l = loc(a);
  l.tids |= 1u << me;
  if (rmw && acq(mo))
    acquire(l);
  hashWrite(l, kind);
  if (rel(mo)) {
    if (rmw)
      releaseJoin(l);
    else
      releaseStore(l);
  } else if (hasFenceRel[me]) {
    if (!rmw)
      memset(l.vc, 0, sizeof l.vc);
    for (int t = 0; t < MAXT; ++t)
      l.vc[t] = std::max(l.vc[t], fenceRel[me][t]);
  } else if (!rmw)
    memset(l.vc, 0, sizeof l.vc);
  if (changed) {
    ++l.version;
    effect();
  }
}
bool multi() { return on() && unjoined > 0; }
} // namespace

// ============================================================ instrumentation interface
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define ACC(n)                                                                                                         \
  void __tsan_read##n(void *a) { accessRange(a, n, 0, PC); }                                                           \
  void __tsan_write##n(void *a) { accessRange(a, n, 1, PC); }                                                          \
  void __tsan_unaligned_read##n(void *a) { accessRange(a, n, 0, PC); }                                                 \
  void __tsan_unaligned_write##n(void *a) { accessRange(a, n, 1, PC); }                                                \
  void __tsan_volatile_read##n(void *a) { accessRange(a, n, 0, PC); }                                                  \
  void __tsan_volatile_write##n(void *a) { accessRange(a, n, 1, PC); }
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)
void __tsan_read_range(void *a, unsigned long n) { accessRange(a, n, 0, PC); }
void __tsan_write_range(void *a, unsigned long n) { accessRange(a, n, 1, PC); }
void __tsan_vptr_update(void **p, void *v) {
  if (*p != v)
    accessRange(p, 8, 1, PC);
}
void __tsan_vptr_read(void **p) { accessRange(p, 8, 0, PC); }

void *__real_memcpy(void *, const void *, std::size_t);
void *__real_memmove(void *, const void *, std::size_t);
void *__real_memset(void *, int, std::size_t);
void *__wrap_memcpy(void *d, const void *s, std::size_t n) {
  accessRange(s, n, 0, PC);
  accessRange(d, n, 1, PC);
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, std::size_t n) {
  accessRange(s, n, 0, PC);
  accessRange(d, n, 1, PC);
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, std::size_t n) {
  accessRange(d, n, 1, PC);
  return __real_memset(d, c, n);
}

#define ATOMIC(bits, T)                                                                                                \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) {                                                          \
    if (!multi())                                                                                                      \
      return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                     \
    RT r;                                                                                                              \
    beforeLoad((void *)a, PC);                                                                                         \
    T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                        \
    didLoad((void *)a, mo, PC);                                                                                        \
    return v;                                                                                                          \
  }                                                                                                                    \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) {                                                       \
    if (!multi()) {                                                                                                    \
      __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                        \
      return;                                                                                                          \
    }                                                                                                                  \
    RT r;                                                                                                              \
    nextOp = (void *)a;                                                                                                \
    schedule();                                                                                                        \
    checkFreed((std::uintptr_t)a, 1, PC, true);                                                                        \
    T old = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                               \
    didStore((void *)a, mo, old != v, false, 2);                                                                       \
  }                                                                                                                    \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) {                                                       \
    if (!multi())                                                                                                      \
      return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                              \
    RT r;                                                                                                              \
    beforeLoad((void *)a, PC);                                                                                         \
    T old = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                               \
    if (old == v)                                                                                                      \
      didLoad((void *)a, mo, PC);                                                                                      \
    didStore((void *)a, mo, old != v, true, 3);                                                                        \
    return old;                                                                                                        \
  }
#define RMW(bits, T, name, expr)                                                                                       \
  T __tsan_atomic##bits##_fetch_##name(volatile T *a, T v, int mo) {                                                   \
    bool m = multi();                                                                                                  \
    RT r;                                                                                                              \
    if (m) {                                                                                                           \
      nextOp = (void *)a;                                                                                              \
      schedule();                                                                                                      \
      checkFreed((std::uintptr_t)a, 1, PC, true);                                                                      \
    }                                                                                                                  \
    T old = *a;                                                                                                        \
    T res = (T)(expr);                                                                                                 \
    *a = res;                                                                                                          \
    if (m)                                                                                                             \
      didStore((void *)a, mo, old != res, true, 4);                                                                    \
    return old;                                                                                                        \
  }
#define CAS(bits, T, name)                                                                                             \
  bool __tsan_atomic##bits##_compare_exchange_##name(volatile T *a, T *c, T v, int mo, int fmo) {                      \
    if (!multi())                                                                                                      \
      return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                          \
    RT r;                                                                                                              \
    beforeLoad((void *)a, PC);                                                                                         \
    T exp = *c;                                                                                                        \
    bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                         \
    if (ok)                                                                                                            \
      didStore((void *)a, mo, exp != v, true, 5);                                                                      \
    else                                                                                                               \
      didLoad((void *)a, fmo, PC);                                                                                     \
    return ok;                                                                                                         \
  }
#define ALL(bits, T)                                                                                                   \
  ATOMIC(bits, T)                                                                                                      \
  RMW(bits, T, add, old + v)                                                                                           \
  RMW(bits, T, sub, old - v)                                                                                           \
  RMW(bits, T, and, old &v)                                                                                            \
  RMW(bits, T, or, old | v)                                                                                            \
  RMW(bits, T, xor, old ^ v)                                                                                           \
  RMW(bits, T, nand, ~(old & v))                                                                                       \
  CAS(bits, T, strong)                                                                                                 \
  CAS(bits, T, weak)                                                                                                   \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) {                             \
    T e = c;                                                                                                           \
    __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo);                                                  \
    return e;                                                                                                          \
  }
ALL(8, unsigned char)
ALL(16, unsigned short)
ALL(32, unsigned int)
ALL(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) {
  if (!multi())
    return;
  RT r;
  if (acq(mo))
    for (int t = 0; t < MAXT; ++t)
      th[me].vc[t] = std::max(th[me].vc[t], relaxedAcq[me][t]);
  if (rel(mo)) {
    memcpy(fenceRel[me], th[me].vc, sizeof fenceRel[me]);
    hasFenceRel[me] = true;
    tick();
  }
}
void __tsan_atomic_signal_fence(int) {}

// ============================================================ threads
namespace {
void *trampoline(void *p) {
  int id = (int)(long)p;
  waitBaton(id);
  me = id;
  void *ret = th[id].fn(th[id].arg);
  ++quiet;
  th[id].ret = ret;
  th[id].exited = true;
  ++progress;
  // last events are released to who joins
  int t = choose(false);
  int self = me;
  me = -1;
  cur = t;
  (void)self;
  wakeThread(t);
  return ret;
}
} // namespace
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (!r_create)
    r_create = real<decltype(r_create)>("pthread_create");
  if (!on())
    return r_create(out, attr, fn, arg);
  RT r;
  ++sh->created;
  if (opt.failCreate && sh->created >= opt.failCreate && sh->created < opt.failCreate + opt.failCreates)
    return EAGAIN;
  int id = -1;
  for (int t = 1; t < nth; ++t)
    if (th[t].exists && th[t].joined) {
      id = t;
      break;
    }
  if (id < 0) {
    if (nth == MAXT)
      violation("more than 16 threads at once");
    id = nth++;
  }
  u32 oldclk = th[id].vc[id];
  u64 oldidx = th[id].idx;
  th[id] = Th();
  memcpy(th[id].vc, th[me].vc, sizeof th[id].vc);
  th[id].vc[id] = std::max(oldclk, th[id].vc[id]) + 1;
  th[id].idx = oldidx + 1000;
  memset(relaxedAcq[id], 0, sizeof relaxedAcq[id]);
  hasFenceRel[id] = false;
  tick();
  th[id].exists = true;
  th[id].fn = fn;
  th[id].arg = arg;
  int rc = r_create(&th[id].real, attr, trampoline, (void *)(long)id);
  if (rc != 0)
    violation("the real thread creation failed");
  *out = th[id].real;
  ++unjoined;
  sh->maxThreads = std::max(sh->maxThreads, unjoined + 1);
  stateHash += mixh(mixh(me + 1, ++th[me].idx), 77);
  effect();
  schedule();
  return 0;
}
int pthread_join(pthread_t t, void **ret) {
  if (!r_join)
    r_join = real<decltype(r_join)>("pthread_join");
  if (!on())
    return r_join(t, ret);
  RT r;
  int id = -1;
  for (int k = 1; k < nth; ++k)
    if (th[k].exists && !th[k].joined && pthread_equal(th[k].real, t))
      id = k;
  if (id < 0)
    return r_join(t, ret);
  schedule();
  blockOn(JOIN, nullptr, id);
  th[id].joined = true;
  for (int k = 0; k < MAXT; ++k)
    th[me].vc[k] = std::max(th[me].vc[k], th[id].vc[k]);
  tick();
  stateHash += mixh(mixh(me + 1, ++th[me].idx), 78);
  effect();
  r_join(t, ret);
  if (--unjoined == 0)
    singleThreaded();
  return 0;
}
int pthread_detach(pthread_t t) {
  if (!on())
    return real<int (*)(pthread_t)>("pthread_detach")(t);
  for (int k = 1; k < nth; ++k)
    if (th[k].exists && pthread_equal(th[k].real, t))
      th[k].detached = true;
  return 0; // the real one stays joinable: never reused
}
static void lockLoc(const void *m, Block b) {
  schedule();
  blockOn(b, m);
  Loc &l = loc(m);
  if (b == RWR)
    ++l.readers;
  else
    l.owner = me;
  l.count = 1;
  acquire(l);
  hashWrite(l, 10);
  ++l.version;
  effect();
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!multi()) {
    if (!on())
      return 0; // the runtime itself never needs mutual exclusion: one thread runs at a time
    Loc &l = (*locs)[m];
    if (l.owner == me) {
      if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) {
        ++l.count;
        return 0;
      }
      violation("deadlock: a mutex is locked twice by its owner");
    }
    l.owner = me;
    l.count = 1;
    return 0;
  }
  RT r;
  Loc &l = loc(m);
  if (l.owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) {
    ++l.count;
    return 0;
  }
  checkFreed((std::uintptr_t)m, 1, PC, true);
  lockLoc(m, MUTEX);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!on())
    return 0;
  RT r;
  if (unjoined > 0)
    beforeLoad(m, PC);
  Loc &l = loc(m);
  if (l.owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) {
    ++l.count;
    return 0;
  }
  if (l.owner != -1) {
    didLoad(m, __ATOMIC_RELAXED, PC);
    return EBUSY;
  }
  l.owner = me;
  l.count = 1;
  acquire(l);
  hashWrite(l, 11);
  ++l.version;
  effect();
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!on())
    return 0;
  RT r;
  Loc &l = loc(m);
  if (l.owner != me)
    violation("a mutex is unlocked by a thread not owning it");
  if (--l.count > 0)
    return 0;
  if (unjoined > 0)
    schedule();
  Loc &k = loc(m);
  k.owner = -1;
  hashWrite(k, 12);
  releaseStore(k);
  ++k.version;
  effect();
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  if (!on())
    return 0;
  RT r;
  lockLoc(m, RWW);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (!on())
    return 0;
  RT r;
  lockLoc(m, RWR);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
  if (!on())
    return 0;
  RT r;
  if (unjoined > 0)
    schedule();
  Loc &l = loc(m);
  if (l.owner == me)
    l.owner = -1;
  else
    --l.readers;
  hashWrite(l, 13);
  releaseJoin(l);
  ++l.version;
  effect();
  return 0;
}
// condition variables
static int waitCond(const void *c, pthread_mutex_t *m, bool timed) {
  RT r;
  if (unjoined == 0 && !timed)
    violation("deadlock: wait on a condition nobody can signal");
  schedule();
  {
    Loc &l = loc(m);
    l.owner = -1;
    hashWrite(l, 14);
    releaseStore(l);
    ++l.version;
  }
  Th &x = th[me];
  x.signaled = false;
  x.timed = timed;
  x.timedOut = false;
  hashWrite(loc(c), 15);
  effect();
  blockOn(COND, c);
  x.timed = false;
  bool to = x.timedOut;
  x.timedOut = false;
  hashWrite(loc(c), to ? 16 : 17);
  blockOn(MUTEX, m);
  Loc &l = loc(m);
  l.owner = me;
  l.count = 1;
  acquire(l);
  hashWrite(l, 10);
  ++l.version;
  effect();
  return to ? ETIMEDOUT : 0;
}
static int wakeCond(const void *c, bool all) {
  RT r;
  if (unjoined > 0)
    schedule();
  hashWrite(loc(c), all ? 18 : 19);
  effect();
  // one waiter: the first (lowest id); spurious order choices are not explored
  for (int t = 0; t < nth; ++t)
    if (th[t].exists && !th[t].exited && th[t].block == COND && th[t].obj == c && !th[t].signaled) {
      th[t].signaled = true;
      if (!all)
        break;
    }
  return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return on() ? waitCond(c, m, false) : 0; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *) { return on() ? waitCond(c, m, true) : 0; }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const timespec *) { return on() ? waitCond(c, m, true) : 0; }
int pthread_cond_signal(pthread_cond_t *c) { return on() ? wakeCond(c, false) : 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { return on() ? wakeCond(c, true) : 0; }
// yields
static void yieldPoint() {
  RT r;
  ++progress;
  schedule(true);
}
int sched_yield() {
  if (multi())
    yieldPoint();
  return 0;
}
int nanosleep(const timespec *, timespec *) {
  if (multi())
    yieldPoint();
  return 0;
}
int clock_nanosleep(clockid_t, int, const timespec *, timespec *) {
  if (multi())
    yieldPoint();
  return 0;
}
int usleep(useconds_t) {
  if (multi())
    yieldPoint();
  return 0;
}
// statics with dynamic initialisation
int __cxa_guard_acquire(u64 *g) {
  if (*(volatile char *)g)
    return 0;
  if (!multi())
    return 1;
  RT r;
  schedule();
  for (;;) {
    Loc &l = loc(g);
    if (*(volatile char *)g) {
      acquire(l);
      return 0;
    }
    if (l.owner == -1) {
      l.owner = me;
      hashWrite(l, 20);
      effect();
      return 1;
    }
    th[me].signaled = false;
    blockOn(GUARD, g);
  }
}
static void guardDone(u64 *g, bool ok) {
  if (!multi()) {
    if (ok)
      *(volatile char *)g = 1;
    return;
  }
  RT r;
  Loc &l = loc(g);
  if (ok)
    *(volatile char *)g = 1;
  l.owner = -1;
  hashWrite(l, 21);
  releaseStore(l);
  ++l.version;
  effect();
  for (int t = 0; t < nth; ++t)
    if (th[t].exists && th[t].block == GUARD && th[t].obj == g)
      th[t].signaled = true;
}
void __cxa_guard_release(u64 *g) { guardDone(g, true); }
void __cxa_guard_abort(u64 *g) { guardDone(g, false); }
int pthread_once(pthread_once_t *o, void (*f)()) {
  if (!multi()) {
    if (*(volatile int *)o == 2)
      return 0;
    f();
    *(volatile int *)o = 2;
    return 0;
  }
  for (;;) {
    {
      RT r;
      schedule();
      Loc &l = loc(o);
      if (*(volatile int *)o == 2) {
        acquire(l);
        return 0;
      }
      if (l.owner != -1) {
        th[me].signaled = false;
        blockOn(GUARD, o);
        continue;
      }
      l.owner = me;
      hashWrite(l, 20);
      effect();
    }
    try {
      f();
    } catch (...) {
      RT r;
      loc(o).owner = -1;
      for (int t = 0; t < nth; ++t)
        if (th[t].exists && th[t].block == GUARD && th[t].obj == o)
          th[t].signaled = true;
      throw;
    }
    RT r;
    *(volatile int *)o = 2;
    Loc &l = loc(o);
    l.owner = -1;
    hashWrite(l, 21);
    releaseStore(l);
    ++l.version;
    effect();
    for (int t = 0; t < nth; ++t)
      if (th[t].exists && th[t].block == GUARD && th[t].obj == o)
        th[t].signaled = true;
    return 0;
  }
}
// futex based waits of the standard library (futures)
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && multi()) {
    int op = (int)b & 127;
    RT r;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      schedule();
      if (*(volatile int *)a != (int)c) {
        errno = EAGAIN;
        return -1;
      }
      Th &x = th[me];
      x.signaled = false;
      x.timed = d != 0;
      x.timedOut = false;
      hashWrite(loc((void *)a), 30);
      effect();
      blockOn(FUTEX, (void *)a);
      x.timed = false;
      acquire(loc((void *)a));
      if (x.timedOut) {
        x.timedOut = false;
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      schedule();
      hashWrite(loc((void *)a), 31);
      releaseJoin(loc((void *)a));
      effect();
      int k = 0;
      for (int t = 0; t < nth && k < (int)c; ++t)
        if (th[t].exists && th[t].block == FUTEX && th[t].obj == (void *)a && !th[t].signaled) {
          th[t].signaled = true;
          ++k;
        }
      return k;
    }
  }
  long res = rawsys(n, a, b, c, d, e, f);
  if (res < 0 && res > -4096) {
    errno = (int)-res;
    return -1;
  }
  return res;
}
} // extern "C"

// ============================================================ memory
static void release(void *p, const void *pc) {
  if (!p)
    return;
  if (!multi() || !freed) {
    free(p);
    return;
  }
  std::size_t n = malloc_usable_size(p);
  {
    ++quiet;
    std::uintptr_t a = (std::uintptr_t)p;
    auto it = std::upper_bound(freed->begin(), freed->end(), a, [](std::uintptr_t v, const Freed &f) { return v < f.b; });
    if (it != freed->begin() && a < (it - 1)->e)
      violation("memory released twice at " + symbol(pc));
    --quiet;
  }
  accessRange(p, n, 2, pc);
  RT r;
  Freed f{(std::uintptr_t)p, (std::uintptr_t)p + n, pc, me};
  freed->insert(std::upper_bound(freed->begin(), freed->end(), f, [](const Freed &x, const Freed &y) { return x.b < y.b; }), f);
}
void *operator new(std::size_t n) {
  if (void *p = malloc(n ? n : 1))
    return p;
  throw std::bad_alloc();
}
void *operator new[](std::size_t n) { return operator new(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void *operator new(std::size_t n, std::align_val_t al) {
  void *p = nullptr;
  if (posix_memalign(&p, std::max<std::size_t>((std::size_t)al, sizeof(void *)), n ? n : 1))
    throw std::bad_alloc();
  return p;
}
void *operator new[](std::size_t n, std::align_val_t al) { return operator new(n, al); }
void operator delete(void *p) noexcept { release(p, PC); }
void operator delete[](void *p) noexcept { release(p, PC); }
void operator delete(void *p, std::size_t) noexcept { release(p, PC); }
void operator delete[](void *p, std::size_t) noexcept { release(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { release(p, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { release(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { release(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { release(p, PC); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { release(p, PC); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { release(p, PC); }

// ============================================================ explorer
namespace vs {
Quiet::Quiet() { ++quiet; }
Quiet::~Quiet() { --quiet; }
void fail(const std::string &m) { violation(m); }
void outcome(std::uint64_t h) {
  sh->outcome = sh->hasOutcome ? mixh(sh->outcome, h) : h;
  sh->hasOutcome = true;
}
bool threadsRunning() { return unjoined > 0; }
void event(int what) {
  if (!active || me < 0)
    return;
  RT r;
  if (unjoined > 0)
    schedule();
  static char monitor;
  hashWrite(loc(&monitor), 100 + what);
  ++progress;
}
std::string show(const Schedule &s) {
  std::string r;
  for (auto &[p, c] : s)
    r += (r.empty() ? "" : ",") + std::to_string(p) + ":" + std::to_string((int)c);
  return r.empty() ? "default" : r;
}
namespace {
void setup() {
  if (sh)
    return;
  auto map = [](std::size_t n, int flags) {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, flags | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
      perror("mmap");
      exit(3);
    }
    return p;
  };
  sh = (Shared *)map(sizeof(Shared), MAP_SHARED);
  seen = (Seen *)map(SEEN * sizeof(Seen), MAP_SHARED);
  grans = (Gran *)map(GRANS * sizeof(Gran), MAP_PRIVATE);
  r_create = real<decltype(r_create)>("pthread_create");
  r_join = real<decltype(r_join)>("pthread_join");
}
[[noreturn]] void child(const std::function<void()> &scenario) {
  rlimit cpu{60, 65};
  setrlimit(RLIMIT_CPU, &cpu);
  alarm(240);
  th = new Th[MAXT];
  locs = new std::unordered_map<const void *, Loc>();
  locs->reserve(1024);
  freed = new std::vector<Freed>();
  freed->reserve(1024);
  nth = 1;
  th[0].exists = true;
  th[0].vc[0] = 1;
  me = 0;
  quiet = 0;
  active = true;
  try {
    scenario();
  } catch (const std::exception &e) {
    violation(std::string("unexpected exception: ") + e.what());
  } catch (...) {
    violation("unexpected exception");
  }
  active = false;
  if (unjoined > 0)
    violation("a worker thread is left running");
  finish(1);
}
// 1 done, 2 violation, 3 pruned, 4 diverged
int execute(const std::function<void()> &scenario, const Schedule &s, std::string &msg) {
  sh->npoints = 0;
  sh->nkeys = 0;
  sh->nprefix = (u32)s.size();
  if (s.size() > 4096) {
    msg = "schedule too long";
    return 4;
  }
  std::copy(s.begin(), s.end(), sh->prefix);
  sh->verdict = 0;
  sh->steps = 0;
  sh->maxThreads = 1;
  sh->created = 0;
  sh->hasOutcome = false;
  sh->msg[0] = 0;
  prefixAt = 0;
  used = 0;
  stateHash = 0;
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p < 0) {
    perror("fork");
    exit(3);
  }
  if (p == 0)
    child(scenario);
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR)
    ;
  if (sh->verdict == 0) {
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU))
      msg = "a thread runs for ever without synchronising";
    else if (WIFSIGNALED(st))
      msg = std::string("the process is killed by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
    else
      msg = "the process ended with status " + std::to_string(WEXITSTATUS(st));
    return 2;
  }
  if (sh->verdict == 2)
    msg = sh->msg;
  return sh->verdict;
}
void record(Result &r) {
  ++r.schedules;
  r.transitions += sh->steps;
  r.maxPoints = std::max<std::uint64_t>(r.maxPoints, sh->npoints);
  r.threads = std::max(r.threads, sh->maxThreads);
  r.created = std::max(r.created, sh->created);
}
} // namespace
Result replay(const std::function<void()> &scenario, const Options &o, const Schedule &s) {
  setup();
  opt = o;
  ++salt;
  Result r;
  int v = execute(scenario, s, r.msg);
  record(r);
  r.violation = v == 2;
  r.schedule = s;
  return r;
}
Result explore(const std::function<void()> &scenario, const Options &o) {
  setup();
  opt = o;
  salt = mixh(salt, 12345);
  memset(seen, 0, 0);
  Result r;
  struct Node {
    Schedule s;
    int used;
  };
  std::vector<Node> todo{{{}, 0}};
  std::unordered_set<std::uint64_t> outs;
  u64 firstDeviation = 0;
  while (!todo.empty()) {
    if (r.schedules >= o.maxSchedules) {
      r.capped = true;
      break;
    }
    Node n = std::move(todo.back());
    todo.pop_back();
    if (o.heartbeat)
      o.heartbeat();
    std::string msg;
    int v = execute(scenario, n.s, msg);
    record(r);
    if (sh->npoints >= MAXPOINTS && o.preemptions > 0)
      r.capped = true;
    if (v == 2) {
      r.violation = true;
      r.msg = msg + " [schedule " + show(n.s) + "]";
      r.schedule = n.s;
      break;
    }
    if (v == 4) {
      ++r.diverged;
      continue;
    }
    if (v == 3)
      ++r.pruned;
    else
      ++r.complete;
    if (o.skipLocal) {
      for (u32 i = 0; i < sh->npoints && v == 1; ++i)
        if (!sh->points[i].local)
          r.states.push_back(sh->points[i].key);
    } else
      for (u32 i = 0; i < sh->nkeys && r.states.size() < 3000000; ++i)
        r.states.push_back(sh->keys[i]);
    if (sh->hasOutcome && v == 1)
      outs.insert(sh->outcome);
    u32 from = n.s.empty() ? 0 : n.s.back().first + 1;
    for (u32 i = sh->npoints; i-- > from;) {
      Point &p = sh->points[i];
      if (o.skipLocal && v == 1 && p.local)
        continue;
      int cost = p.preemptive ? 1 : o.forcedCost;
      if (n.used + cost > o.preemptions)
        continue;
      for (u8 a = p.n; a-- > 1;) {
        if (n.s.empty() && (firstDeviation++ % o.parts) != o.part)
          continue;
        Node m{n.s, n.used + cost};
        m.s.push_back({i, a});
        todo.push_back(std::move(m));
      }
    }
  }
  r.outcomes.assign(outs.begin(), outs.end());
  return r;
}
} // namespace vs
