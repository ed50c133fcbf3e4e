// P11: every interleaving (up to a bound on preemptions) of the worker pool.
#include "core.hpp"
#include "vsched.hpp"
#include <EasyFactorGraph/structure/bases/PoolAware.h>
#include <thread>

using namespace vf;
using EFG::strct::Pool;
using EFG::strct::PoolAware;
using EFG::strct::Task;
using EFG::strct::Tasks;
namespace {
struct Monitor {
  std::size_t size = 0;
  int running[16] = {};
  int runners = 0;
};
struct Batch {
  Monitor &mon;
  std::vector<int> done;  // monitored
  std::vector<int> data;  // written by the tasks with no synchronisation
  Tasks tasks;
  bool open = false;
  Batch(Monitor &m, std::size_t n, bool yields, bool stamp = true) : mon(m), done(n, 0), data(n + 1, 0) {
    for (std::size_t k = 0; k < n; ++k)
      tasks.emplace_back([this, k, yields](const std::size_t id) {
        if (yields)
          vs::event(1);
        {
          vs::Quiet q;
          if (id >= mon.size)
            vs::fail(str("worker index ", id, " in a pool of ", mon.size));
          if (mon.running[id])
            vs::fail(str("two tasks run at the same time as worker ", id));
          if (!open)
            vs::fail(str("task ", k, " started outside of its batch"));
          if (done[k])
            vs::fail(str("task ", k, " executed twice"));
          mon.running[id] = 1;
          ++mon.runners;
        }
        data[k] = (int)k + 7;
        if (yields)
          vs::event(2);
        {
          vs::Quiet q;
          if (!open)
            vs::fail(str("the batch returned before the end of task ", k));
          ++done[k];
          mon.running[id] = 0;
          --mon.runners;
        }
      });
  }
  // exclusive: nobody else uses the pool
  void run(Pool &p, bool exclusive = true) {
    {
      vs::Quiet q;
      open = true;
    }
    p.parallelFor(tasks);
    {
      vs::Quiet q;
      open = false;
      for (std::size_t k = 0; k < done.size(); ++k)
        if (done[k] != 1)
          vs::fail(str("task ", k, " executed ", done[k], " times"));
      if (exclusive && mon.runners)
        vs::fail("some task is running after the end of the batch");
    }
    int sum = 0; // visible without further synchronisation
    for (std::size_t k = 0; k < done.size(); ++k)
      sum += data[k] == (int)k + 7;
    if (sum != (int)done.size())
      vs::fail("the effects of a task are not visible");
  }
};
void check(Ctx &c, const vs::Result &r, bool threadsNeeded) {
  c.transitions += r.transitions;
  c.traces += r.complete;
  c.comparisons += r.schedules;
  c.extra["schedules"] += r.schedules;
  c.extra["complete_executions"] += r.complete;
  c.extra["pruned_as_equivalent"] += r.pruned;
  c.extra["max_choice_points"] = std::max(c.extra["max_choice_points"], r.maxPoints);
  c.extra["diverged"] += r.diverged;
  if (r.capped)
    c.extra["capped"]++;
  VF_REQUIRE(!r.violation, r.msg);
}
struct SubPool : PoolAware {
  void go(std::size_t n) {
    ScopedPoolActivator a(*this, n);
    Monitor m;
    m.size = n;
    Batch b(m, n, true);
    b.run(getPool());
  }
  std::size_t size() { return getPool().size(); }
  void set(std::size_t n) { setPoolSize(n); }
  void reset() { resetPool(); }
};
} // namespace
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    auto scenario = [&](std::string name, int bound, unsigned parts, bool threads, std::function<void()> body, long cap = 3000000, int forced = 0) {
      for (unsigned p = 0; p < parts; ++p)
        c.run([&] { return str(name, ", ", bound, " preemptions, part ", p + 1, "/", parts); },
              [&] {
                vs::Options o;
                o.preemptions = bound;
                o.part = p;
                o.parts = parts;
                o.maxSchedules = cap;
                o.forcedCost = forced;
                o.heartbeat = [&] { c.status->seq = c.status->seq + 1; };
                auto t = time(nullptr);
                auto r = vs::explore(body, o);
                c.state(mix(p, name));
              for (auto h : r.states)
                c.state(mix(h, name));
                if (getenv("VS_VERBOSE"))
                  fprintf(stderr, "%s part %u: %ld schedules %ld pruned %lu points %ld s%s\n", name.c_str(), p, r.schedules, r.pruned, r.maxPoints, (long)(time(nullptr) - t), r.capped ? " CAPPED" : "");
                check(c, r, threads);
              });
    };
    auto batches = [](std::size_t size, std::vector<std::size_t> counts, bool yields) {
      return [=] {
        Monitor m;
        m.size = size;
        Pool p(size);
        if (p.size() != size)
          vs::fail("wrong pool size");
        for (auto n : counts) {
          Batch b(m, n, yields);
          b.run(p);
        }
      };
    };
    scenario("pool of size 0 is refused", 0, 1, false, [] {
      bool thrown = false;
      try {
        Pool p(0);
      } catch (const std::exception &) {
        thrown = true;
      }
      if (!thrown)
        vs::fail("accepted");
    });
    for (std::size_t n = 0; n <= 3; ++n)
      scenario(str("pool of 1, ", n, " tasks"), 0, 1, false, batches(1, {n, n}, true));
    for (std::size_t s = 2; s <= 4; ++s)
      scenario(str("pool of ", s, " created and destroyed"), s <= 3 ? 200 : c.pick(3, 200), s == 4 ? 8 : 1, true, batches(s, {}, true));
    // two workers: with no bound on the preemptions where that is feasible
    const int ALL = 200;
    for (std::size_t n = 0; n <= 4; ++n)
      scenario(str("pool of 2, ", n, " tasks"), n <= 3 ? ALL : c.pick(4, ALL), n >= 3 ? 8 : 1, true, batches(2, {n}, true));
    for (std::size_t n = 0; n <= 3; ++n)
      for (std::size_t k = 0; k <= 3; ++k)
        scenario(str("pool of 2, batches of ", n, " and ", k, " tasks"), n + k <= 2 ? ALL : c.pick(3, n + k <= 4 ? ALL : 6), n + k >= 2 ? 4 : 1, true,
                 batches(2, {n, k}, true));
    scenario("pool of 2, batches of 1, 2 and 1 tasks", c.pick(3, 5), 8, true, batches(2, {1, 2, 1}, true));
    scenario("pool of 2, batches of 2 and 2 tasks without inner scheduling points", c.pick(6, ALL), 8, true, batches(2, {2, 2}, false));
    // three and four
    for (std::size_t n = 0; n <= 4; ++n)
      scenario(str("pool of 3, ", n, " tasks"), c.pick(2, 3), 8, true, batches(3, {n}, true));
    scenario("pool of 3, batches of 3 and 2 tasks", c.pick(1, 2), 8, true, batches(3, {3, 2}, true));
    for (std::size_t n : {1, 4, 5})
      scenario(str("pool of 4, ", n, " tasks"), c.pick(0, 1), 8, true, batches(4, {n}, true));
    // bigger pools and batches, default schedule
    for (std::size_t s : {1, 2, 3, 5, 8, 12, 15})
      for (std::size_t n : {1, 3, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 128, 130, 256, 257, 300, 1025})
        if (n <= 300 || s <= 3)
          scenario(str("pool of ", s, ", batches of ", n, ", 0 and ", n / 2 + 1, " tasks, default schedule"), 0, 1, s > 1,
                   batches(s, {n, 0, n / 2 + 1}, false), 10, 1);
    // many batches, one after the other
    for (std::size_t s : {1, 2, 3, 5})
      scenario(str("pool of ", s, ", 530 batches of 0 to 3 tasks, default schedule"), 0, 1, s > 1,
               [s] {
                 Monitor m;
                 m.size = s;
                 Pool p(s);
                 for (std::size_t k = 0; k < 530; ++k) {
                   Batch b(m, k % 11 == 10 ? 0 : 1 + k % 3, false);
                   b.run(p);
                 }
               },
               10, 1);
    // concurrent callers
    for (std::size_t s : {1, 2})
      scenario(str("pool of ", s, " used by two callers"), s == 1 ? 200 : c.pick(3, 4), 8, true, [s] {
        Monitor m;
        m.size = s;
        Pool p(s);
        Batch b1(m, 2, true), b2(m, 1, true);
        std::thread other([&] { b2.run(p, false); });
        b1.run(p, false);
        other.join();
      });
    // through the owner of the pool
    scenario("pool activated by a scope, twice", c.pick(3, 5), 4, true, [] {
      SubPool p;
      for (int k = 0; k < 2; ++k) {
        p.go(2);
        if (p.size() != 1 || vs::threadsRunning())
          vs::fail("the pool is not reset after use");
      }
    });
    scenario("pool size changes", c.pick(2, 3), 1, true, [] {
      SubPool p;
      for (std::size_t n : {2, 3, 1, 2}) {
        p.set(n);
        if (p.size() != n)
          vs::fail("wrong size after a change");
      }
      p.reset();
      if (p.size() != 1 || vs::threadsRunning())
        vs::fail("wrong size after the reset");
    });
  });
}
