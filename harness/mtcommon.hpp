// Models, expected answers and exploration used by the harnesses of the
// multi-threaded requests.
#pragma once
#include "loopynet.hpp"
#include "tmodel.hpp"
#include "vsched.hpp"
#include <memory>

using namespace vf;
namespace {
struct Shape {
  std::string name;
  std::vector<std::size_t> sizes;
  std::vector<FSpec> f;
  std::map<int, std::size_t> ev;
};
FSpec weak(std::vector<int> v, int id, double w = 0.3) {
  FSpec s;
  s.v = v;
  s.k = TUN;
  s.id = id;
  s.w = w;
  return s;
}
FSpec tab(std::vector<int> v, int id) {
  FSpec s;
  s.v = v;
  s.k = TAB;
  s.id = id;
  return s;
}
std::vector<Shape> shapes() {
  std::vector<Shape> r;
  r.push_back({"pair", {2, 2}, {weak({0, 1}, 3), tab({0}, 5), weak({1}, 6, -0.4)}, {}});
  r.push_back({"chain of 3", {2, 3, 2}, {weak({0, 1}, 3), tab({1, 2}, 4), weak({1}, 6, -0.4)}, {}});
  r.push_back({"star of 4", {2, 2, 2, 2}, {weak({0, 1}, 3), tab({2, 0}, 4), weak({0, 3}, 7), tab({3}, 9)}, {}});
  r.push_back({"triangle", {2, 2, 2}, {weak({0, 1}, 3), weak({1, 2}, 4), weak({2, 0}, 7), tab({1}, 9)}, {}});
  r.push_back({"two components and a single", {2, 2, 2, 2, 3}, {weak({0, 1}, 3), tab({3, 2}, 4), tab({4}, 2), weak({4}, 7)}, {}});
  r.push_back({"observed middle", {2, 3, 2, 2}, {weak({0, 1}, 3), weak({2, 1}, 4), tab({2, 3}, 7)}, {{1, 2}}});
  r.push_back({"square", {2, 2, 2, 2}, {weak({0, 1}, 3), weak({1, 2}, 4), weak({2, 3}, 7), weak({3, 0}, 8), tab({1}, 9)}, {}});
  r.push_back({"square opened by an evidence", {2, 2, 2, 2}, {weak({0, 1}, 3), weak({1, 2}, 4), weak({2, 3}, 7), weak({3, 0}, 8), tab({1}, 9)}, {{0, 1}}});
  return r;
}
std::unique_ptr<TModel> make(const Shape &s) {
  auto m = std::make_unique<TModel>(s.sizes, s.f);
  for (auto &[v, x] : s.ev) {
    m->m.setEvidence(m->u.ptr[v], x);
    m->t.r.ev[v] = x;
  }
  return m;
}
struct Expected {
  bool forest = true, mapOk = false;
  std::map<int, std::vector<float>> marg;
  std::map<int, std::size_t> map;
};
// the hidden MAP follows the order of the hidden variables of that model
template <typename M> std::map<int, std::size_t> hiddenMap(M &m, const Vars &u, std::size_t th) {
  auto got = m.getHiddenSetMAP(th);
  auto hid = m.getHiddenVariables();
  std::map<int, std::size_t> r;
  if (got.size() != hid.size())
    return r;
  std::size_t k = 0;
  for (auto &v : hid)
    r[u.idOf(v)] = got[k++];
  return r;
}
std::string showm(const std::map<int, std::size_t> &m) {
  std::string s;
  for (auto &[v, x] : m)
    s += str(v, "=", x, " ");
  return s;
}
// what a single thread answers
template <typename M> Expected answers(M &m, const Vars &u) {
  Expected e;
  for (auto &v : m.getAllVariables())
    e.marg[u.idOf(v)] = m.getMarginalDistribution(v, 1);
  for (auto &s : m.getLastPropagationResult().structures)
    e.forest = e.forest && s.tree_or_loopy_graph;
  e.map = hiddenMap(m, u, 1);
  return e;
}
void same(const std::vector<float> &a, const std::vector<float> &b, double tol, const std::string &what) {
  bool ok = a.size() == b.size();
  for (std::size_t k = 0; ok && k < a.size(); ++k)
    ok = std::fabs(a[k] - b[k]) <= tol;
  if (!ok)
    vs::fail(str(what, " is ", showv(a), " instead of ", showv(b)));
}
void noThreads() {
  if (vs::threadsRunning())
    vs::fail("worker threads left after the request");
}
template <typename M> void askMarginals(M &m, const Vars &u, const Expected &e, std::size_t th) {
  for (auto &[v, d] : e.marg) {
    auto got = m.getMarginalDistribution(u.ptr[v], th);
    noThreads();
    same(got, d, e.forest ? 2e-5 : 5e-3, str("marginal of ", v, " with ", th, " threads"));
  }
}
template <typename M> void askMap(M &m, const Vars &u, const Expected &e, std::size_t th) {
  auto got = hiddenMap(m, u, th);
  noThreads();
  if (e.mapOk && got != e.map)
    vs::fail(str("MAP ", showm(got), " instead of ", showm(e.map), " with ", th, " threads"));
}
void account(Ctx &c, const vs::Result &r) {
  c.transitions += r.transitions;
  c.traces += r.complete;
  c.comparisons += r.complete;
  c.extra["schedules"] += r.schedules;
  c.extra["complete_executions"] += r.complete;
  c.extra["pruned_as_equivalent"] += r.pruned;
  c.extra["max_choice_points"] = std::max(c.extra["max_choice_points"], r.maxPoints);
  c.extra["max_threads"] = std::max(c.extra["max_threads"], (std::uint64_t)r.threads);
  c.extra["diverged"] += r.diverged;
  if (r.capped)
    c.extra["explorations_capped"]++;
  VF_REQUIRE(!r.violation, r.msg);
}
struct Bound {
  int preemptions, forced;
  unsigned parts = 1;
  long cap = 2000000;
  bool skipLocal = false;
};
struct Exec {
  Ctx &c;
  // prepare() builds the scenario in this process; it is executed in children
  void operator()(const std::string &name, Bound b, const std::function<std::function<void()>()> &prepare,
                  bool oneOutcome = false, int failAt = 0, int fails = 1) {
    for (unsigned p = 0; p < b.parts; ++p)
      c.run([&] { return str(name, b.parts > 1 ? str(", part ", p + 1, "/", b.parts) : "", " (", b.preemptions, " preemptions)"); },
            [&] {
              auto body = prepare();
              vs::Options o;
              o.preemptions = b.preemptions;
              o.forcedCost = b.forced;
              o.part = p;
              o.parts = b.parts;
              o.maxSchedules = b.cap;
              o.skipLocal = b.skipLocal;
              o.failCreate = failAt;
              o.failCreates = fails;
              o.heartbeat = [&] { c.status->seq = c.status->seq + 1; };
              timespec t0, t1;
              clock_gettime(CLOCK_MONOTONIC, &t0);
              auto r = vs::explore(body, o);
              clock_gettime(CLOCK_MONOTONIC, &t1);
              c.state(mix(p, name));
              for (auto h : r.states)
                c.state(mix(h, name));
              if (getenv("VS_VERBOSE"))
                fprintf(stderr, "%s part %u: %ld schedules %ld pruned %lu points %lu outcomes %.2f s%s%s\n", name.c_str(), p, r.schedules, r.pruned,
                        r.maxPoints, r.outcomes.size(), (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec), r.capped ? " CAPPED" : "", r.violation ? " VIOLATION" : "");
              for (auto h : r.outcomes)
                c.outcome(h);
              account(c, r);
              if (oneOutcome)
                VF_REQUIRE(r.outcomes.size() <= 1, r.outcomes.size(), " different results, depending on the interleaving");
            });
  }
};
struct Fix { // a model and what it should answer
  std::unique_ptr<TModel> t;
  Expected e;
};
std::shared_ptr<Fix> fix(const Shape &s) {
  auto f = std::make_shared<Fix>();
  f->t = make(s);
  auto twin = make(s);
  f->e = answers(twin->m, twin->u);
  double all = 1;
  for (auto x : s.sizes)
    all *= (double)x;
  if (all < 1e6)
    f->e.mapOk = f->e.forest && f->t->t.r.solve().uniqueMap();
  else {
    f->e.mapOk = f->e.forest;
    ForestSolver solver(f->t->t.r);
    for (int v : f->t->t.r.hidden()) {
      auto d = solver.maxMarginal(v);
      std::sort(d.begin(), d.end());
      f->e.mapOk = f->e.mapOk && (d.size() < 2 || d[d.size() - 2] < d.back() * (1 - 2e-3));
    }
  }
  return f;
}
std::vector<Comb> someSamples(const Vars &u, std::size_t n) {
  std::vector<Comb> r;
  for (std::size_t k = 0; k < n; ++k) {
    Comb c;
    for (std::size_t v = 0; v < u.size.size(); ++v)
      c.push_back(hash32((unsigned)(k * 13 + v * 7 + 1)) % u.size[v]);
    r.push_back(c);
  }
  return r;
}
using SC = EFG::strct::GibbsSampler::SamplesGenerationContext;
template <typename M> void wellFormed(const std::vector<Comb> &s, M &m, const Vars &u, std::size_t n, const std::map<int, std::size_t> &ev) {
  if (s.size() != n)
    vs::fail(str(s.size(), " samples instead of ", n));
  const auto &vars = m.getAllVariables();
  for (auto &x : s) {
    if (x.size() != vars.size())
      vs::fail("sample of the wrong length");
    for (std::size_t k = 0; k < x.size(); ++k) {
      if (x[k] >= vars[k]->size())
        vs::fail(str("value ", x[k], " for variable ", vars[k]->name()));
      auto it = ev.find(u.idOf(vars[k]));
      if (it != ev.end() && it->second != x[k])
        vs::fail("an observed variable is not at its observed value");
    }
  }
}
} // namespace
