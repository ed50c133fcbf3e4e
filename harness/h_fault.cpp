// P26: every request of a menu, on every model of a menu and after every short
// history, with every single memory allocation made by the request refused (alone
// or with all the following ones): an exception, same contents, right answers
// afterwards. The same with a propagation strategy that throws.
#include "net.hpp"
#include <EasyFactorGraph/structure/BaselineLoopyPropagator.h>
#include <EasyFactorGraph/structure/SpecialFactors.h>
#include <new>

static long g_left = -1; // allocations still granted, -1 = no limit
static bool g_sticky = false;
static unsigned long g_count = 0;
static void *vfNew(std::size_t n) {
  ++g_count;
  if (g_left >= 0) {
    if (g_left == 0) {
      if (!g_sticky)
        g_left = -1;
      throw std::bad_alloc();
    }
    --g_left;
  }
  void *p = std::malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new(std::size_t n) { return vfNew(n); }
void *operator new[](std::size_t n) { return vfNew(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return std::malloc(n ? n : 1); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return std::malloc(n ? n : 1); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { std::free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { std::free(p); }

using namespace vf;
namespace {
struct World {
  const char *name;
  std::vector<std::size_t> sizes;
  std::vector<FSpec> f;
  std::vector<std::pair<int, std::size_t>> ev;
};
std::vector<World> worlds() {
  return {
      {"single", {3}, {{{0}, TAB, 1}}, {}},
      {"pair", {2, 3}, {{{1, 0}, TAB, 2}, {{0}, EXPC, 3, 0.7}}, {}},
      {"chain", {2, 3, 2}, {{{0, 1}, TAB, 4}, {{2, 1}, SPARSE, 5}, {{1}, TAB, 6}}, {}},
      {"observed", {2, 2, 3, 2}, {{{0, 1}, TAB, 7}, {{1, 2}, TAB, 8}, {{3, 2}, TAB, 9}, {{3}, TAB, 10}}, {{2, 1}}},
      {"star", {3, 2, 2, 2}, {{{0, 1}, TAB, 11}, {{2, 0}, TAB, 12}, {{0, 3}, EXPC, 13, 0.5}}, {}},
      {"tunable",
       {2, 2, 2},
       {{{0, 1}, TUN, 14, 0.6}, {{1, 2}, TUN, 15, 0.6, {0, 1}}, {{2}, TUN, 16, -0.4}, {{0}, TAB, 17}},
       {}},
      {"tuned and observed", {2, 2, 2}, {{{0, 1}, TUN, 18, 0.9}, {{1, 2}, TUN, 19, 0.3}, {{1}, TAB, 20}}, {{2, 1}}},
      {"two parts", {2, 2, 2, 3}, {{{0, 1}, TAB, 21}, {{2, 3}, TAB, 22}}, {}},
      {"ring", {2, 2, 2}, {{{0, 1}, EXPC, 23, 0.3}, {{1, 2}, EXPC, 24, 0.3}, {{2, 0}, EXPC, 25, 0.3}, {{1}, TAB, 26}}, {}},
      {"ring and tree",
       {2, 2, 2, 2, 2},
       {{{0, 1}, EXPC, 27, 0.3}, {{1, 2}, EXPC, 28, 0.3}, {{2, 0}, EXPC, 29, 0.3}, {{3, 4}, TAB, 30}, {{0}, TAB, 31}},
       {}},
      {"broken ring",
       {2, 2, 2, 2},
       {{{0, 1}, TAB, 32}, {{1, 2}, TAB, 33}, {{2, 3}, TAB, 34}, {{3, 0}, TAB, 35}},
       {{3, 1}}},
  };
}

struct Instance {
  Vars u;
  RModel r;
  RandomField m;
  bool tunable = false;
  std::vector<fac::ImmutablePtr> objects;
  std::vector<float> weights;
  explicit Instance(const World &w) : u(w.sizes) {
    r.size = w.sizes;
    int cl = 0;
    for (auto &s : w.f) {
      auto ref = makeRef(s, w.sizes);
      if (s.k == TUN) {
        auto f = makeExp(s, u);
        objects.push_back(f);
        if (s.share.empty()) {
          m.addTunableFactor(f);
          ref.cluster = cl++;
          weights.push_back((float)s.w);
        } else {
          m.addTunableFactor(f, u.set(s.share));
          ref.cluster = 0;
        }
        tunable = true;
      } else {
        auto f = makeReal(s, u);
        objects.push_back(f);
        m.addConstFactor(f);
      }
      r.add(ref);
    }
    for (auto &[v, x] : w.ev) {
      m.setEvidence(u.ptr[v], x);
      r.ev[v] = x;
    }
  }
  std::vector<int> connectedGroup() const {
    for (auto &x : r.f)
      if (x.v.size() == 2)
        return {x.v[1], x.v[0]};
    return {r.vars[0]};
  }
};

enum Req { MARG, MARGN, MAPV, HMAP, JOINT, SAMPLE, GRAD, WARM, EVCHANGE = WARM, WCHANGE, RELEASE };
const char *reqName(int q) {
  static const char *n[] = {"marginal", "marginal by name", "MAP", "hidden MAP", "joint", "samples", "gradient",
                            "query and change of the evidences", "query and change of the weights", "query and release of an evidence"};
  return n[q];
}
std::vector<std::vector<std::size_t>> someSamples(const Instance &i) {
  std::vector<std::vector<std::size_t>> s;
  for (int k = 0; k < 3; ++k) {
    std::vector<std::size_t> x;
    for (std::size_t p = 0; p < i.r.vars.size(); ++p)
      x.push_back((k + p * (k + 1)) % i.u.size[i.r.vars[p]]);
    s.push_back(x);
  }
  return s;
}
// needs memory only inside of the library once the arguments exist
struct Args {
  std::string name;
  cat::Group group;
  EFG::strct::GibbsSampler::SamplesGenerationContext samples;
  EFG::train::TrainSet set;
  EFG::train::TrainSet::Iterator it;
  explicit Args(const Instance &i)
      : name(i.u.ptr[i.r.vars.back()]->name()), group(i.u.soup(i.connectedGroup())),
        set(someSamples(i)), it(set.makeIterator()) {
    samples.samples_number = 2;
    samples.delta_iterations = 1;
    samples.seed = 3;
    samples.transient = 1;
  }
};
struct Got {
  std::vector<float> p;
  std::vector<std::size_t> x;
  bool operator==(const Got &o) const { return p == o.p && x == o.x; }
};
// a query of the given kind with other contents, which are then as built again
void disturb(Instance &i, int q, bool map) {
  auto ask = [&] {
    if (map)
      i.m.getHiddenSetMAP();
    else
      i.m.getMarginalDistribution(i.u.ptr[i.r.vars.front()]);
  };
  if (q == EVCHANGE) {
    for (auto &[v, x] : i.r.ev)
      i.m.setEvidence(i.u.ptr[v], (x + 1) % i.u.size[v]);
    ask();
    for (auto &[v, x] : i.r.ev)
      i.m.setEvidence(i.u.ptr[v], x);
  } else if (q == WCHANGE) {
    i.m.setWeights(std::vector<float>(i.weights.size(), 0.1f));
    ask();
    i.m.setWeights(i.weights);
  } else {
    auto v = i.u.ptr[i.r.hidden().back()];
    i.m.setEvidence(v, 0);
    ask();
    i.m.removeEvidence(v);
  }
}
Got perform(Instance &i, Args &a, int q) {
  if (q >= WARM) {
    disturb(i, q, i.u.ptr.size() % 2);
    return {};
  }
  Got g;
  auto &v = i.u.ptr[i.r.vars.front()];
  switch (q) {
  case MARG:
    g.p = i.m.getMarginalDistribution(v);
    break;
  case MARGN:
    g.p = i.m.getMarginalDistribution(a.name);
    break;
  case MAPV:
    g.x = {i.m.getMAP(v)};
    break;
  case HMAP:
    // in the order of the identifiers
    g.x.assign(i.u.ptr.size(), 99);
    {
      auto x = i.m.getHiddenSetMAP();
      auto h = i.m.getHiddenVariables();
      std::size_t k = 0;
      for (auto &v : h)
        g.x[i.u.idOf(v)] = k < x.size() ? x[k] : 98, ++k;
    }
    break;
  case JOINT:
    g.p = i.m.getJointMarginalDistribution(a.group).getProbabilities();
    break;
  case SAMPLE:
    // the values depend on the order of the nodes in memory: only their shape is reported
    for (auto &s : i.m.makeSamples(a.samples)) {
      g.x.push_back(s.size());
      for (std::size_t p = 0; p < s.size() && p < i.r.vars.size(); ++p) {
        auto v = i.r.vars[p];
        auto e = i.r.ev.find(v);
        g.x.push_back(s[p] < i.u.size[v] && (e == i.r.ev.end() || e->second == s[p]));
      }
    }
    break;
  case GRAD:
    g.p = i.m.getWeightsGradient(a.it);
    break;
  }
  return g;
}
bool near(const Got &a, const Got &b, float tol) {
  if (a.x != b.x || a.p.size() != b.p.size())
    return false;
  for (std::size_t k = 0; k < a.p.size(); ++k)
    if (!(std::fabs(a.p[k] - b.p[k]) <= tol))
      return false;
  return true;
}

struct Thrower : EFG::strct::LoopyBeliefPropagationStrategy {
  int &left;
  explicit Thrower(int &l) : left(l) {}
  bool propagateBelief(EFG::strct::HiddenCluster &cl, EFG::strct::PropagationKind k,
                       const EFG::strct::PropagationContext &, EFG::strct::Pool &pool) override {
    // some messages are there when it gives up
    int n = 0;
    for (auto *node : cl.nodes)
      for (auto &[o, conn] : node->active_connections) {
        conn.message = std::make_unique<fac::MergedUnaries>(node->variable);
        ++n;
      }
    (void)k;
    (void)pool;
    if (left-- > 0)
      throw std::runtime_error("gave up");
    return true;
  }
};

// contents as built
void contents(Ctx &c, Instance &i) {
  checkStructure(c, i.m, i.r, i.u);
  for (auto &o : i.objects)
    VF_REQUIRE(i.m.getAllFactors().count(o), "a factor is not in the model any more");
  auto w = i.m.getWeights();
  VF_REQUIRE(w == i.weights, "weights are ", showv(w), " expected ", showv(i.weights));
  for (std::size_t k = 0; k < i.objects.size(); ++k) {
    std::size_t n = 0;
    i.objects[k]->function().forEachCombination<true>([&](const auto &, float img) {
      VF_REQUIRE(std::fabs(img - i.r.f[k].t[n]) <= 1e-4 * (1 + std::fabs(i.r.f[k].t[n])), "a factor has changed");
      ++n;
    });
  }
  ++c.comparisons;
}
// what a model never disturbed answers; checked against the reference where it is exact
struct Expected {
  std::vector<Got> g;
  std::map<int, Dist> marginal;
  float tol;
  Expected(Ctx &c, const World &w) {
    Instance i(w);
    Args a(i);
    for (int k = 0; k < WARM; ++k)
      g.push_back(k == GRAD && (!i.tunable || !w.ev.empty()) ? Got{} : perform(i, a, k));
    tol = i.r.forest() ? 1e-4f : 4e-3f;
    if (i.r.forest()) {
      auto s = i.r.solve();
      checkMarginals(c, i.m, i.r, i.u, s);
      checkMap(c, i.m, i.r, i.u, s);
      checkJoint(c, i.m, i.r, i.u, i.connectedGroup());
    }
    for (int v : i.r.vars) {
      auto p = i.m.getMarginalDistribution(i.u.ptr[v]);
      marginal[v] = Dist(p.begin(), p.end());
    }
  }
};
// order: what is asked first
void answers(Ctx &c, Instance &i, Args &a, const Expected &e, int order) {
  for (int k = 0; k < c.pick(3, (int)WARM); ++k) {
    int q = (k + order) % WARM;
    if (q == GRAD && (!i.tunable || !i.r.ev.empty()))
      continue;
    auto g = perform(i, a, q);
    VF_REQUIRE(near(g, e.g[q], e.tol), "afterwards ", reqName(q), " gives ", showv(g.p), showv(g.x), " instead of ",
               showv(e.g[q].p), showv(e.g[q].x));
    ++c.comparisons;
  }
  for (int v : i.r.vars) {
    auto p = i.m.getMarginalDistribution(i.u.ptr[v]);
    VF_REQUIRE(close(p, e.marginal.at(v), e.tol), "afterwards the marginal of ", v, " is ", showv(p), " instead of ", show(e.marginal.at(v)));
    ++c.comparisons;
    for (float x : p)
      c.outcome(mix(7, (std::uint64_t)(x * 1000)));
  }
  checkPropagationInfo(c, i.m, i.r, EFG::strct::PropagationKind::SUM);
}

// warm: requests served before
void faults(Ctx &c, const World &w, const std::vector<int> &warm, int q, bool sticky) {
  if (q == GRAD && !w.ev.empty())
    return;
  c.run(
      [&] {
        std::string s;
        for (int x : warm)
          s += str(reqName(x), ", ");
        return str(w.name, ": ", s, "then ", reqName(q), " with every allocation refused", sticky ? " with all the following" : "");
      },
      [&] {
        Expected e(c, w);
        for (long n = 0;; ++n) {
          Instance i(w);
          Args a(i);
          for (int x : warm)
            perform(i, a, x);
          bool failed = false;
          Got g;
          g_sticky = sticky;
          g_left = n;
          try {
            g = perform(i, a, q);
          } catch (const std::exception &) {
            failed = true;
          }
          bool unused = g_left >= 0 && !(sticky && g_left == 0 && failed);
          g_left = -1;
          ++c.transitions;
          c.state(mix(mix(mix(mix(1, w.name), q), n), warm.empty() ? 99 : warm[0] + 20 * warm.size()));
          try {
            if (!failed && !unused && !near(g, e.g[q], e.tol))
              fail("the request reports ", showv(g.p), showv(g.x), " instead of ", showv(e.g[q].p), showv(e.g[q].x));
            contents(c, i);
            answers(c, i, a, e, (int)(n % WARM));
          } catch (const std::exception &x) {
            fail("allocation ", n, " refused: ", x.what());
          }
          ++c.traces;
          if (!failed && unused)
            break;
        }
      });
}
// the same model disturbed at every point, one after the other
void again(Ctx &c, const World &w, int q, int other) {
  if ((q == GRAD || other == GRAD) && !w.ev.empty())
    return;
  c.run([&] { return str(w.name, ": one model, ", reqName(q), " refused at every allocation with ", reqName(other), " in between"); },
        [&] {
          Instance i(w);
          Args a(i);
          Expected e(c, w);
          for (long n = 0;; ++n) {
            bool failed = false;
            // forget the propagation without touching the contents: the request is of the other kind
            auto g0 = perform(i, a, other);
            VF_REQUIRE(other >= WARM || near(g0, e.g[other], e.tol), "after a refusal ", n - 1, " ", reqName(other), " gives ", showv(g0.p), showv(g0.x),
                       " instead of ", showv(e.g[other % WARM].p), showv(e.g[other % WARM].x));
            g_sticky = false;
            g_left = n;
            try {
              perform(i, a, q);
            } catch (const std::exception &) {
              failed = true;
            }
            bool unused = g_left >= 0;
            g_left = -1;
            ++c.transitions;
            ++c.traces;
            contents(c, i);
            if (!failed && unused)
              break;
          }
          answers(c, i, a, e, q);
        });
}
void throwing(Ctx &c, const World &w, int first, int q, int other, int times, int then) {
  c.run([&] { return str(w.name, ": ", reqName(first), ", then a strategy throws ", times, " times during ", reqName(q), " and ", reqName(other), ", then ", reqName(then)); },
        [&] {
          Expected e(c, w);
          Instance i(w);
          Args a(i);
          perform(i, a, first);
          int left = 1 << 20;
          i.m.setLoopyPropagationStrategy(std::make_unique<Thrower>(left));
          for (int k = 0; k < times; ++k) {
            try {
              perform(i, a, k % 2 ? other : q);
            } catch (const std::runtime_error &) {
              ++c.extra["throws"];
            }
            ++c.transitions;
            contents(c, i);
          }
          i.m.setLoopyPropagationStrategy(std::make_unique<EFG::strct::BaselineLoopyPropagator>());
          // the last propagation that was completed is not of use any more
          auto g = perform(i, a, then);
          VF_REQUIRE(near(g, e.g[then], e.tol), "afterwards ", reqName(then), " gives ", showv(g.p), showv(g.x), " instead of ",
                     showv(e.g[then].p), showv(e.g[then].x));
          ++c.traces;
        });
}
} // namespace

int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    for (auto &w : worlds()) {
      bool tun = false, loopy = std::string(w.name).find("ring") == 0;
      for (auto &s : w.f)
        tun = tun || s.k == TUN;
      std::vector<std::vector<int>> warms{{}};
      warms.push_back({MARG});
      warms.push_back({HMAP});
      if (!w.ev.empty())
        warms.push_back({EVCHANGE});
      if (tun)
        warms.push_back({WCHANGE});
      warms.push_back({RELEASE});
      if (c.thorough()) {
        warms.push_back({SAMPLE});
        warms.push_back({MARG, HMAP});
        warms.push_back({HMAP, JOINT});
      }
      for (int q = 0; q < WARM; ++q) {
        if (q == GRAD && !tun)
          continue;
        for (auto &warm : warms)
          for (bool sticky : {false, true})
            if (c.thorough() || (q != MARGN && !(sticky && warm.size())))
              faults(c, w, warm, q, sticky);
        for (int other : {(int)MARG, (int)HMAP, (int)JOINT, (int)SAMPLE, (int)RELEASE, w.ev.empty() ? (int)RELEASE : (int)EVCHANGE})
          if (c.thorough() || (q != MARGN && other != SAMPLE))
            again(c, w, q, other);
      }
      if (loopy)
        for (int first : {MARG, MAPV, HMAP, JOINT, SAMPLE})
          for (int q : {MARG, MAPV, HMAP, JOINT})
            for (int other : {MARG, HMAP})
              for (int times : {1, 2, 3})
                for (int then : {MARG, MARGN, MAPV, HMAP, JOINT, SAMPLE})
                  throwing(c, w, first, q, other, times, then);
    }
  });
}
