// P09: every small graph with cycles and every evidence set. A fixed point of
// loopy belief propagation is recognised from the outside by its defining
// properties: pairwise and single beliefs are consistent with each other, and
// their combination re-parametrises the product of the factors.
#include "loopynet.hpp"
#include <EasyFactorGraph/structure/BaselineLoopyPropagator.h>

using namespace vf;

namespace {
void inference(Ctx &c, const Net &n, bool allEvidences) {
  unsigned top = allEvidences ? 1u << n.sizes.size() : 1;
  for (unsigned evs = 0; evs < top; ++evs)
    c.run(
        [&] {
          std::string s = str("net ", n.name, " strength", n.strength, " edges");
          for (auto &[a, b] : n.e)
            s += str(" ", a, "-", b);
          return s + str(" evidences ", evs);
        },
        [&] {
          c.state(mix(mix(1, n.name), (std::uint64_t)(evs * 8 + n.strength)));
          Built b(n);
          for (std::size_t v = 0; v < n.sizes.size(); ++v)
            if (evs >> v & 1) {
              b.m.setEvidence(b.u.ptr[v], (v + evs) % n.sizes[v]);
              b.r.ev[(int)v] = (v + evs) % n.sizes[v];
            }
          ++c.traces;
          checkBeliefs(c, b, 1, n);
          if (n.strength == 0)
            VF_REQUIRE(b.m.getLastPropagationResult().was_completed,
                       "weakly coupled model not solved");
          // MAP queries terminate and report the same structure
          b.m.getHiddenSetMAP();
          checkPropagationInfo(c, b.m, b.r, PropagationKind::MAP);
          checkBeliefs(c, b, 2, n);
          // change the evidences and come back
          int v0 = b.r.vars[0];
          if (b.r.ev.count(v0)) {
            b.m.removeEvidence(b.u.ptr[v0]);
            b.r.ev.erase(v0);
          } else {
            b.m.setEvidence(b.u.ptr[v0], 0);
            b.r.ev[v0] = 0;
          }
          checkBeliefs(c, b, 1, n);
          c.transitions += 6;
          c.extra[b.m.getLastPropagationResult().was_completed
                      ? "completed"
                      : "not_completed"]++;
        });
}

// the model is queried after every insertion; ev (if >= 0) is observed at step
// "from" and released at step "to"
void growing(Ctx &c, const Net &n) {
  int steps = (int)n.e.size();
  for (int ev = -1; ev < (int)n.sizes.size(); ++ev)
    for (int from = 1; from <= (ev < 0 ? 1 : steps); ++from)
      for (int map = 0; map < 2; ++map)
        c.run(
            [&] {
              std::string s = str("growing ", n.name, " strength", n.strength, " edges");
              for (auto &[a, b] : n.e)
                s += str(" ", a, "-", b);
              return s + str(" evidence ", ev, " at ", from, map ? " map" : "");
            },
            [&] {
              c.state(mix(mix(4, n.name), (std::uint64_t)((ev + 1) * 64 + from * 2 + map)));
              ++c.traces;
              int step = 0;
              Built b(n, [&](Built &x) {
                ++step;
                ++c.transitions;
                if (map) {
                  x.m.getHiddenSetMAP();
                  checkPropagationInfo(c, x.m, x.r, PropagationKind::MAP);
                }
                if (ev >= 0 && step == from && x.r.has(ev)) {
                  x.m.setEvidence(x.u.ptr[ev], 1);
                  x.r.ev[ev] = 1;
                } else if (step == steps && x.r.ev.count(ev)) {
                  x.m.removeEvidence(x.u.ptr[ev]);
                  x.r.ev.erase(ev);
                }
                checkBeliefs(c, x, 1 + step % 2, n);
              });
            });
}

void iterations(Ctx &c, const Net &n) {
  for (std::size_t th : {1, 2})
    c.run([&] { return str("iterations ", n.name, " strength", n.strength, " threads ", th); },
          [&] {
            c.state(mix(mix(2, n.name), (std::uint64_t)(n.strength + 4 * th)));
            ++c.traces;
            bool before = false;
            std::vector<float> last;
            for (std::size_t k : {0, 1, 2, 3, 4, 6, 9, 15, 30, 100, 400}) {
              Built b(n);
              b.m.setPropagationContext({k});
              VF_REQUIRE(b.m.getPropagationContext()
                                 .max_iterations_loopy_propagation == k,
                         "iterations not stored");
              checkBeliefs(c, b, th, n);
              bool done = b.m.getLastPropagationResult().was_completed;
              ++c.transitions;
              if (k < 2)
                VF_REQUIRE(!done, "completed after ", k, " iterations");
              VF_REQUIRE(done || !before, "completed with less iterations than ", k);
              before = done;
            }
            c.extra[before ? "converges" : "never_converges"]++;
          });
}

struct Spy : EFG::strct::LoopyBeliefPropagationStrategy {
  struct Log {
    std::vector<std::size_t> sizes;
    std::vector<PropagationKind> kinds;
    std::vector<std::size_t> iterations, pool;
    unsigned verdicts = 0;
  };
  std::shared_ptr<Log> log;
  EFG::strct::BaselineLoopyPropagator base;
  bool propagateBelief(EFG::strct::HiddenCluster &s, PropagationKind k,
                       const EFG::strct::PropagationContext &x,
                       EFG::strct::Pool &p) override {
    bool v = !(log->verdicts >> log->sizes.size() & 1);
    log->sizes.push_back(s.nodes.size());
    log->kinds.push_back(k);
    log->iterations.push_back(x.max_iterations_loopy_propagation);
    log->pool.push_back(p.size());
    base.propagateBelief(s, k, x, p);
    return v;
  }
};
void checkStructures(Built &b) {
  std::vector<RModel::Comp> got;
  for (auto &s : b.m.getLastPropagationResult().structures) {
    RModel::Comp x;
    x.nodes = s.size;
    x.edges = s.tree_or_loopy_graph ? s.size - 1 : s.size;
    got.push_back(x);
  }
  std::sort(got.begin(), got.end());
  VF_REQUIRE(got == b.r.components(), "reported structure");
}
void strategy(Ctx &c, const Net &n) {
  for (unsigned evs = 0; evs < (1u << n.sizes.size()); ++evs) {
    if (n.sizes.size() > 5 && evs % 5)
      continue;
    for (unsigned verdicts = 0; verdicts < 4; ++verdicts)
      c.run([&] { return str("strategy ", n.name, " evidences ", evs, " verdicts ", verdicts); },
            [&] {
              c.state(mix(mix(3, n.name), (std::uint64_t)(evs * 4 + verdicts)));
              ++c.traces;
              Built b(n);
              auto log = std::make_shared<Spy::Log>();
              auto spy = std::make_unique<Spy>();
              spy->log = log;
              b.m.setLoopyPropagationStrategy(std::move(spy));
              b.m.setPropagationContext({37});
              for (std::size_t v = 0; v < n.sizes.size(); ++v)
                if (evs >> v & 1) {
                  b.m.setEvidence(b.u.ptr[v], 0);
                  b.r.ev[(int)v] = 0;
                }
              auto expectCalls = [&](PropagationKind k, std::size_t threads,
                                     const char *when) {
                std::vector<std::size_t> exp;
                for (auto &x : b.r.components())
                  if (!x.tree())
                    exp.push_back(x.nodes);
                auto got = log->sizes;
                std::sort(got.begin(), got.end());
                std::sort(exp.begin(), exp.end());
                VF_REQUIRE(got == exp, when, ": strategy consulted for ",
                           showv(got), " expected ", showv(exp));
                bool all = true;
                for (std::size_t i = 0; i < got.size(); ++i) {
                  all = all && !(verdicts >> i & 1);
                  VF_REQUIRE(log->kinds[i] == k, when, ": kind");
                  VF_REQUIRE(log->iterations[i] == 37, when, ": context");
                  VF_REQUIRE(log->pool[i] == threads, when, ": pool of ",
                             log->pool[i]);
                }
                VF_REQUIRE(b.m.getLastPropagationResult().was_completed == all,
                           when, ": verdict");
                checkStructures(b);
                ++c.comparisons;
              };
              auto reset = [&] {
                log->sizes.clear();
                log->kinds.clear();
                log->iterations.clear();
                log->pool.clear();
                log->verdicts = verdicts;
                c.transitions++;
              };
              reset();
              b.m.getMarginalDistribution(b.u.ptr[0]);
              expectCalls(PropagationKind::SUM, 1, "first query");
              b.m.getMarginalDistribution(b.u.ptr[b.r.vars.back()]);
              expectCalls(PropagationKind::SUM, 1, "repeated query");
              reset();
              b.m.getHiddenSetMAP(3);
              expectCalls(PropagationKind::MAP, 3, "MAP query");
              reset();
              int v = b.r.vars[0];
              if (b.r.ev.count(v)) {
                b.m.removeEvidence(b.u.ptr[v]);
                b.r.ev.erase(v);
              } else {
                b.m.setEvidence(b.u.ptr[v], 0);
                b.r.ev[v] = 0;
              }
              b.m.getMarginalDistribution(b.u.ptr[0], 2);
              expectCalls(PropagationKind::SUM, 2, "after an evidence change");
            });
  }
}
} // namespace

int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    auto nets = smallNets(c.pick(4, 5)), big = bigNets();
    for (auto &n : nets)
      inference(c, n, true);
    for (auto &n : big)
      inference(c, n, c.thorough() || n.sizes.size() <= 6);
    for (auto &n : nets)
      if (n.strength == 1 && (c.thorough() || n.sizes.size() < 4 || n.e.size() < 5))
        growing(c, n);
    for (auto &n : big)
      if (n.strength == 1 && n.sizes.size() <= 6)
        growing(c, n);
    for (auto &n : nets)
      if (n.sizes.size() <= 4)
        iterations(c, n);
    for (auto &n : big)
      iterations(c, n);
    for (auto &n : nets)
      if (n.strength == 0 && n.sizes.size() <= 4)
        strategy(c, n);
    for (auto &n : big)
      if (n.strength == 1 && n.sizes.size() <= 9)
        strategy(c, n);
  });
}
