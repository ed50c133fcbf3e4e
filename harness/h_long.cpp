// P04 P06 P07 P08 P14 P15: long histories. Every pair of operations repeated
// hundreds of times with a check each time, and every pair of changes
// alternated K times between two queries, for K around the powers of two.
#include "tmodel.hpp"

using namespace vf;

namespace {
enum Op { E00, E01, E21, E20, RALL, R0, WA, WB, SUM, MAPQ, JOINT, SAMPLE, GRAD, ADD, OPS };
const char *oname[] = {"V0=0", "V0=1", "V2=1", "V2=0", "release all", "release V0", "weights A", "weights B", "marginal", "MAP", "joint", "sample", "gradient",
                       "add"};
bool change(int o) { return o <= WB; }
std::vector<FSpec> specs() {
  return {{{0, 1}, TUN, 1, 0.5, {}}, {{2, 1}, TUN, 2, 0.5, {0, 1}}, {{2, 3}, TAB, 3, 1, {}}, {{1}, TUN, 4, -0.4, {}}, {{3}, TAB, 5, 1, {}}};
}
const std::vector<std::size_t> sizes{2, 3, 2, 2};

struct Live {
  Ctx &c;
  TModel x;
  int weights = 0;
  std::size_t extra = 0; // variables added
  std::map<std::vector<int>, RModel::Answers> memo;
  std::map<std::vector<int>, Dist> joints;
  std::map<int, std::vector<double>> grads;
  std::vector<Comb> samples;
  explicit Live(Ctx &c) : c(c), x(sizes, specs()) { samples = {{0, 2, 1, 0}, {1, 0, 1, 1}, {1, 1, 0, 0}}; }
  std::vector<int> key() const {
    std::vector<int> k{weights};
    for (int v = 0; v < 4; ++v)
      k.push_back(x.t.r.ev.count(v) ? (int)x.t.r.ev.at(v) : -1);
    return k;
  }
  const RModel::Answers &answers() {
    auto k = key();
    auto it = memo.find(k);
    if (it == memo.end())
      it = memo.emplace(k, x.t.r.solve()).first;
    return it->second;
  }
  // the gradient of a random field is free to keep the evidences or not
  void synch() {
    x.t.r.ev.clear();
    for (auto &[v, val] : x.m.getEvidences())
      x.t.r.ev[x.u.idOf(v)] = val;
  }
  void apply(int o) {
    auto &m = x.m;
    auto &u = x.u;
    auto &r = x.t.r;
    ++c.transitions;
    auto ev = [&](int v, int val) {
      m.setEvidence(u.ptr[v], val);
      r.ev[v] = val;
    };
    switch ((Op)o) {
    case E00:
      return ev(0, 0);
    case E01:
      return ev(0, 1);
    case E21:
      return ev(2, 1);
    case E20:
      return ev(2, 0);
    case RALL:
      m.removeAllEvidences();
      r.ev.clear();
      return;
    case R0:
      if (r.ev.count(0)) {
        m.removeEvidence(u.ptr[0]);
        r.ev.erase(0);
      }
      return;
    case WA:
    case WB: {
      weights = o == WA ? 1 : 2;
      std::vector<double> w = o == WA ? std::vector<double>{0.9, 0.3} : std::vector<double>{-0.7, 0.8};
      m.setWeights({(float)w[0], (float)w[1]});
      x.t.setWeights(w);
      return;
    }
    case SUM:
      m.getMarginalDistribution(u.ptr[1]);
      return;
    case MAPQ:
      m.getMAP(u.ptr[1]);
      return;
    case JOINT:
      m.getJointMarginalDistribution(cat::Group{u.soup({1, 0})});
      return;
    case SAMPLE: {
      EFG::strct::GibbsSampler::SamplesGenerationContext s;
      s.samples_number = 1;
      s.delta_iterations = 1;
      s.transient = 0;
      s.seed = 5;
      m.makeSamples(s, 1);
      return;
    }
    case GRAD: {
      TrainSet set{toModelOrder(m, u, samples)};
      m.getWeightsGradient(set.makeIterator());
      synch();
      return;
    }
    default:
      return;
    }
  }
  void check(const std::string &when) {
    auto &m = x.m;
    auto &u = x.u;
    auto &r = x.t.r;
    ++c.comparisons;
    try {
      if (c.prop == "P04") {
        checkStructure(c, m, r, u);
        m.getMarginalDistribution(u.ptr[3]);
        checkPropagationInfo(c, m, r, EFG::strct::PropagationKind::SUM);
      } else if (c.prop == "P06" || c.prop == "P14") {
        checkMarginals(c, m, r, u, answers());
        if (c.prop == "P14") {
          auto w = m.getWeights();
          VF_REQUIRE(w.size() == 2 && std::fabs(w[0] - x.t.weights[0]) < 1e-6 && std::fabs(w[1] - x.t.weights[1]) < 1e-6, "weights are ", showv(w));
        }
      } else if (c.prop == "P07")
        checkMap(c, m, r, u, answers());
      else if (c.prop == "P08") {
        for (auto &g : std::vector<std::vector<int>>{{0, 1}, {2, 1}, {3, 2, 1}}) {
          auto k = key();
          k.insert(k.end(), g.begin(), g.end());
          auto it = joints.find(k);
          if (it == joints.end())
            it = joints.emplace(k, r.joint(g)).first;
          auto got = m.getJointMarginalDistribution(cat::Group{u.soup(g)}).getProbabilities();
          VF_REQUIRE(close(got, it->second), "joint of ", showv(g), " is ", showv(got), " expected ", vf::show(it->second));
        }
      } else if (c.prop == "P15") {
        auto it = grads.find(weights);
        if (it == grads.end())
          it = grads.emplace(weights, x.t.gradient(samples, {})).first;
        TrainSet set{toModelOrder(m, u, samples)};
        auto got = m.getWeightsGradient(set.makeIterator());
        VF_REQUIRE(closeG(got, it->second), "gradient is ", showv(got), " expected ", vf::show(it->second));
        synch();
      }
    } catch (const Violation &v) {
      fail(when, ": ", v.what());
    }
  }
};
} // namespace

int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    const int reps = c.pick(300, 1100);
    for (int a = 0; a < ADD; ++a)
      for (int b = 0; b < ADD; ++b) {
        if (c.prop == "P15" && !c.thorough() && (a * 3 + b) % 3)
          continue;
        c.run([&] { return str("[", oname[a], ", ", oname[b], ", check] ", reps, " times"); },
              [&] {
                Live l(c);
                l.check("fresh");
                for (int k = 0; k < reps; ++k) {
                  l.apply(a);
                  l.apply(b);
                  l.check(str("repetition ", k));
                }
                c.state(mix(mix(3, (std::uint64_t)a), (std::uint64_t)b));
                c.outcome(mix(mix(4, (std::uint64_t)a), (std::uint64_t)b));
                ++c.traces;
              });
      }
    // K changes between two checks
    for (int a = 0; a < OPS - 1; ++a)
      for (int b = a; b < OPS - 1; ++b)
        for (int third = 0; third < 3; ++third) {
          if (!change(a) && !change(b))
            continue;
          if (third && !(change(a) && change(b)))
            continue;
          c.run([&] { return str(oname[a], " and ", oname[b], " alternated K times", third == 1 ? " after V0=1" : third == 2 ? " after V2=1" : "", " between two checks"); },
                [&] {
                  Live l(c);
                  l.check("fresh");
                  if (third)
                    l.apply(third == 1 ? E01 : E21);
                  std::vector<int> ks;
                  for (int k = 1; k <= 20; ++k)
                    ks.push_back(k);
                  for (int p : {32, 64, 128, 256, 512, 1024})
                    for (int d = -2; d <= 2; ++d)
                      ks.push_back(p + d);
                  if (c.thorough() || (a <= E01 && b <= E21) || (a == WA && b == WB))
                    for (int d = -1; d <= 1; ++d)
                      if (change(a) && change(b))
                        ks.push_back(65536 + d);
                  for (int k : ks) {
                    l.check(str("before ", k, " changes"));
                    for (int q = 0; q < k; ++q)
                      l.apply((q + k) % 2 ? a : b);
                    l.check(str("after ", k, " changes"));
                  }
                  c.state(mix(mix(mix(5, (std::uint64_t)a), (std::uint64_t)b), (std::uint64_t)third));
                  c.outcome(mix(mix(6, (std::uint64_t)a), (std::uint64_t)b));
                  ++c.traces;
                });
        }
  });
}
