// P24: train_model with every optimiser of a bounded set (a script of requests
// on the adapter), against the reference gradient.
#include "tmodel.hpp"
#include <EasyFactorGraph/trainable/ModelTrainer.h>

using namespace vf;
namespace {
// answers of rand(), base of the subsets drawn for the stochastic option
std::vector<int> script;
std::size_t scriptPos = 0;
} // namespace
extern "C" int rand() {
  int r = script.empty() ? 0 : script[scriptPos % script.size()];
  ++scriptPos;
  return r;
}
namespace {
enum Op { GET, GRAD, SETA, SETB, STEP, BACK, THROW };
const char *oname[] = {"read", "gradient", "setA", "setB", "step", "setBack", "throw"};
struct Stop : std::runtime_error {
  using std::runtime_error::runtime_error;
};

struct World {
  std::string name;
  std::vector<std::size_t> sizes;
  std::vector<FSpec> fs;
  std::set<int> obs; // observed variables: a conditional field is trained
};
struct Subject {
  TModel src;
  std::unique_ptr<ConditionalRandomField> crf;
  std::set<int> obs;
  Subject(const World &w) : src(w.sizes, w.fs), obs(w.obs) {
    if (!obs.empty()) {
      for (int v : obs)
        src.m.setEvidence(src.u.ptr[v], (std::size_t)0);
      crf = std::make_unique<ConditionalRandomField>(src.m, true);
    }
  }
  EFG::train::FactorsTunableGetter &get() {
    if (crf)
      return *crf;
    return src.m;
  }
  std::vector<Comb> order(const std::vector<Comb> &s) {
    return crf ? toModelOrder(*crf, src.u, s) : toModelOrder(src.m, src.u, s);
  }
};
std::vector<Comb> theSet(const World &w, std::size_t n) {
  std::vector<Comb> r;
  std::size_t tot = prod(w.sizes);
  for (std::size_t k = 0; k < n; ++k)
    r.push_back(unflat(hash32((unsigned)k * 13 + 3) % tot, w.sizes));
  return r;
}

// an optimiser that plays a script and checks what the adapter tells it
struct Scripted : ::train::Trainer {
  Ctx &c;
  Subject &s;
  const std::vector<int> &ops;
  const std::vector<Comb> &samples;
  std::size_t part; // samples per gradient, 0: the whole set
  std::vector<double> first;
  std::vector<::train::Vect> gradients;

  Scripted(Ctx &c, Subject &s, const std::vector<int> &ops, const std::vector<Comb> &samples, std::size_t part)
      : c(c), s(s), ops(ops), samples(samples), part(part) {}

  void expectParameters(const ::train::Vect &v) {
    VF_REQUIRE((std::size_t)v.size() == s.src.t.weights.size(), v.size(), " parameters");
    for (std::size_t k = 0; k < s.src.t.weights.size(); ++k)
      VF_REQUIRE(std::fabs(v((Eigen::Index)k) - s.src.t.weights[k]) < 1e-5, "parameter ", k, " is ", v((Eigen::Index)k), " expected ",
                 s.src.t.weights[k]);
    ++c.comparisons;
  }
  bool fits(const ::train::Vect &g, const std::vector<Comb> &set) {
    auto e = s.src.t.gradient(set, s.obs);
    if ((std::size_t)g.size() != e.size())
      return false;
    for (std::size_t k = 0; k < e.size(); ++k)
      if (!(std::fabs(g((Eigen::Index)k) + e[k]) <= 1e-3 * (1 + std::fabs(e[k]))))
        return false;
    return true;
  }
  void expectGradient(const ::train::Vect &g) {
    ++c.comparisons;
    std::string shown;
    for (Eigen::Index k = 0; k < g.size(); ++k)
      shown += str(" ", g(k));
    if (part == 0) {
      VF_REQUIRE(fits(g, samples), "the optimiser got", shown, " instead of the opposite of ", ::vf::show(s.src.t.gradient(samples, s.obs)));
      return;
    }
    // some multiset of the requested size explains it
    std::vector<std::size_t> pick(part, 0);
    while (true) {
      std::vector<Comb> set;
      for (auto p : pick)
        set.push_back(samples[p]);
      if (fits(g, set))
        return;
      std::size_t k = 0;
      for (; k < part; ++k) {
        if (++pick[k] < samples.size()) {
          for (std::size_t q = 0; q < k; ++q)
            pick[q] = pick[k]; // multisets only
          break;
        }
      }
      VF_REQUIRE(k < part, "no subset of ", part, " samples explains the gradient", shown);
    }
  }
  void set(::train::ParametersAware &m, const std::vector<double> &w) {
    ::train::Vect v((Eigen::Index)w.size());
    for (std::size_t k = 0; k < w.size(); ++k)
      v((Eigen::Index)k) = w[k];
    m.setParameters(v);
    s.src.t.setWeights(w);
  }
  void train(::train::ParametersAware &m) override {
    first = s.src.t.weights;
    std::uint64_t h = 11;
    for (int o : ops) {
      ++c.transitions;
      h = mix(h, (std::uint64_t)o);
      c.state(h);
      std::vector<double> w;
      switch ((Op)o) {
      case GET:
        expectParameters(m.getParameters());
        break;
      case GRAD: {
        auto g = m.getGradient();
        expectGradient(g);
        for (Eigen::Index k = 0; k < g.size(); ++k)
          c.outcome(mix(3, (std::uint64_t)(std::int64_t)(g(k) * 1000)));
        gradients.push_back(g);
      } break;
      case SETA:
      case SETB:
        for (std::size_t k = 0; k < first.size(); ++k)
          w.push_back(o == SETA ? 0.5 - 0.75 * k : -0.25 + 0.5 * k);
        set(m, w);
        break;
      case STEP: {
        auto p = m.getParameters();
        auto g = m.getGradient();
        expectParameters(p);
        expectGradient(g);
        for (Eigen::Index k = 0; k < p.size(); ++k)
          w.push_back((double)(float)(p(k) - 0.4 * g(k)));
        set(m, w);
      } break;
      case BACK:
        set(m, first);
        break;
      case THROW:
        throw Stop("given up");
      }
    }
  }
};
void after(Ctx &c, Subject &s) {
  auto w = s.get().getWeights();
  VF_REQUIRE(w.size() == s.src.t.weights.size(), "weights");
  for (std::size_t k = 0; k < w.size(); ++k)
    VF_REQUIRE(std::fabs(w[k] - s.src.t.weights[k]) < 1e-5, "weight ", k, " is ", w[k], " after the training, expected ", s.src.t.weights[k]);
  // the model answers according to them
  auto ask = [&](auto &m) {
    auto r = s.src.t.r;
    r.ev.clear();
    for (auto &[v, x] : m.getEvidences())
      r.ev[s.src.u.idOf(v)] = x;
    auto a = r.solve();
    checkMarginals(c, m, r, s.src.u, a);
  };
  if (s.crf) {
    ask(*s.crf);
  } else {
    s.src.m.removeAllEvidences();
    ask(s.src.m);
  }
  ++c.comparisons;
}
std::vector<World> worlds() {
  return {
      {"chain", {2, 3, 2}, {{{0, 1}, TUN, 1, 0.5}, {{2, 1}, TUN, 2, -0.4}, {{0}, TUN, 3, 0.8}, {{1}, TAB, 4}}, {}},
      {"shared", {2, 2, 3}, {{{0, 1}, TUN, 1, 0.5}, {{1, 2}, TUN, 2, -0.4, {0, 1}}, {{2}, TUN, 3, 0.8}}, {}},
      {"field", {3, 2, 2}, {{{0, 1}, TUN, 1, 0.5}, {{2, 0}, TUN, 2, -0.4}, {{0}, TUN, 3, 0.2}}, {1, 2}},
      {"field with shared", {2, 3, 2, 2}, {{{0, 1}, TUN, 1, 0.5}, {{2, 1}, TUN, 2, -0.4, {0, 1}}, {{1, 3}, TUN, 5, 0.3}, {{3}, TAB, 6}}, {0}},
  };
}
std::string show(const std::vector<int> &ops) {
  std::string s;
  for (int o : ops)
    s += str(" ", oname[o]);
  return s;
}
} // namespace
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    const int depth = c.pick(4, 6);
    // the whole set
    for (auto &w : worlds())
      for (std::size_t threads : {1, 2, 3}) {
        std::vector<int> ops;
        std::function<void()> rec = [&] {
          c.run([&] { return str(w.name, ", ", threads, " threads, optimiser:", show(ops)); },
                [&] {
                  ++c.traces;
                  Subject s(w);
                  auto samples = theSet(w, 5);
                  EFG::train::TrainSet set(s.order(samples));
                  EFG::train::TrainInfo info;
                  info.threads = threads;
                  Scripted t(c, s, ops, samples, 0);
                  bool stopped = false;
                  try {
                    EFG::train::train_model(s.get(), t, set, info);
                  } catch (const Stop &) {
                    stopped = true;
                  }
                  VF_REQUIRE(stopped == (!ops.empty() && ops.back() == THROW), "exception of the optimiser");
                  after(c, s);
                  // train it again, on other samples
                  auto other = theSet(w, 3);
                  EFG::train::TrainSet set2(s.order(other));
                  std::vector<int> again{GRAD, SETB, STEP};
                  Scripted t2(c, s, again, other, 0);
                  EFG::train::train_model(s.get(), t2, set2);
                  after(c, s);
                });
          int limit = depth - (int)threads + 1;
          if ((int)ops.size() >= limit || (!ops.empty() && ops.back() == THROW))
            return;
          for (int o = GET; o <= THROW; ++o) {
            ops.push_back(o);
            rec();
            ops.pop_back();
          }
        };
        rec();
      }
    // long trainings
    for (auto &w : worlds())
      for (std::size_t threads : {1, 2})
        for (std::vector<int> body : {std::vector<int>{STEP}, {GRAD}, {SETA, GRAD, SETB, GRAD}, {GET, GRAD, GRAD, STEP, BACK}})
          c.run([&] { return str(w.name, ", ", threads, " threads, optimiser repeating ", 300 / threads, " times:", show(body)); },
                [&] {
                  ++c.traces;
                  Subject s(w);
                  auto samples = theSet(w, 3);
                  EFG::train::TrainSet set(s.order(samples));
                  EFG::train::TrainInfo info;
                  info.threads = threads;
                  std::vector<int> ops;
                  for (std::size_t k = 0; k < 300 / threads; ++k)
                    ops.insert(ops.end(), body.begin(), body.end());
                  Scripted t(c, s, ops, samples, 0);
                  EFG::train::train_model(s.get(), t, set, info);
                  after(c, s);
                });
    // parts of the set: every sequence of random answers
    for (auto &w : worlds())
      for (std::size_t threads : {1, 2})
        for (std::size_t part : {1, 2, 3}) {
          std::vector<std::vector<int>> scripts{{GRAD, SETA, GRAD}, {STEP, STEP}, {GET, GRAD, GRAD, SETB}};
          for (auto &ops : scripts)
            c.run([&] { return str(w.name, ", ", threads, " threads, ", part, " samples out of 4, optimiser:", show(ops)); },
                  [&] {
                    bool changed = false;
                    std::set<std::string> seen;
                    std::size_t draws = part * 2, tot = 1;
                    for (std::size_t k = 0; k < draws; ++k)
                      tot *= 4;
                    for (std::size_t q = 0; q < tot; q += c.thorough() || tot <= 256 ? 1 : 7) {
                      script.clear();
                      std::size_t x = q;
                      for (std::size_t k = 0; k < draws; ++k, x /= 4)
                        script.push_back((int)(x % 4));
                      scriptPos = 0;
                      Subject s(w);
                      std::vector<Comb> samples;
                      for (std::size_t k = 0; k < 4; ++k)
                        samples.push_back(unflat((k * 5 + 1) % prod(w.sizes), w.sizes));
                      EFG::train::TrainSet set(s.order(samples));
                      EFG::train::TrainInfo info;
                      info.threads = threads;
                      info.stochastic_percentage = 0.25f * part;
                      Scripted t(c, s, ops, samples, part);
                      EFG::train::train_model(s.get(), t, set, info);
                      after(c, s);
                      ++c.traces;
                      if (t.gradients.size() == 2 && ops[1] == GRAD && !t.gradients[0].isApprox(t.gradients[1], 1e-4))
                        changed = true;
                    }
                    if (ops[1] == GRAD)
                      VF_REQUIRE(changed, "the same samples are used at every step");
                  });
        }
    for (auto &w : worlds())
      for (float p : {0.f, -0.5f, 1.5f, 2.f})
        c.run([&] { return str(w.name, ", percentage ", p); },
              [&] {
                Subject s(w);
                auto samples = theSet(w, 5);
                EFG::train::TrainSet set(s.order(samples));
                EFG::train::TrainInfo info;
                info.stochastic_percentage = p;
                std::vector<int> ops{GRAD};
                Scripted t(c, s, ops, samples, 1);
                bool refused = false;
                try {
                  EFG::train::train_model(s.get(), t, set, info);
                } catch (const EFG::Error &) {
                  refused = true;
                }
                VF_REQUIRE(refused, "percentage accepted");
                after(c, s);
                ++c.traces;
              });
    for (auto &w : worlds())
      c.run([&] { return str(w.name, ", weights set to one"); },
            [&] {
              Subject s(w);
              EFG::train::set_ones(s.get());
              s.src.t.setWeights(std::vector<double>(s.src.t.weights.size(), 1.));
              after(c, s);
              ++c.traces;
            });
  });
}
