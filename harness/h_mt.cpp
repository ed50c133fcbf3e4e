// P10, P12 and P22: the real multi-threaded requests under every interleaving
// (up to a bound) of their threads.
#include "mtcommon.hpp"

namespace {
void queries(Ctx &c) {
  Exec go{c};
  auto all = shapes();
  // ---- every graph of up to 4 variables, many thread counts, default schedule
  for (int n = 2; n <= c.pick(4, 5); ++n)
    for (auto &g : allGraphs(n)) {
      if (n == 5 && !isForest(n, g))
        continue;
      for (int evs = 0; evs < 2; ++evs) {
        Shape s;
        s.name = str(n, " variables, edges");
        s.sizes.assign(n, 2);
        for (auto &[a, b] : g) {
          s.f.push_back(weak({a, b}, a * 5 + b));
          s.name += str(" ", a, b);
        }
        for (int v = 0; v < n; ++v)
          s.f.push_back(v % 2 ? weak({v}, 60 + v, -0.4) : tab({v}, 50 + v));
        if (evs) {
          s.ev[0] = 1;
          s.name += " one observed";
        }
        for (std::size_t th : {2, 3, 5, 9})
          go(str(s.name, ", ", th, " threads, default schedule"), {0, 1}, [=] {
            auto f = fix(s);
            return [=] {
              askMarginals(f->t->m, f->t->u, f->e, th);
              askMap(f->t->m, f->t->u, f->e, th);
            };
          });
      }
    }
  // ---- loopy models up to nearly deterministic, fixed point whatever the number of threads
  auto fixedPoint = [&](const Net &n, unsigned evs, std::size_t th) {
    std::string name = str("net ", n.name, " strength ", n.strength, " edges");
    for (auto &[a, b] : n.e)
      name += str(" ", a, "-", b);
    go(str(name, " observed ", evs, ", ", th, " threads, default schedule"), {0, 1}, [=] {
      auto b = std::make_shared<Built>(n);
      b->m.setPropagationContext({40});
      for (std::size_t v = 0; v < n.sizes.size(); ++v)
        if (evs >> v & 1) {
          b->m.setEvidence(b->u.ptr[v], (v + evs) % n.sizes[v]);
          b->r.ev[(int)v] = (v + evs) % n.sizes[v];
        }
      return [=] {
        Ctx dummy;
        try {
          checkBeliefs(dummy, *b, th, n);
          if (n.strength == 0 && !b->m.getLastPropagationResult().was_completed)
            fail("weakly coupled model not solved");
        } catch (const Violation &x) {
          vs::fail(x.what());
        }
        noThreads();
      };
    });
  };
  for (auto &n : smallNets(4))
    for (unsigned evs = 0; evs < (1u << n.sizes.size()); ++evs)
      for (std::size_t th : {2, 3, 4, 5, 8})
        if (c.thorough() || n.strength == 2 || (evs + th) % 4 == 0)
          fixedPoint(n, evs, th);
  for (auto &n : bigNets())
    for (unsigned evs : {0u, 8u, 33u})
      for (std::size_t th : {2, 3, 5, 11})
        if (n.sizes.size() < 9 || (c.thorough() && n.sizes.size() < 12))
          fixedPoint(n, evs & ((1u << n.sizes.size()) - 1), th);
  // ---- bigger forests, default schedule
  for (int n : {9, 20, 47, 90})
    for (int kind = 0; kind < 4; ++kind)
      for (int evs = 0; evs < 2; ++evs) {
        Shape s;
        s.name = str(kind == 0 ? "chain" : kind == 1 ? "star" : kind == 2 ? "tree" : "islands", " of ", n);
        for (int v = 0; v < n; ++v)
          s.sizes.push_back(2 + v % 3 % 2);
        for (int v = 1; v < n; ++v) {
          int a = kind == 0 ? v - 1 : kind == 1 ? 0 : kind == 2 ? (v - 1) / 3 : v - 1;
          if (kind == 3 && v % 4 == 0)
            continue;
          s.f.push_back(v % 3 ? weak(v % 2 ? std::vector<int>{a, v} : std::vector<int>{v, a}, v) : tab({a, v}, v));
        }
        for (int v = 0; v < n; v += 1 + evs)
          s.f.push_back(v % 2 ? weak({v}, 600 + v, -0.4) : tab({v}, 500 + v));
        if (kind == 3 && evs)
          for (int v = 1; v < n; v += 2)
            s.f.push_back(tab({v}, 800 + v));
        if (evs) {
          s.name += " some observed";
          for (int v = 2; v < n; v += 7)
            s.ev[v] = 1;
        }
        for (std::size_t th : {2, 3, 8, 13})
          go(str(s.name, ", ", th, " threads, default schedule"), {0, 1}, [=] {
            auto f = fix(s);
            auto twin = make(s);
            auto set = std::make_shared<TrainSet>(toModelOrder(twin->m, twin->u, someSamples(twin->u, 5)));
            std::vector<float> exp;
            if (s.ev.empty())
              exp = twin->m.getWeightsGradient(set->makeIterator(), 1);
            return [=] {
              auto &m = f->t->m;
              auto &u = f->t->u;
              m.getMarginalDistribution(u.ptr[0], th);
              noThreads();
              askMarginals(m, u, f->e, 1);
              askMap(m, u, f->e, th);
              if (s.ev.empty())
                same(m.getWeightsGradient(set->makeIterator(), th), exp, 1e-4, "gradient");
              noThreads();
              m.setEvidence(u.ptr[0], 1);
              m.getMarginalDistribution(u.ptr[1], th);
              m.removeEvidence(u.ptr[0]);
              for (int v : {0, (int)s.sizes.size() / 2, (int)s.sizes.size() - 1})
                same(m.getMarginalDistribution(u.ptr[v], th), f->e.marg.at(v), 2e-5, "marginal asked again");
            };
          });
      }
  // ---- the same model asked hundreds of times
  for (auto &s : all)
    for (int how = 0; how < 3; ++how)
      go(str(s.name, ", requests repeated 270 times ", how, ", default schedule"), {0, 1}, [=] {
        auto f = fix(s);
        return [=] {
          auto &m = f->t->m;
          auto &u = f->t->u;
          for (int k = 0; k < 270; ++k) {
            std::size_t th = how == 0 ? 2 : 1 + k % 3;
            auto v = f->e.marg.begin()->first;
            same(m.getMarginalDistribution(u.ptr[v], th), f->e.marg.at(v), f->e.forest ? 2e-5 : 5e-3, str("marginal ", k));
            if (how > 0)
              askMap(m, u, f->e, th);
            if (how > 1 && k % 5 == 0) {
              m.makeSamples(SC{1, 1, 3, 0}, th);
              m.setWeights(m.getWeights());
            }
          }
          noThreads();
        };
      });
  // ---- interleavings
  for (auto &s : all) {
    bool heavy = (s.name == "square" || s.name == "triangle") && !c.thorough();
    bool small = s.sizes.size() <= 3 && s.name != "triangle";
    bool loopy = s.name == "triangle" || s.name == "square";
    for (std::size_t th : {2, 3}) {
      if (heavy && th == 3 && s.name == "square")
        continue;
      Bound b{th == 2 ? c.pick(small ? 2 : 1, small ? 3 : 2) : c.pick(1, small ? 2 : 1), th == 2 ? 0 : 1, 8u};
      if (loopy)
        b = {c.pick(1, th == 2 ? 2 : 1), 1, 8u, c.pick(60000L, 600000L)};
      go(str(s.name, ": one marginal query, ", th, " threads"), b, [=] {
        auto f = fix(s);
        return [=] {
          auto v = f->e.marg.begin()->first;
          auto got = f->t->m.getMarginalDistribution(f->t->u.ptr[v], th);
          noThreads();
          same(got, f->e.marg.at(v), f->e.forest ? 2e-5 : 5e-3, "marginal");
          // the other ones were computed at the same time
          askMarginals(f->t->m, f->t->u, f->e, 1);
        };
      });
      go(str(s.name, ": MAP query, ", th, " threads"), b, [=] {
        auto f = fix(s);
        return [=] { askMap(f->t->m, f->t->u, f->e, th); };
      });
    }
    // thread count changes along a history of requests
    if (!heavy)
      go(str(s.name, ": marginals, MAP, evidence, marginals, with 2, 3, 1 and 2 threads"), Bound{1, 1, 8u, c.pick(20000L, 400000L)}, [=] {
      auto f = fix(s);
      int v = (int)s.sizes.size() - 1;
      Shape s2 = s;
      s2.ev[v] = 1;
      auto f2 = fix(s2);
      return [=] {
        auto &m = f->t->m;
        auto &u = f->t->u;
        m.getMarginalDistribution(u.ptr[0], 2);
        noThreads();
        askMarginals(m, u, f->e, 1);
        askMap(m, u, f->e, 3);
        m.setEvidence(u.ptr[v], 1);
        m.getMarginalDistribution(u.ptr[0], 1);
        askMarginals(m, u, f2->e, 2);
        m.removeEvidence(u.ptr[v]);
        m.getMarginalDistribution(u.ptr[0], 2);
        askMarginals(m, u, f->e, 1);
      };
    });
    // joint
    go(str(s.name, ": joint of the first factor, 2 threads"), Bound{1, 0, 4u}, [=] {
      auto f = fix(s);
      auto twin = make(s);
      cat::Group g{twin->u.soup(s.f[0].v)};
      auto exp = twin->m.getJointMarginalDistribution(g, 1).getProbabilities();
      return [=] {
        auto got = f->t->m.getJointMarginalDistribution(cat::Group{f->t->u.soup(s.f[0].v)}, 2).getProbabilities();
        noThreads();
        same(got, exp, f->e.forest ? 2e-5 : 5e-3, "joint");
      };
    });
    // gradient of a random field
    if (s.ev.empty())
      for (std::size_t th : {2, 3})
        if (!(heavy && th == 3))
        go(str(s.name, ": gradient, ", th, " threads"), Bound{th == 2 ? c.pick(1, 2) : 1, 1, 8u, c.pick(30000L, 400000L)}, [=] {
          auto f = fix(s);
          auto twin = make(s);
          auto samples = someSamples(twin->u, 3);
          auto set = std::make_shared<TrainSet>(toModelOrder(twin->m, twin->u, samples));
          auto w = twin->m.getWeights();
          auto exp = twin->m.getWeightsGradient(set->makeIterator(), 1);
          auto w2 = w;
          for (auto &x : w2)
            x += 0.1f;
          twin->m.setWeights(w2);
          auto exp2 = twin->m.getWeightsGradient(set->makeIterator(), 1);
          return [=] {
            auto it = set->makeIterator();
            auto g1 = f->t->m.getWeightsGradient(it, th);
            noThreads();
            same(g1, exp, f->e.forest ? 2e-5 : 1e-2, "gradient");
            f->t->m.setWeights(w2);
            auto g2 = f->t->m.getWeightsGradient(it, th);
            noThreads();
            same(g2, exp2, f->e.forest ? 2e-5 : 1e-2, "second gradient");
          };
        });
    // gradient of a conditional field
    if (!s.ev.empty())
      for (std::size_t th : {2, 3})
        go(str(s.name, ": conditional gradient, ", th, " threads"), Bound{1, 1, 8u, c.pick(20000L, 400000L)}, [=] {
          auto f = fix(s);
          auto m = std::make_shared<ConditionalRandomField>(f->t->m, false);
          auto twin = std::make_shared<ConditionalRandomField>(f->t->m, true);
          auto samples = someSamples(f->t->u, 2);
          auto set = std::make_shared<TrainSet>(toModelOrder(*twin, f->t->u, samples));
          auto exp = twin->getWeightsGradient(set->makeIterator(), 1);
          return [=] {
            auto it = set->makeIterator();
            auto g1 = m->getWeightsGradient(it, th);
            noThreads();
            same(g1, exp, 2e-5, "gradient");
          };
        });
  }
}

void sampling(Ctx &c) {
  Exec go{c};
  for (auto &s : shapes())
    for (std::size_t th : {2, 3})
      for (int warm = 0; warm < 2; ++warm) {
        if (warm && th == 3)
          continue;
        std::size_t n = 2;
        Bound b{c.pick(1, 2), th == 2 ? 0 : 1, 8u, c.pick(20000L, 400000L)};
        go(str(s.name, ": samples with a seed, ", th, " threads", warm ? ", after a query" : ""), b,
           [=] {
             auto f = fix(s);
             if (warm)
               f->t->m.getMarginalDistribution(f->t->u.ptr[0], 1);
             return [=] {
               SC ctx;
               ctx.samples_number = n;
               ctx.delta_iterations = 1;
               ctx.transient = 1;
               ctx.seed = 11;
               auto a = f->t->m.makeSamples(ctx, th);
               noThreads();
               wellFormed(a, f->t->m, f->t->u, n, s.ev);
               auto w = f->t->m.makeSamples(ctx, th);
               noThreads();
               if (a != w)
                 vs::fail("the same request gives other samples");
               std::uint64_t h = 5;
               for (auto &x : a)
                 for (auto v : x)
                   h = mix(h, v);
               vs::outcome(h);
               askMarginals(f->t->m, f->t->u, f->e, 1);
               askMap(f->t->m, f->t->u, f->e, 1);
               if (f->t->m.getEvidences().size() != s.ev.size())
                 vs::fail("the evidences changed");
             };
           },
           true);
      }
  // more iterations, default schedule, more threads; bigger models
  auto more = shapes();
  const std::size_t small = more.size();
  more.push_back({"many values", {300, 2, 3}, {weak({0, 1}, 3), tab({2, 1}, 4)}, {}});
  more.push_back({"many observed values", {300, 3, 260}, {weak({0, 1}, 3), tab({2, 1}, 4)}, {{0, 299}, {2, 257}}});
  for (std::size_t len : {20, 70}) {
    Shape ch{str("chain of ", len), {}, {}, {}};
    for (std::size_t k = 0; k < len; ++k) {
      ch.sizes.push_back(2 + k % 2);
      if (k)
        ch.f.push_back(weak({(int)k - (int)(k % 2), (int)k - 1 + (int)(k % 2)}, (int)k, 0.2));
    }
    more.push_back(ch);
    ch.name += " with observed variables";
    for (std::size_t k = 3; k < len; k += 5)
      ch.ev[(int)k] = k % 2;
    more.push_back(ch);
  }
  for (std::size_t q = 0; q < more.size(); ++q)
    for (std::size_t th : {1, 2, 3, 4, 7})
      for (std::size_t n : {0, 1, 5, 20})
        for (int seed : {-1, 0, 1, 77}) {
          const auto &s = more[q];
          bool big = q >= small;
          if (big ? n == 0 || n == 20 || (th != 1 && th != 3) || (n == 1) == (seed > 0) || (n == 5 && th > 1 && s.sizes.size() > 50)
                  : n == 20 && (seed != 1 || th > 2))
            continue;
          go(str(s.name, ": ", n, " samples, seed ", seed, ", ", th, " threads, default schedule"), {0, 1},
             [=] {
               auto f = fix(s);
               return [=] {
                 SC ctx;
                 ctx.samples_number = n;
                 if (seed >= 0)
                   ctx.seed = (std::size_t)seed;
                 if (seed == 1)
                   ctx.delta_iterations = 3;
                 if (big)
                   ctx.transient = 1;
                 if (seed == 77)
                   ctx.transient = 0;
                 auto a = f->t->m.makeSamples(ctx, th);
                 noThreads();
                 wellFormed(a, f->t->m, f->t->u, n, s.ev);
                 if (seed >= 0) {
                   askMarginals(f->t->m, f->t->u, f->e, 1);
                   auto w = f->t->m.makeSamples(ctx, th);
                   if (a != w)
                     vs::fail("the same request gives other samples");
                 }
                 askMarginals(f->t->m, f->t->u, f->e, 1);
                 askMap(f->t->m, f->t->u, f->e, 1);
               };
             });
        }
}

// ------------------------------------------------------------------ refused threads
struct Op {
  const char *name;
  bool conditional;
  std::function<void(RandomField *, ConditionalRandomField *, const Vars &, const TrainSet &, std::size_t)> run;
};
void refused(Ctx &c) {
  Exec go{c};
  std::vector<Op> ops{
      {"marginal", false, [](auto *m, auto *, auto &u, auto &, std::size_t t) { m->getMarginalDistribution(u.ptr[0], t); }},
      {"MAP", false, [](auto *m, auto *, auto &u, auto &, std::size_t t) { m->getMAP(u.ptr[0], t); }},
      {"hidden MAP", false, [](auto *m, auto *, auto &u, auto &, std::size_t t) { m->getHiddenSetMAP(t); }},
      {"joint", false, [](auto *m, auto *, auto &u, auto &, std::size_t t) { m->getJointMarginalDistribution(cat::Group{u.soup({0, 1})}, t); }},
      {"gradient", false, [](auto *m, auto *, auto &u, auto &set, std::size_t t) { m->getWeightsGradient(set.makeIterator(), t); }},
      {"samples", false, [](auto *m, auto *, auto &u, auto &, std::size_t t) { m->makeSamples(SC{2, 1, 3, 1}, t); }},
      {"conditional gradient", true, [](auto *, auto *m, auto &u, auto &set, std::size_t t) { m->getWeightsGradient(set.makeIterator(), t); }},
      {"conditional marginal", true, [](auto *, auto *m, auto &u, auto &, std::size_t t) { m->getMarginalDistribution(u.ptr[0], t); }},
      {"train set", true, [](auto *, auto *m, auto &u, auto &, std::size_t t) { m->makeTrainSet(SC{1, 1, 3, 1}, 1.f, t); }},
  };
  auto all = shapes();
  std::vector<Shape> used{all[1], all[3], all[5]};
  for (auto &s : used)
    for (auto &op : ops) {
      if (op.conditional != !s.ev.empty())
        continue;
      for (std::size_t th : {2, 3, 4, 5})
        for (std::size_t k = 1; k < th; ++k)
          for (int many : {0, 1})
            for (int before : {0, 1}) { // a request with all its threads comes first
              if (before && (op.name == std::string("train set") || (th > 3 && !c.thorough())))
                continue;
              bool loopy = s.name == "triangle";
              bool shortTail = many && !before; // no other threads after the failure
              Bound b{shortTail ? (th <= 3 ? c.pick(2, 4) : c.pick(1, 2)) : before && (loopy || op.conditional || !c.thorough()) ? 0 : loopy ? c.pick(0, 1) : th <= 3 ? c.pick(1, 2) : 1,
                      shortTail ? 0 : 1, 1u, c.pick(3000L, 100000L)};
              std::size_t at = (before ? th - 1 : 0) + k;
              go(str(s.name, ": ", op.name, " with ", th, " threads, creation ", at, many ? " and all the next ones" : "", " refused"), b,
                 [=] {
                   auto f = fix(s);
                   auto samples = someSamples(f->t->u, 2);
                   auto set = std::make_shared<TrainSet>(toModelOrder(f->t->m, f->t->u, samples));
                   std::shared_ptr<ConditionalRandomField> crf;
                   if (op.conditional)
                     crf = std::make_shared<ConditionalRandomField>(f->t->m, false);
                   return [=] {
                     RandomField *rf = &f->t->m;
                     auto &u = f->t->u;
                     if (before) {
                       if (op.conditional)
                         crf->makeSamples(SC{1, 1, 3, 0}, th);
                       else
                         rf->makeSamples(SC{1, 1, 3, 0}, th);
                       noThreads();
                     }
                     bool thrown = false;
                     try {
                       op.run(rf, crf.get(), u, *set, th);
                     } catch (const std::exception &) {
                       thrown = true;
                     }
                     if (!thrown)
                       vs::fail("no exception although a thread could not be started");
                     noThreads();
                     auto after = [&](auto &m) {
                       if (m.getAllFactors().size() != s.f.size() || m.getAllVariables().size() != s.sizes.size())
                         vs::fail("factors or variables lost");
                       if constexpr (std::is_same_v<std::decay_t<decltype(m)>, ConditionalRandomField>)
                         if (std::string(op.name) == "train set")
                           for (auto &[v, x] : s.ev) // the values in use are free to change
                             m.setEvidences({x});
                       if (m.getEvidences().size() != s.ev.size())
                         vs::fail("the evidences changed");
                       for (auto &[v, x] : s.ev)
                         if (m.getEvidences().find(u.ptr[v])->second != x)
                           vs::fail("the evidences changed");
                       if (!many)
                         askMarginals(m, u, f->e, 2);
                       askMarginals(m, u, f->e, 1);
                       askMap(m, u, f->e, 1);
                     };
                     if (op.conditional)
                       after(*crf);
                     else
                       after(*rf);
                   };
                 },
                 false, (int)at, many ? 1000 : 1);
            }
    }
  // the pool itself
  for (std::size_t n = 2; n <= 5; ++n)
    for (std::size_t k = 1; k < n; ++k)
      go(str("pool of ", n, ", creation ", k, " refused"), {c.pick(n > 4 ? 0 : n > 3 ? 1 : 3, n > 3 ? 2 : 8), 0, 4u}, [=] {
        return [=] {
          bool thrown = false;
          try {
            EFG::strct::Pool p(n);
          } catch (const std::exception &) {
            thrown = true;
          }
          if (!thrown)
            vs::fail("no exception");
          noThreads();
          EFG::strct::Pool again(n);
          if (again.size() != n)
            vs::fail("wrong size");
          std::vector<int> done(n, 0);
          EFG::strct::Tasks t;
          for (std::size_t x = 0; x < n; ++x)
            t.emplace_back([&done, x](const std::size_t) { ++done[x]; });
          again.parallelFor(t);
          for (int x : done)
            if (x != 1)
              vs::fail("a task was not executed once");
        };
      }, false, (int)k);
}
} // namespace
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    if (c.prop == "P10")
      queries(c);
    else if (c.prop == "P12")
      sampling(c);
    else
      refused(c);
  });
}
