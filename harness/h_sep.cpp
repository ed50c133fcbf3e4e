// P27: two threads of the user, each working on its own model; the models share
// nothing, the variables, the training set, the source they are copied from, or
// all of their factors. Every pair of requests, every interleaving up to a bound.
#include "mtcommon.hpp"
#include <EasyFactorGraph/io/json/Exporter.h>
#include <EasyFactorGraph/io/json/Importer.h>
#include <sstream>
#include <thread>

namespace {
// what one of the two threads works on
struct Side {
  std::unique_ptr<RandomField> m;
  std::shared_ptr<Vars> u;
  std::shared_ptr<TrainSet> set;
  const RandomField *source = nullptr; // read only, maybe read by both
};
using Answer = std::vector<float>;
struct Work {
  const char *name;
  bool changesFactors; // not to be done on factors owned by both
  bool answerFree;     // any answer is right
  std::function<Answer(Side &)> run;
};
void put(Answer &a, const std::vector<float> &x) { a.insert(a.end(), x.begin(), x.end()); }
template <typename M> Answer marginals(M &m, const Vars &u, std::size_t th = 1) {
  Answer a;
  for (auto &v : u.ptr)
    if (m.getAllVariables().size() == u.ptr.size())
      put(a, m.getMarginalDistribution(v, th));
  return a;
}
std::vector<Work> works() {
  return {
      {"marginals", false, false, [](Side &s) { return marginals(*s.m, *s.u); }},
      {"MAP", false, false,
       [](Side &s) {
         Answer a;
         for (auto &[v, x] : hiddenMap(*s.m, *s.u, 1))
           a.push_back((float)x);
         return a;
       }},
      {"joint", false, false,
       [](Side &s) {
         return s.m->getJointMarginalDistribution(cat::Group{s.u->soup({1, 0})}).getProbabilities();
       }},
      {"samples", false, false,
       [](Side &s) {
         Answer a;
         for (auto &x : s.m->makeSamples(SC{2, 1, 3, 1}))
           for (auto v : x)
             a.push_back((float)v);
         return a;
       }},
      {"samples of no seed", false, true,
       [](Side &s) {
         SC ctx;
         ctx.samples_number = 2;
         ctx.delta_iterations = 1;
         ctx.transient = 0;
         auto x = s.m->makeSamples(ctx);
         return Answer{(float)x.size()};
       }},
      {"gradient", false, false, [](Side &s) { return s.m->getWeightsGradient(s.set->makeIterator()); }},
      {"gradient of a part", false, true,
       [](Side &s) {
         auto g = s.m->getWeightsGradient(s.set->makeSubSetIterator(0.5f));
         return Answer{(float)g.size()};
       }},
      {"evidences", false, false,
       [](Side &s) {
         s.m->setEvidence(s.u->ptr[0], 1);
         auto a = marginals(*s.m, *s.u);
         s.m->setEvidence(s.u->ptr[1], 0);
         s.m->removeEvidence(s.u->ptr[0]);
         put(a, marginals(*s.m, *s.u));
         s.m->removeAllEvidences();
         return a;
       }},
      {"weights", true, false,
       [](Side &s) {
         auto w = s.m->getWeights();
         for (auto &x : w)
           x += 0.25f;
         s.m->setWeights(w);
         auto a = marginals(*s.m, *s.u);
         put(a, s.m->getWeights());
         return a;
       }},
      {"deep copy of the source", false, false,
       [](Side &s) {
         RandomField r;
         r.absorb(*s.source, true);
         auto w = r.getWeights();
         for (auto &x : w)
           x -= 0.25f;
         r.setWeights(w);
         Answer a;
         for (auto &v : s.source->getAllVariables())
           put(a, r.getMarginalDistribution(v));
         return a;
       }},
      {"shallow copy of the source", false, false,
       [](Side &s) {
         RandomField r(*s.source);
         Answer a;
         for (auto &v : s.source->getAllVariables())
           put(a, r.getMarginalDistribution(v));
         return a;
       }},
      {"factors of the source", false, false,
       [](Side &s) {
         Answer a;
         std::vector<const fac::Immutable *> fs;
         for (auto &f : s.source->getConstFactors())
           fs.push_back(f.get());
         for (auto &cl : s.source->getTunableClusters())
           if (auto *one = std::get_if<EFG::train::FactorExponentialPtr>(&cl))
             fs.push_back(one->get());
         for (auto *f : fs) {
           put(a, f->getProbabilities());
           f->function().forEachNonNullCombination<true>([&](const auto &, float v) { a.push_back(v); });
         }
         std::sort(a.begin(), a.end());
         fac::Factor p(fs);
         auto q = p.getProbabilities();
         std::sort(q.begin(), q.end());
         put(a, q);
         return a;
       }},
      {"new model", false, false,
       [](Side &s) {
         RandomField r;
         cat::Group g{s.u->soup({0, 1})};
         auto f = std::make_shared<fac::Factor>(g);
         cat::GroupRange range(g);
         float k = 1;
         cat::for_each_combination(range, [&](const auto &comb) { f->set(comb, k += 0.5f); });
         r.addConstFactor(f);
         auto one = std::make_shared<fac::Factor>(cat::Group{s.u->ptr[0]});
         one->set({0}, 1.f);
         one->set({1}, 2.f);
         r.addTunableFactor(std::make_shared<fac::FactorExponential>(*one, 0.3f));
         Answer a = r.getMarginalDistribution(s.u->ptr[0]);
         put(a, r.getMarginalDistribution(s.u->ptr[1]));
         return a;
       }},
      {"text", false, false,
       [](Side &s) {
         auto j = EFG::io::json::Exporter::exportToJson(*s.m);
         RandomField r;
         EFG::io::json::Importer::importFromJson(r, j);
         Answer a;
         for (auto &v : s.u->ptr)
           put(a, r.getMarginalDistribution(v->name()));
         return a;
       }},
      {"refused request", false, false,
       [](Side &s) {
         int n = 0;
         try {
           s.m->setEvidence(cat::make_variable(2, "another"), 0);
         } catch (const EFG::Error &) {
           ++n;
         }
         try {
           s.m->getMarginalDistribution("nobody");
         } catch (const EFG::Error &) {
           ++n;
         }
         auto a = marginals(*s.m, *s.u);
         a.push_back((float)n);
         return a;
       }},
      {"marginals with 2 threads", false, false, [](Side &s) { return marginals(*s.m, *s.u, 2); }},
  };
}
enum Sharing { NOTHING, VARIABLES, FACTORS };
const char *SH[] = {"share nothing", "share the variables", "share the factors"};
struct World {
  std::shared_ptr<TModel> source;
  Side a, b;
};
std::shared_ptr<World> world(const Shape &s, Sharing sh) {
  auto w = std::make_shared<World>();
  w->source = make(s);
  auto side = [&](Side &x) {
    if (sh == NOTHING) {
      TModel own(s.sizes, s.f);
      x.u = std::make_shared<Vars>(own.u);
      x.m = std::make_unique<RandomField>(own.m); // the only owner
    } else {
      x.u = std::make_shared<Vars>(w->source->u);
      x.m = std::make_unique<RandomField>();
      x.m->absorb(w->source->m, sh == VARIABLES);
    }
    for (auto &[v, k] : s.ev)
      x.m->setEvidence(x.u->ptr[v], k);
    x.source = &w->source->m;
    x.set = std::make_shared<TrainSet>(toModelOrder(*x.m, *x.u, someSamples(*x.u, 4)));
  };
  side(w->a);
  side(w->b);
  if (toModelOrder(*w->a.m, *w->a.u, someSamples(*w->a.u, 4)) == toModelOrder(*w->b.m, *w->b.u, someSamples(*w->b.u, 4)))
    w->b.set = w->a.set; // one set read by both
  return w;
}
void separate(Ctx &c) {
  Exec go{c};
  auto all = shapes();
  auto ws = works();
  std::vector<Shape> used{all[1], all[5], all[3]};
  for (std::size_t k = 0; k < used.size(); ++k)
    for (int sh = 0; sh < 3; ++sh)
      for (std::size_t i = 0; i < ws.size(); ++i)
        for (std::size_t j = i; j < ws.size(); ++j) {
          auto &s = used[k];
          auto wa = ws[i], wb = ws[j];
          if (sh == FACTORS && (wa.changesFactors || wb.changesFactors))
            continue;
          if (k && !c.thorough() && (i + j + k) % (k == 1 ? 3 : 9))
            continue;
          bool pools = std::string(wb.name).find("threads") != std::string::npos;
          Bound b{c.pick(pools ? 0 : 1, pools ? 1 : 2), pools ? 1 : 0, 1u, c.pick(4000L, 30000L), true};
          go(str(s.name, ": ", wa.name, " | ", wb.name, ", the models ", SH[sh]), b, [=] {
            auto w = world(s, (Sharing)sh), twin = world(s, (Sharing)sh);
            auto ea = wa.run(twin->a), eb = wb.run(twin->b);
            return [=] {
              Answer ga, gb;
              {
                std::thread other([&] { gb = wb.run(w->b); });
                ga = wa.run(w->a);
                other.join();
              }
              noThreads();
              auto ok = [&](const Work &x, const Answer &g, const Answer &e, const char *who) {
                if (std::string(x.name) == "samples") { // the order of the updates is up to the object
                  if (g.size() != e.size())
                    vs::fail(str(who, " gives ", g.size(), " values"));
                  return;
                }
                same(g, e, s.name == "triangle" ? 1e-2 : 2e-5, str(who, " (", x.name, ")"));
              };
              ok(wa, ga, ea, "first thread");
              ok(wb, gb, eb, "second thread");
            };
          });
        }
}
} // namespace
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) { separate(c); });
}
