// Every operation sequence over a small alphabet, up to a depth, from several
// starting models, executed on the real RandomField in lock step with the
// reference model. The final state of every sequence (every prefix is a
// sequence of its own) is checked for the property selected with --prop.
#include "net.hpp"

using namespace vf;
using EFG::strct::PropagationKind;

namespace {
struct RState {
  RModel r;
  std::vector<double> weights;            // per cluster
  std::vector<std::vector<int>> clusters; // factor positions in r.f
  std::set<int> added;                    // spec ids inserted
};
struct World;
struct Live { // one execution
  Vars u;
  std::unique_ptr<RandomField> m;
  RState s;
  std::map<int, fac::ImmutablePtr> real; // spec index -> factor
};

enum class K { ADD, EV, REM, REMS, REMALL, QSUM, QMAP, QJOINT, SAMPLE, SETW };
struct Op {
  K k;
  int a = 0;
  std::size_t b = 0;
  std::vector<int> g = {};
  std::string name() const {
    static const char *n[] = {"add",    "ev",   "rem",    "rems",   "remall",
                              "qsum",   "qmap", "qjoint", "sample", "setw"};
    std::ostringstream o;
    o << n[(int)k];
    if (k == K::ADD || k == K::EV || k == K::REM || k == K::SETW ||
        k == K::QSUM)
      o << a;
    if (k == K::EV)
      o << '=' << b;
    if (!g.empty()) {
      o << '{';
      for (int x : g)
        o << x;
      o << '}';
    }
    return o.str();
  }
};
struct World {
  std::string name;
  std::vector<std::size_t> sizes;
  std::vector<FSpec> specs;
  std::vector<Op> prefix;
  std::vector<Op> ops;
  int quickDepth, deepDepth;
};

bool enabled(const World &w, const RState &s, const Op &o) {
  switch (o.k) {
  case K::ADD: {
    const auto &f = w.specs[o.a];
    if (s.added.count(o.a))
      return false;
    if (f.v.size() == 2 && s.r.connected(f.v[0], f.v[1]))
      return false;
    if (!f.share.empty()) {
      bool ok = false;
      for (int i : s.added) {
        const auto &g = w.specs[i];
        if (g.k == TUN && std::set<int>(g.v.begin(), g.v.end()) ==
                              std::set<int>(f.share.begin(), f.share.end()))
          ok = true;
      }
      return ok;
    }
    return true;
  }
  case K::EV:
    return s.r.has(o.a);
  case K::REM:
    return s.r.ev.count(o.a);
  case K::REMS:
    for (int v : o.g)
      if (!s.r.ev.count(v))
        return false;
    return true;
  case K::REMALL:
    return true;
  case K::QSUM:
    return s.r.has(o.a);
  case K::QMAP:
    return !s.r.vars.empty();
  case K::QJOINT:
    for (int v : o.g)
      if (!s.r.has(v))
        return false;
    return hiddenConnected(s.r, o.g);
  case K::SAMPLE:
    return !s.r.vars.empty();
  case K::SETW:
    return !s.weights.empty();
  }
  return false;
}

double weightFor(int pattern, std::size_t k) {
  static const double base[] = {1., -0.8, 1.7, 0.};
  return base[(pattern + k) % 4] + 0.1 * pattern;
}

void applyRef(const World &w, RState &s, const Op &o) {
  switch (o.k) {
  case K::ADD: {
    const auto &f = w.specs[o.a];
    auto x = makeRef(f, w.sizes);
    if (f.k == TUN) {
      if (f.share.empty()) {
        x.cluster = (int)s.weights.size();
        s.weights.push_back(f.w);
        s.clusters.push_back({(int)s.r.f.size()});
      } else {
        std::set<int> want(f.share.begin(), f.share.end());
        for (std::size_t i = 0; i < s.r.f.size(); ++i) {
          auto &g = s.r.f[i];
          if (g.cluster >= 0 && std::set<int>(g.v.begin(), g.v.end()) == want) {
            x.cluster = g.cluster;
            break;
          }
        }
        s.clusters[x.cluster].push_back((int)s.r.f.size());
        x.setWeight(s.weights[x.cluster]);
      }
    }
    s.r.add(x);
    s.added.insert(o.a);
  } break;
  case K::EV:
    s.r.ev[o.a] = o.b;
    break;
  case K::REM:
    s.r.ev.erase(o.a);
    break;
  case K::REMS:
    for (int v : o.g)
      s.r.ev.erase(v);
    break;
  case K::REMALL:
    s.r.ev.clear();
    break;
  case K::SETW:
    for (std::size_t k = 0; k < s.weights.size(); ++k) {
      s.weights[k] = weightFor(o.a, k);
      for (int i : s.clusters[k])
        s.r.f[i].setWeight(s.weights[k]);
    }
    break;
  default:
    break;
  }
}

void applyReal(Ctx &c, const World &w, Live &l, const Op &o, bool byName) {
  auto &m = *l.m;
  auto &u = l.u;
  ++c.transitions;
  switch (o.k) {
  case K::ADD: {
    const auto &f = w.specs[o.a];
    if (f.k == TUN) {
      auto p = makeExp(f, u);
      std::optional<cat::VariablesSet> sh;
      if (!f.share.empty())
        sh = u.set(f.share);
      l.real[o.a] = p;
      m.addTunableFactor(p, sh);
    } else {
      auto p = makeReal(f, u);
      l.real[o.a] = p;
      m.addConstFactor(p);
    }
  } break;
  case K::EV:
    if (byName)
      m.setEvidence(u.ptr[o.a]->name(), o.b);
    else
      m.setEvidence(u.ptr[o.a], o.b);
    break;
  case K::REM:
    if (byName)
      m.removeEvidence(u.ptr[o.a]->name());
    else
      m.removeEvidence(u.ptr[o.a]);
    break;
  case K::REMS:
    if (byName) {
      std::unordered_set<std::string> n;
      for (int v : o.g)
        n.insert(u.ptr[v]->name());
      m.removeEvidences(n);
    } else
      m.removeEvidences(u.set(o.g));
    break;
  case K::REMALL:
    m.removeAllEvidences();
    break;
  case K::QSUM:
    m.getMarginalDistribution(u.ptr[o.a]);
    break;
  case K::QMAP:
    m.getHiddenSetMAP();
    break;
  case K::QJOINT:
    m.getJointMarginalDistribution(cat::Group{u.soup(o.g)});
    break;
  case K::SAMPLE: {
    EFG::strct::GibbsSampler::SamplesGenerationContext x;
    x.samples_number = 2;
    x.delta_iterations = 1;
    x.transient = 1;
    x.seed = 3;
    m.makeSamples(x);
  } break;
  case K::SETW: {
    std::vector<float> ws;
    for (std::size_t k = 0; k < l.s.weights.size(); ++k)
      ws.push_back((float)weightFor(o.a, k));
    m.setWeights(ws);
  } break;
  }
}

void checkWeights(Ctx &c, Live &l) {
  auto ws = l.m->getWeights();
  VF_REQUIRE(ws.size() == l.s.weights.size(), "number of weights ", ws.size(),
             " expected ", l.s.weights.size());
  for (std::size_t k = 0; k < ws.size(); ++k)
    VF_REQUIRE(std::fabs(ws[k] - l.s.weights[k]) < 1e-5, "weight ", k, " is ",
               ws[k], " expected ", l.s.weights[k]);
  auto cl = l.m->getTunableClusters();
  VF_REQUIRE(cl.size() == l.s.clusters.size(), "number of clusters ",
             cl.size(), " expected ", l.s.clusters.size());
  std::size_t tun = 0;
  for (std::size_t k = 0; k < cl.size(); ++k) {
    std::vector<EFG::train::FactorExponentialPtr> fs;
    if (auto *one = std::get_if<EFG::train::FactorExponentialPtr>(&cl[k]))
      fs = {*one};
    else
      fs = std::get<EFG::train::TunableClusters>(cl[k]);
    tun += fs.size();
    std::set<std::set<int>> got, want;
    for (auto &f : fs) {
      std::set<int> g;
      for (auto &v : f->function().vars().getVariables())
        g.insert(l.u.idOf(v));
      got.insert(g);
      VF_REQUIRE(std::fabs(f->getWeight() - l.s.weights[k]) < 1e-5,
                 "factor of cluster ", k, " carries weight ", f->getWeight(),
                 " expected ", l.s.weights[k]);
      VF_REQUIRE(l.m->getTunableFactors().count(f) == 1,
                 "cluster factor is not listed as tunable");
    }
    for (int i : l.s.clusters[k])
      want.insert(std::set<int>(l.s.r.f[i].v.begin(), l.s.r.f[i].v.end()));
    VF_REQUIRE(got == want && fs.size() == l.s.clusters[k].size(), "cluster ",
               k, " holds other factors");
  }
  VF_REQUIRE(l.m->getTunableFactors().size() == tun, "tunable factors listed ",
             l.m->getTunableFactors().size(), " in clusters ", tun);
  VF_REQUIRE(l.m->getConstFactors().size() + tun == l.s.r.f.size(),
             "constant factors listed ", l.m->getConstFactors().size());
  // every factor carries the values of the reference
  for (auto &[spec, p] : l.real)
    VF_REQUIRE(l.m->getAllFactors().count(p) == 1, "factor ", spec,
               " is not listed");
  ++c.comparisons;
}

// ------------------------------------------------------------ invalid requests
struct Invalid {
  std::string name;
  std::function<bool(const World &, const RState &)> applies;
  // returns true when the request was rejected; lenient ones may return true
  // without an exception
  std::function<bool(Live &)> act;
};
std::vector<Invalid> invalids(const World &w) {
  std::vector<Invalid> r;
  auto any = [](const World &, const RState &) { return true; };
  r.push_back({"null const factor", any, [](Live &l) {
                 return throws([&] { l.m->addConstFactor(nullptr); });
               }});
  r.push_back({"null tunable factor", any, [](Live &l) {
                 return throws([&] { l.m->addTunableFactor(nullptr); });
               }});
  r.push_back({"same factor again",
               [](const World &, const RState &s) { return !s.added.empty(); },
               [](Live &l) {
                 for (auto &[i, p] : l.real)
                   if (!throws([&] { l.m->addConstFactor(p); }))
                     return false;
                 return true;
               }});
  r.push_back({"same factor again as tunable",
               [](const World &, const RState &s) { return !s.added.empty(); },
               [](Live &l) {
                 for (auto &[i, p] : l.real)
                   if (auto e = std::dynamic_pointer_cast<fac::FactorExponential>(p))
                     if (!throws([&] { l.m->addTunableFactor(e); }))
                       return false;
                 return true;
               }});
  r.push_back({"ternary factor", any, [](Live &l) {
                 auto f = std::make_shared<fac::Factor>(
                     cat::Group{l.u.soup({0, 1, 2})});
                 return throws([&] { l.m->addConstFactor(f); }) &&
                        throws([&] { l.m->copyConstFactor(*f); });
               }});
  r.push_back({"ternary tunable factor", any, [](Live &l) {
                 auto f = std::make_shared<fac::FactorExponential>(
                     fac::Factor{cat::Group{l.u.soup({0, 1, 2})}}, 1.f);
                 return throws([&] { l.m->addTunableFactor(f); });
               }});
  for (bool rev : {false, true})
    for (bool tun : {false, true})
      r.push_back(
          {str("second factor on a connected pair", rev ? " reversed" : "",
               tun ? " tunable" : ""),
           [](const World &, const RState &s) {
             for (auto &f : s.r.f)
               if (f.v.size() == 2)
                 return true;
             return false;
           },
           [rev, tun](Live &l) {
             for (auto &f : l.s.r.f)
               if (f.v.size() == 2) {
                 auto v = f.v;
                 if (rev)
                   std::swap(v[0], v[1]);
                 FSpec s{v, tun ? TUN : TAB, 990, 0.5};
                 if (!throws([&] {
                       if (tun)
                         l.m->addTunableFactor(makeExp(s, l.u));
                       else
                         l.m->addConstFactor(makeReal(s, l.u));
                     }))
                   return false;
               }
             return true;
           }});
  // another instance of a variable already in the model, alone or paired with
  // a variable that is new to the model, in both positions
  for (int mode = 0; mode < 4; ++mode)
    for (bool sameSize : {true, false})
      for (bool tun : {false, true})
        r.push_back(
            {str("other instance of a variable mode", mode,
                 sameSize ? "" : " other size", tun ? " tunable" : ""),
             [](const World &, const RState &s) { return !s.r.vars.empty(); },
             [mode, sameSize, tun](Live &l) {
               int k = 0;
               for (int v : l.s.r.vars) {
                 auto foreign = cat::make_variable(
                     l.u.size[v] + (sameSize ? 0 : 1), l.u.ptr[v]->name());
                 auto fresh = cat::make_variable(2, "fresh");
                 cat::VariablePtr known;
                 for (int o : l.s.r.vars)
                   if (o != v)
                     known = l.u.ptr[o];
                 cat::VariablesSoup g;
                 if (mode == 0)
                   g = {foreign};
                 else if (mode == 1)
                   g = {foreign, fresh};
                 else if (mode == 2)
                   g = {fresh, foreign};
                 else if (known)
                   g = {known, foreign};
                 else
                   continue;
                 auto f = std::make_shared<fac::Factor>(cat::Group{g});
                 f->set(Comb(g.size(), 0), 1.f);
                 if (!throws([&] {
                       if (tun)
                         l.m->addTunableFactor(
                             std::make_shared<fac::FactorExponential>(*f, 1.f));
                       else
                         l.m->addConstFactor(f);
                     }))
                   return false;
                 if (++k == 2)
                   break;
               }
               return true;
             }});
  r.push_back({"evidence out of range",
               [](const World &, const RState &s) { return !s.r.vars.empty(); },
               [](Live &l) {
                 for (int v : l.s.r.vars) {
                   if (!throws([&] {
                         l.m->setEvidence(l.u.ptr[v], l.u.size[v]);
                       }))
                     return false;
                   if (!throws([&] {
                         l.m->setEvidence(l.u.ptr[v]->name(),
                                          l.u.size[v] + 3);
                       }))
                     return false;
                 }
                 return true;
               }});
  r.push_back({"evidence of unknown variable", any, [](Live &l) {
                 auto x = cat::make_variable(3, "unknown");
                 bool ok = throws([&] { l.m->setEvidence(x, 0); }) &&
                           throws([&] {
                             l.m->setEvidence(std::string("unknown"), 0);
                           });
                 for (std::size_t v = 0; v < l.u.ptr.size(); ++v)
                   if (!l.s.r.has((int)v))
                     ok = ok && throws([&] { l.m->setEvidence(l.u.ptr[v], 0); });
                 return ok;
               }});
  r.push_back({"removal of something not observed", any, [](Live &l) {
                 bool ok = true;
                 for (std::size_t v = 0; v < l.u.ptr.size(); ++v)
                   if (!l.s.r.ev.count((int)v)) {
                     ok = ok &&
                          throws([&] { l.m->removeEvidence(l.u.ptr[v]); }) &&
                          throws([&] {
                            l.m->removeEvidence(l.u.ptr[v]->name());
                          });
                   }
                 return ok;
               }});
  r.push_back({"removal of a set partly not observed",
               [](const World &, const RState &s) { return !s.r.ev.empty(); },
               [](Live &l) {
                 // every non empty set with at least one unobserved member
                 std::size_t n = l.u.ptr.size();
                 for (unsigned mask = 1; mask < (1u << n); ++mask) {
                   std::vector<int> g;
                   bool bad = false;
                   for (std::size_t v = 0; v < n; ++v)
                     if (mask >> v & 1) {
                       g.push_back((int)v);
                       bad = bad || !l.s.r.ev.count((int)v);
                     }
                   if (!bad)
                     continue;
                   if (!throws([&] { l.m->removeEvidences(l.u.set(g)); }))
                     return false;
                   std::unordered_set<std::string> names;
                   for (int v : g)
                     names.insert(l.u.ptr[v]->name());
                   if (!throws([&] { l.m->removeEvidences(names); }))
                     return false;
                 }
                 return true;
               }});
  r.push_back({"unknown sharing group", any, [](Live &l) {
                 auto a = cat::make_variable(2, "fresh1");
                 auto b = cat::make_variable(2, "fresh2");
                 auto f = std::make_shared<fac::FactorExponential>(
                     fac::Factor{cat::Group{a, b}}, 1.f);
                 cat::VariablesSet none{cat::make_variable(2, "fresh3")};
                 bool ok =
                     throws([&] { l.m->addTunableFactor(f, none); }) &&
                     throws([&] { l.m->copyTunableFactor(*f, none); });
                 // and on a known variable
                 if (!l.s.r.vars.empty()) {
                   auto g = std::make_shared<fac::FactorExponential>(
                       fac::Factor{cat::Group{l.u.soup({l.s.r.vars[0]})}}, 1.f);
                   ok = ok && throws([&] { l.m->addTunableFactor(g, none); });
                 }
                 return ok;
               }});
  r.push_back({"wrong number of weights", any, [](Live &l) {
                 std::vector<float> ws(l.s.weights.size() + 1, 9.f);
                 bool ok = throws([&] { l.m->setWeights(ws); });
                 if (!l.s.weights.empty()) {
                   ws.pop_back();
                   ws.pop_back();
                   ok = ok && throws([&] { l.m->setWeights(ws); });
                 }
                 return ok;
               }});
  r.push_back({"query of unknown variable", any, [](Live &l) {
                 auto x = cat::make_variable(3, "unknown");
                 std::string n = "unknown";
                 bool ok =
                     throws([&] { l.m->getMarginalDistribution(x); }) &&
                     throws([&] { l.m->getMarginalDistribution(n); }) &&
                     throws([&] { l.m->getMAP(x); }) &&
                     throws([&] { l.m->getMAP(n); }) &&
                     throws([&] {
                       l.m->getJointMarginalDistribution(cat::Group{x});
                     }) &&
                     throws([&] {
                       l.m->getJointMarginalDistribution(
                           std::vector<std::string>{n});
                     });
                 if (!l.s.r.vars.empty()) {
                   auto k = l.u.ptr[l.s.r.vars[0]];
                   ok = ok && throws([&] {
                          l.m->getJointMarginalDistribution(cat::Group{k, x});
                        }) &&
                        throws([&] {
                          l.m->getJointMarginalDistribution(
                              std::vector<std::string>{k->name(), k->name()});
                        });
                 }
                 return ok;
               }});
  r.push_back({"zero threads",
               [](const World &, const RState &s) { return !s.r.vars.empty(); },
               [](Live &l) {
                 auto v = l.u.ptr[l.s.r.vars[0]];
                 auto one = [&](PropagationKind kind, auto &&f) {
                   bool need = !l.m->hasPropagationResult() ||
                               l.m->getLastPropagationResult()
                                       .propagation_kind_done != kind;
                   bool t = throws(f);
                   return t || !need;
                 };
                 bool ok =
                     one(PropagationKind::SUM,
                         [&] { l.m->getMarginalDistribution(v, 0); }) &&
                     one(PropagationKind::MAP, [&] { l.m->getMAP(v, 0); }) &&
                     one(PropagationKind::MAP,
                         [&] { l.m->getHiddenSetMAP(0); }) &&
                     one(PropagationKind::SUM, [&] {
                       l.m->getJointMarginalDistribution(cat::Group{v}, 0);
                     });
                 EFG::strct::GibbsSampler::SamplesGenerationContext x;
                 x.samples_number = 1;
                 x.seed = 1;
                 ok = ok && throws([&] { l.m->makeSamples(x, 0); });
                 return ok;
               }});
  r.push_back({"null propagation strategy", any, [](Live &l) {
                 return throws(
                     [&] { l.m->setLoopyPropagationStrategy(nullptr); });
               }});
  (void)w;
  return r;
}

// ------------------------------------------------------------------ checks
void leaf(Ctx &c, const World &w, Live &l, std::uint64_t variant) {
  auto &r = l.s.r;
  ++c.traces;
  auto solve = [&]() { return r.solve(); };
  if (c.prop == "P04") {
    checkStructure(c, *l.m, r, l.u);
    for (auto &[i, p] : l.real)
      VF_REQUIRE(l.m->getAllFactors().count(p) == 1, "factor ", i, " missing");
    if (!r.vars.empty()) {
      l.m->getMarginalDistribution(l.u.ptr[r.vars.back()]);
      checkPropagationInfo(c, *l.m, r, PropagationKind::SUM);
      l.m->getMAP(l.u.ptr[r.vars.front()]);
      checkPropagationInfo(c, *l.m, r, PropagationKind::MAP);
      checkStructure(c, *l.m, r, l.u);
    }
    return;
  }
  if (!r.forest()) {
    ++c.extra["loopy_leaves"];
    if (r.vars.empty())
      return;
    for (int v : r.vars) {
      auto d = l.m->getMarginalDistribution(l.u.ptr[v]);
      double s = 0;
      for (float x : d)
        s += x;
      VF_REQUIRE(d.size() == l.u.size[v] && std::fabs(s - 1) < 1e-3,
                 "not a distribution: ", showv(d));
    }
    return;
  }
  auto a = solve();
  if (!(a.mass > 0)) {
    ++c.skipped;
    return;
  }
  if (c.prop == "P06" || c.prop == "P14") {
    checkMarginals(c, *l.m, r, l.u, a, 1, variant & 1);
    if (c.prop == "P14")
      checkWeights(c, l);
  } else if (c.prop == "P07") {
    checkMap(c, *l.m, r, l.u, a, 1, variant & 1);
  } else if (c.prop == "P08") {
    // all connected pairs and the whole set when connected, in both orders
    for (int x : r.vars)
      for (int y : r.vars)
        if (x != y && hiddenConnected(r, {x, y}))
          checkJoint(c, *l.m, r, l.u, {x, y}, 1, variant & 1);
    auto all = r.vars;
    if (!all.empty() && hiddenConnected(r, all)) {
      checkJoint(c, *l.m, r, l.u, all);
      std::reverse(all.begin(), all.end());
      checkJoint(c, *l.m, r, l.u, all);
    }
  }
  (void)w;
}

void start(Ctx &, const World &w, Live &l) {
  l.u = Vars(w.sizes);
  l.m = std::make_unique<RandomField>();
  l.s.r.size = w.sizes;
}

std::string pathName(const std::vector<const Op *> &p) {
  std::string s;
  for (auto *o : p)
    s += (s.empty() ? "" : " ") + o->name();
  return s;
}

void dfs(Ctx &c, const World &w, const std::vector<Invalid> &inv,
         std::vector<const Op *> &path, const RState &s, int depth) {
  {
    // reference state plus what the library may have cached
    std::uint64_t h = mix(1, w.name);
    for (int v : s.r.vars)
      h = mix(h, (std::uint64_t)v);
    for (int i : s.added)
      h = mix(h, 100 + (std::uint64_t)i);
    for (auto &[v, x] : s.r.ev)
      h = mix(mix(h, 200 + (std::uint64_t)v), x);
    for (double x : s.weights)
      h = mix(h, (std::uint64_t)(std::int64_t)(x * 1000));
    int cached = 0;
    for (auto *o : path)
      cached = (o->k == K::QSUM || o->k == K::QJOINT) ? 1
               : o->k == K::QMAP                      ? 2
               : o->k == K::SAMPLE                    ? cached
                                                      : 0;
    c.state(mix(h, (std::uint64_t)cached));
  }
  if (c.prop == "P05") {
    for (const auto &bad : inv) {
      if (!bad.applies(w, s))
        continue;
      c.run([&] { return w.name + ": " + pathName(path) + " | " + bad.name; },
            [&] {
              Live l;
              start(c, w, l);
              for (auto &o : w.prefix) {
                applyReal(c, w, l, o, false);
                applyRef(w, l.s, o);
              }
              for (auto *o : path) {
                applyReal(c, w, l, *o, false);
                applyRef(w, l.s, *o);
              }
              VF_REQUIRE(bad.act(l), "invalid request accepted: ", bad.name);
              ++c.transitions;
              auto check = [&] {
                checkStructure(c, *l.m, l.s.r, l.u);
                checkWeights(c, l);
                if (l.s.r.vars.empty())
                  return;
                l.m->getMarginalDistribution(l.u.ptr[l.s.r.vars.back()]);
                checkPropagationInfo(c, *l.m, l.s.r, PropagationKind::SUM);
                if (l.s.r.forest()) {
                  auto a = l.s.r.solve();
                  if (a.mass > 0) {
                    checkMarginals(c, *l.m, l.s.r, l.u, a);
                    checkMap(c, *l.m, l.s.r, l.u, a);
                  }
                }
              };
              check();
              // the model keeps working: toggle an evidence and check again
              if (!l.s.r.vars.empty()) {
                int v = l.s.r.vars.front();
                if (l.s.r.ev.count(v)) {
                  l.m->removeEvidence(l.u.ptr[v]);
                  l.s.r.ev.erase(v);
                } else {
                  l.m->setEvidence(l.u.ptr[v], l.u.size[v] - 1);
                  l.s.r.ev[v] = l.u.size[v] - 1;
                }
                check();
              }
              ++c.traces;
            });
    }
  } else {
    std::uint64_t variant = c.next;
    c.run([&] { return w.name + ": " + pathName(path); },
          [&] {
            Live l;
            start(c, w, l);
            for (auto &o : w.prefix) {
              applyReal(c, w, l, o, false);
              applyRef(w, l.s, o);
            }
            for (auto *o : path) {
              applyReal(c, w, l, *o, variant & 1);
              applyRef(w, l.s, *o);
            }
            leaf(c, w, l, variant);
          });
  }
  if (depth == 0)
    return;
  for (const auto &o : w.ops) {
    if (!enabled(w, s, o))
      continue;
    // immediate repetition of a pure query is pointless only for identical
    // ones; everything else is explored
    if (!path.empty() && path.back() == &o &&
        (o.k == K::QSUM || o.k == K::QMAP || o.k == K::QJOINT ||
         o.k == K::REMALL || o.k == K::SETW || o.k == K::EV))
      continue;
    RState n = s;
    applyRef(w, n, o);
    path.push_back(&o);
    dfs(c, w, inv, path, n, depth - 1);
    path.pop_back();
  }
}

std::vector<World> worlds() {
  std::vector<World> W;
  {
    World w;
    w.name = "chain4";
    w.sizes = {2, 3, 2, 2};
    w.specs = {{{0, 1}, TAB, 1}, {{2, 1}, TAB, 2}, {{2, 3}, SPARSE, 3},
               {{0}, TAB, 4},    {{2}, TAB, 5}};
    for (int i = 0; i < 5; ++i)
      w.prefix.push_back({K::ADD, i});
    w.ops = {{K::EV, 0, 1},  {K::EV, 1, 0}, {K::EV, 1, 2}, {K::EV, 2, 1},
             {K::EV, 3, 0},  {K::REM, 0},   {K::REM, 1},   {K::REM, 2},
             {K::REMALL},    {K::QSUM, 1},  {K::QMAP}};
    w.quickDepth = 4;
    w.deepDepth = 5;
    W.push_back(w);
  }
  {
    World w;
    w.name = "grow";
    w.sizes = {2, 2, 3, 2};
    w.specs = {{{0, 1}, TAB, 11}, {{1, 2}, TAB, 12}, {{3, 2}, TAB, 13},
               {{0}, TAB, 14},    {{1}, SPARSE, 15}, {{3, 0}, TAB, 16}};
    w.ops = {{K::ADD, 0},   {K::ADD, 1}, {K::ADD, 2},   {K::ADD, 3},
             {K::ADD, 4},   {K::ADD, 5}, {K::EV, 0, 1}, {K::EV, 1, 1},
             {K::EV, 2, 2}, {K::REM, 1}, {K::REMALL},   {K::QSUM, 1},
             {K::QMAP}};
    w.quickDepth = 4;
    w.deepDepth = 6;
    W.push_back(w);
  }
  {
    World w; // a cycle that evidences open and close
    w.name = "cycle";
    w.sizes = {2, 2, 2, 3};
    w.specs = {{{0, 1}, TAB, 21}, {{1, 2}, TAB, 22}, {{2, 0}, TAB, 23},
               {{2, 3}, TAB, 24}, {{3}, TAB, 25}};
    for (int i = 0; i < 5; ++i)
      w.prefix.push_back({K::ADD, i});
    w.ops = {{K::EV, 0, 0}, {K::EV, 0, 1}, {K::EV, 1, 1}, {K::EV, 2, 0},
             {K::REM, 0},   {K::REM, 1},   {K::REM, 2},   {K::REMS, 0, 0, {0, 1}},
             {K::REMALL},   {K::QSUM, 3},  {K::QMAP}};
    w.quickDepth = 4;
    w.deepDepth = 5;
    W.push_back(w);
  }
  {
    World w; // star: neighbours of a hub observed and released
    w.name = "star";
    w.sizes = {3, 2, 2, 2, 2};
    w.specs = {{{0, 1}, TAB, 31}, {{2, 0}, TAB, 32},  {{0, 3}, SPARSE, 33},
               {{0}, TAB, 34},    {{3}, TAB, 35},     {{4, 3}, TAB, 36}};
    for (int i = 0; i < 6; ++i)
      w.prefix.push_back({K::ADD, i});
    w.ops = {{K::EV, 0, 2}, {K::EV, 0, 0}, {K::EV, 1, 1}, {K::EV, 2, 0},
             {K::EV, 3, 1}, {K::REM, 0},   {K::REM, 3},
             {K::REMS, 0, 0, {0, 3}},      {K::REMS, 0, 0, {1, 2}},
             {K::REMALL},   {K::QMAP},     {K::QSUM, 0}};
    w.quickDepth = 3;
    w.deepDepth = 5;
    W.push_back(w);
  }
  {
    World w; // interleaving of inference kinds with edits
    w.name = "mixed";
    w.sizes = {2, 3, 2};
    w.specs = {{{0, 1}, TAB, 41}, {{1, 2}, EXPC, 42, -1.3}, {{1}, TAB, 43},
               {{0}, EXPC, 44, 2.}, {{2}, TAB, 45}};
    w.prefix = {{K::ADD, 0}, {K::ADD, 2}};
    w.ops = {{K::ADD, 1},    {K::ADD, 3},   {K::ADD, 4},
             {K::EV, 1, 2},  {K::EV, 0, 1}, {K::REM, 1},
             {K::REM, 0},    {K::QSUM, 0},  {K::QMAP},
             {K::QJOINT, 0, 0, {0, 1}},     {K::SAMPLE}};
    w.quickDepth = 4;
    w.deepDepth = 6;
    W.push_back(w);
  }
  {
    World w; // tunable factors: unary, binary, shared, next to evidences
    w.name = "tunable";
    w.sizes = {2, 2, 3, 2};
    w.specs = {{{0, 1}, TUN, 51, 0.7},          {{1}, TUN, 52, 1.2},
               {{1, 2}, TAB, 53},               {{2, 3}, TUN, 54, -0.6},
               {{3}, TUN, 55, 0.4, {1}},        {{0, 3}, TUN, 56, 2., {1, 0}},
               {{0}, TUN, 57, 0.9}};
    w.prefix = {{K::ADD, 0}, {K::ADD, 1}, {K::ADD, 2}, {K::ADD, 3}};
    w.ops = {{K::SETW, 0},  {K::SETW, 1}, {K::SETW, 3}, {K::ADD, 4},
             {K::ADD, 5},   {K::ADD, 6},  {K::EV, 1, 1}, {K::EV, 0, 1},
             {K::EV, 2, 2}, {K::REM, 1},  {K::REMALL},   {K::QSUM, 1},
             {K::QMAP}};
    w.quickDepth = 4;
    w.deepDepth = 5;
    W.push_back(w);
  }
  {
    World w; // tunable built from nothing, sharing in every order
    w.name = "tunegrow";
    w.sizes = {2, 2, 2};
    w.specs = {{{0, 1}, TUN, 61, 0.7},      {{1, 2}, TUN, 62, -1.1, {0, 1}},
               {{0}, TUN, 63, 1.2},         {{2}, TUN, 64, 0.3, {0}},
               {{1}, TUN, 65, 0.8, {2}},    {{1}, EXPC, 66, -0.5}};
    w.ops = {{K::ADD, 0},   {K::ADD, 1},   {K::ADD, 2}, {K::ADD, 3},
             {K::ADD, 4},   {K::ADD, 5},   {K::SETW, 2}, {K::SETW, 3},
             {K::EV, 1, 1}, {K::EV, 2, 0}, {K::REM, 1}, {K::QSUM, 1}};
    w.quickDepth = 5;
    w.deepDepth = 7;
    W.push_back(w);
  }
  return W;
}
} // namespace

int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    for (auto &w : worlds()) {
      bool tunable = w.name.rfind("tun", 0) == 0;
      if (c.prop == "P14" && !tunable)
        continue;
      if (c.prop == "P05" && w.name == "star")
        continue;
      int depth = c.pick(w.quickDepth, w.deepDepth);
      if (c.prop == "P05")
        depth = c.pick(2, 3);
      if (c.prop == "P14")
        depth = c.pick(w.quickDepth, w.deepDepth + (w.name == "tunable" ? 0 : 0));
      if (c.prop == "P04" && tunable)
        depth -= 1;
      RState s;
      s.r.size = w.sizes;
      for (auto &o : w.prefix)
        applyRef(w, s, o);
      auto inv = invalids(w);
      std::vector<const Op *> path;
      auto before = c.next;
      dfs(c, w, inv, path, s, depth);
      c.extra["sequences_" + w.name] = c.next - before;
    }
  });
}
