// P21: every ordered pair of a menu of models, every way to absorb / copy one
// into the other, with caches warm or cold, evidences on either side, shared or
// distinct instances of the variables; followed by changes on either side.
#include "tmodel.hpp"

using namespace vf;
namespace {
using EFG::train::FactorExponentialPtr;
const std::vector<std::size_t> SIZES{2, 3, 2, 2};

struct Desc {
  std::string name;
  std::vector<FSpec> fs;
};
std::vector<Desc> menu() {
  return {
      {"empty", {}},
      {"unary", {{{0}, TAB, 1}}},
      {"tunary", {{{0}, TUN, 2, 0.7}}},
      {"pair", {{{0, 1}, TAB, 3}}},
      {"riap", {{{1, 0}, TUN, 4, -0.5}}},
      {"chain", {{{0, 1}, TUN, 5, 0.4}, {{1, 2}, TUN, 6, 1.1}, {{2}, TAB, 7}}},
      {"shared chain", {{{2, 1}, TUN, 8, 0.4}, {{1, 0}, TUN, 9, 1.1, {1, 2}}, {{3, 2}, TUN, 10, 0.3, {1, 2}}}},
      {"const mix", {{{0}, SPARSE, 11}, {{1, 3}, EXPC, 12, 0.8}, {{2, 3}, TAB, 13}}},
      {"clusters", {{{0}, TUN, 14, 0.6}, {{1}, TUN, 15, 0.2, {0}}, {{0, 2}, TUN, 16, -0.7}, {{3, 1}, TUN, 17, 0.9, {0, 2}}}},
      {"twins", {{{0}, TUN, 18, 0.5}, {{1}, TUN, 19, 0.1, {0}}, {{0}, TUN, 20, -0.9}}},
      {"cycle", {{{0, 1}, TAB, 21}, {{1, 2}, TUN, 22, 0.3}, {{2, 0}, TAB, 23}}},
      {"star", {{{3, 0}, TAB, 24}, {{3, 1}, TUN, 25, 0.5}, {{2, 3}, EXPC, 26, -0.6}, {{3}, TUN, 27, 0.3}}},
      // a cluster whose first factor has the variables of another cluster
      {"late twin", {{{1}, TUN, 28, 0.2}, {{2}, TUN, 29, 0.8, {1}}, {{1, 2}, TUN, 30, 0.4}}},
  };
}

// what a model is expected to hold
struct Expect {
  std::vector<FSpec> fs; // accepted, weights updated
  std::vector<bool> tunable;
  std::vector<std::vector<int>> clusters; // positions in fs
  std::vector<double> w;
  std::map<int, std::size_t> ev;
  std::set<int> vars() const {
    std::set<int> r;
    for (auto &f : fs)
      for (int v : f.v)
        r.insert(v);
    return r;
  }
  bool connected(int a, int b) const {
    for (auto &f : fs)
      if (f.v.size() == 2 && std::set<int>(f.v.begin(), f.v.end()) == std::set<int>{a, b})
        return true;
    return false;
  }
  RModel ref() const {
    RModel r;
    r.size = SIZES;
    for (std::size_t i = 0; i < fs.size(); ++i) {
      auto s = fs[i];
      auto x = makeRef(s, SIZES);
      for (std::size_t k = 0; k < clusters.size(); ++k)
        for (int j : clusters[k])
          if (j == (int)i)
            x.setWeight(w[k]);
      r.add(x);
    }
    r.ev = ev;
    return r;
  }
};
Expect expectOf(const Desc &d, bool graph) {
  Expect e;
  TRef t;
  t.r.size = SIZES;
  for (auto &f : d.fs)
    t.add(f);
  e.fs = d.fs;
  e.tunable.assign(d.fs.size(), false);
  if (graph) {
    for (std::size_t i = 0; i < e.fs.size(); ++i) {
      e.fs[i].w = t.r.f[i].w;
      e.fs[i].share.clear();
    }
    return e;
  }
  e.clusters = t.clusters;
  e.w = t.weights;
  for (auto &c : t.clusters)
    for (int i : c)
      e.tunable[i] = true;
  return e;
}
// the factors of b are absorbed into a
Expect absorbed(const Expect &a, const Expect &b, bool intoGraph, const std::set<int> &otherInstance) {
  Expect r = a;
  std::vector<int> pos(b.fs.size(), -1);
  auto known = a.vars();
  // the variables shared by name but not by instance can't be inserted
  for (std::size_t i = 0; i < b.fs.size(); ++i) {
    auto &f = b.fs[i];
    bool ok = true;
    for (int v : f.v)
      if (otherInstance.count(v) && known.count(v))
        ok = false;
    if (f.v.size() == 2 && a.connected(f.v[0], f.v[1]))
      ok = false;
    if (!ok)
      continue;
    pos[i] = (int)r.fs.size();
    r.fs.push_back(f);
    r.tunable.push_back(!intoGraph && b.tunable[i]);
  }
  for (std::size_t k = 0; k < b.clusters.size(); ++k) {
    std::vector<int> c;
    for (int i : b.clusters[k])
      if (pos[i] >= 0) {
        c.push_back(pos[i]);
        if (intoGraph)
          r.fs[pos[i]].w = b.w[k];
      }
    if (c.empty() || intoGraph)
      continue;
    r.clusters.push_back(c);
    r.w.push_back(b.w[k]);
  }
  for (auto &[v, x] : b.ev)
    r.ev[v] = x;
  return r;
}

std::set<std::string> namesOf(const std::vector<cat::VariablePtr> &v) {
  std::set<std::string> r;
  for (auto &x : v)
    r.insert(x->name());
  return r;
}
std::string sig(const fac::Immutable &f) {
  std::string s;
  for (auto &v : f.function().vars().getVariables())
    s += v->name() + ",";
  f.function().forEachCombination<true>([&](const auto &, float x) {
    char b[32];
    snprintf(b, sizeof b, " %.4g", x);
    s += b;
  });
  return s;
}
std::string sig(const RFactor &f) {
  std::string s;
  for (int v : f.v)
    s += str("V", v, ",");
  for (double x : f.t) {
    char b[32];
    snprintf(b, sizeof b, " %.4g", (float)x);
    s += b;
  }
  return s;
}
template <typename M>
void checkModel(Ctx &c, M &m, const Expect &e, const char *who, bool answers = true) {
  auto r = e.ref();
  auto vars = m.getAllVariables();
  std::set<std::string> want;
  for (int v : e.vars())
    want.insert(str("V", v));
  VF_REQUIRE(namesOf(vars) == want && vars.size() == want.size(), who, ": variables");
  for (auto &v : vars)
    VF_REQUIRE(v->size() == SIZES[v->name()[1] - '0'], who, ": size of ", v->name());
  std::map<int, std::size_t> ev;
  for (auto &[v, x] : m.getEvidences())
    ev[v->name()[1] - '0'] = x;
  VF_REQUIRE(ev == e.ev, who, ": evidences");
  VF_REQUIRE(m.getHiddenVariables().size() + ev.size() == vars.size(), who, ": hidden");
  std::multiset<std::string> gf, wf;
  for (auto &f : m.getAllFactors())
    gf.insert(sig(*f));
  for (auto &f : r.f)
    wf.insert(sig(f));
  if (gf != wf) {
    std::string s;
    for (auto &x : gf)
      s += "<" + x + ">";
    s += " expected ";
    for (auto &x : wf)
      s += "<" + x + ">";
    fail(who, ": factors ", s);
  }
  std::size_t tun = 0;
  if constexpr (std::is_base_of_v<EFG::train::FactorsTunableGetter, M>) {
    auto w = m.getWeights();
    VF_REQUIRE(w.size() == e.w.size(), who, ": ", w.size(), " weights, expected ", e.w.size());
    auto cl = m.getTunableClusters();
    VF_REQUIRE(cl.size() == w.size(), who, ": clusters");
    for (std::size_t k = 0; k < w.size(); ++k) {
      VF_REQUIRE(std::fabs(w[k] - e.w[k]) < 1e-5, who, ": weight ", k, " is ", w[k], " expected ", e.w[k]);
      std::vector<FactorExponentialPtr> fs;
      if (auto *one = std::get_if<FactorExponentialPtr>(&cl[k]))
        fs = {*one};
      else
        fs = std::get<EFG::train::TunableClusters>(cl[k]);
      std::multiset<std::string> a, b;
      for (auto &f : fs) {
        a.insert(sig(*f));
        VF_REQUIRE(std::fabs(f->getWeight() - e.w[k]) < 1e-5, who, ": weight inside cluster ", k);
        VF_REQUIRE(m.getTunableFactors().count(f), who, ": cluster factor not tunable");
      }
      for (int i : e.clusters[k])
        b.insert(sig(r.f[i]));
      VF_REQUIRE(a == b, who, ": cluster ", k, " holds other factors");
      tun += fs.size();
    }
    VF_REQUIRE(m.getTunableFactors().size() == tun, who, ": tunable factors");
  }
  VF_REQUIRE(m.getConstFactors().size() + tun == r.f.size(), who, ": constant factors");
  c.comparisons += 5;
  if (answers && r.forest() && !vars.empty()) {
    auto a = r.solve();
    for (auto &v : vars) {
      auto got = m.getMarginalDistribution(v);
      VF_REQUIRE(close(got, a.marginal.at(v->name()[1] - '0')), who, ": marginal of ", v->name(), " is ", showv(got), " expected ",
                 show(a.marginal.at(v->name()[1] - '0')));
      c.outcome(mix(7, (std::uint64_t)(got[0] * 1000)));
    }
    ++c.comparisons;
  }
}

template <typename M> void fill(M &m, const Desc &d, const Vars &u, std::vector<std::shared_ptr<fac::Factor>> *plain) {
  for (auto &f : d.fs) {
    if constexpr (std::is_same_v<M, RandomField>) {
      if (f.k == TUN) {
        addReal(m, f, u);
        continue;
      }
    }
    auto s = f;
    if constexpr (!std::is_same_v<M, RandomField>) {
      if (f.k == TUN) { // same weight it would have in the random field
        TRef t;
        t.r.size = SIZES;
        for (auto &g : d.fs)
          t.add(g);
        s.w = t.r.f[&f - d.fs.data()].w;
      }
    }
    if (s.k < EXPC) {
      auto p = makeShape(s, u);
      m.addConstFactor(p);
      if (plain)
        plain->push_back(p);
    } else
      m.addConstFactor(makeExp(s, u));
  }
}
template <typename M> void warm(M &m) {
  if (m.getAllVariables().empty())
    return;
  m.getMarginalDistribution(m.getAllVariables().front());
  m.getHiddenSetMAP();
}

template <typename R, typename S>
void scenario(Ctx &c, const Desc &a, const Desc &b, bool copy, int warmth, unsigned evA, unsigned evB, int inst) {
  constexpr bool gR = std::is_same_v<R, Graph>, gS = std::is_same_v<S, Graph>;
  Vars u(SIZES), u2 = u;
  std::set<int> other;
  if (inst) {
    for (int v : inst == 1 ? std::vector<int>{1} : std::vector<int>{0, 1, 2, 3}) {
      u2.ptr[v] = cat::make_variable(SIZES[v], str("V", v));
      other.insert(v);
    }
  }
  auto ea = expectOf(a, gR), eb = expectOf(b, gS);
  R recv;
  S src;
  std::vector<std::shared_ptr<fac::Factor>> plainSrc;
  fill(recv, a, u, nullptr);
  fill(src, b, u2, &plainSrc);
  auto setEv = [&](auto &m, Expect &e, const Vars &x, unsigned mask) {
    for (int v : e.vars())
      if (mask >> v & 1) {
        m.setEvidence(x.ptr[v], (v + mask) % SIZES[v]);
        e.ev[v] = (v + mask) % SIZES[v];
      }
  };
  setEv(recv, ea, u, evA);
  setEv(src, eb, u2, evB);
  auto exp = absorbed(ea, eb, gR, other);
  // evidences of variables that can't be inserted are out of scope
  for (auto &[v, x] : eb.ev) {
    bool usable = exp.vars().count(v) && !(other.count(v) && ea.vars().count(v));
    if (!usable) {
      ++c.skipped;
      return;
    }
  }
  if (warmth & 1)
    warm(recv);
  if (warmth & 2)
    warm(src);
  auto srcFactors = src.getAllFactors();
  recv.absorb(src, copy);
  ++c.transitions;
  checkModel(c, recv, exp, "receiver");
  checkModel(c, src, eb, "source");
  VF_REQUIRE(src.getAllFactors() == srcFactors, "the source holds other factor objects");
  std::size_t shared = 0;
  for (auto &f : recv.getAllFactors())
    shared += srcFactors.count(f);
  VF_REQUIRE(shared == (copy ? 0 : exp.fs.size() - ea.fs.size()), shared, " factor objects are shared");
  // changes on either side
  if constexpr (!gR)
    if (!recv.getWeights().empty() && (copy || evA == 0)) {
      std::vector<float> w;
      auto e2 = exp;
      for (std::size_t k = 0; k < exp.w.size(); ++k) {
        e2.w[k] = 0.15 * k - 0.4;
        w.push_back((float)e2.w[k]);
      }
      recv.setWeights(w);
      ++c.transitions;
      exp = e2;
      checkModel(c, recv, exp, "receiver after setWeights");
      if (copy)
        checkModel(c, src, eb, "source after setWeights on the receiver");
    }
  if (copy) {
    if constexpr (!gS)
      if (!src.getWeights().empty()) {
        std::vector<float> w;
        for (std::size_t k = 0; k < eb.w.size(); ++k) {
          eb.w[k] = 0.3 + 0.2 * k;
          w.push_back((float)eb.w[k]);
        }
        src.setWeights(w);
        checkModel(c, src, eb, "source after setWeights");
        checkModel(c, recv, exp, "receiver after setWeights on the source");
        ++c.transitions;
      }
    for (auto &p : plainSrc) {
      auto n = p->function().vars().getVariables().size();
      p->set(Comb(n, 0), 17.f);
    }
    recv.removeAllEvidences();
    exp.ev.clear();
    checkModel(c, recv, exp, "receiver after the tables of the source changed");
  } else {
    recv.removeAllEvidences();
    exp.ev.clear();
    checkModel(c, recv, exp, "receiver after removing evidences");
    std::map<int, std::size_t> ev;
    for (auto &[v, x] : src.getEvidences())
      ev[v->name()[1] - '0'] = x;
    VF_REQUIRE(ev == eb.ev, "evidences of the source changed");
  }
}

// a receives b, then d; then everything goes to an empty model
void chained(Ctx &c, const Desc &a, const Desc &b, const Desc &d, bool deep1, bool deep2, int evs) {
  Vars u(SIZES);
  auto ea = expectOf(a, false), eb = expectOf(b, false), ed = expectOf(d, false);
  RandomField recv, s1, s2;
  fill(recv, a, u, nullptr);
  fill(s1, b, u, nullptr);
  fill(s2, d, u, nullptr);
  auto observe = [&](RandomField &m, Expect &e, int v, std::size_t x) {
    if (e.vars().count(v)) {
      m.setEvidence(u.ptr[v], x);
      e.ev[v] = x;
    }
  };
  if (evs & 1)
    observe(s1, eb, 1, 1), observe(s1, eb, 2, 0);
  if (evs & 2)
    observe(s2, ed, 1, 2), observe(s2, ed, 3, 1);
  auto e1 = absorbed(ea, eb, false, {}), e2 = absorbed(e1, ed, false, {});
  recv.absorb(s1, deep1);
  if (evs & 1)
    checkModel(c, recv, e1, "receiver of one");
  recv.absorb(s2, deep2);
  checkModel(c, recv, e2, "receiver of two");
  if (!e2.w.empty()) {
    std::vector<float> w;
    for (std::size_t k = 0; k < e2.w.size(); ++k) {
      e2.w[k] = 0.2 * k - 0.5;
      w.push_back((float)e2.w[k]);
    }
    recv.setWeights(w);
  }
  RandomField last;
  last.absorb(recv, deep1 != deep2);
  checkModel(c, last, e2, "receiver of the receiver");
  checkModel(c, recv, e2, "receiver in the end");
  if (deep1)
    checkModel(c, s1, eb, "first source");
  if (deep2)
    checkModel(c, s2, ed, "second source");
  c.transitions += 3;
}

// a conditional field built from a random field
using Crf = EFG::model::ConditionalRandomField;
void conditional(Ctx &c, const Desc &b, bool copy, bool w, unsigned ev, int order) {
  Vars u(SIZES);
  auto e = expectOf(b, false);
  auto src = std::make_unique<RandomField>();
  std::vector<std::shared_ptr<fac::Factor>> plain;
  fill(*src, b, u, &plain);
  for (int v : e.vars())
    if (ev >> v & 1) {
      src->setEvidence(u.ptr[v], (v + ev) % SIZES[v]);
      e.ev[v] = (v + ev) % SIZES[v];
    }
  // a tunable factor can't lie on the evidences alone
  bool refused = e.ev.empty();
  for (std::size_t i = 0; i < e.fs.size(); ++i) {
    bool hidden = false;
    for (int v : e.fs[i].v)
      hidden = hidden || !e.ev.count(v);
    refused = refused || (e.tunable[i] && !hidden);
  }
  if (w)
    warm(*src);
  if (refused) {
    ++c.skipped;
    if (e.ev.empty()) {
      VF_REQUIRE(throws([&] { Crf(*src, copy); }), "conditional field without evidences accepted");
      checkModel(c, *src, e, "source after a refused construction");
    }
    return;
  }
  Crf m(*src, copy);
  c.transitions += 4;
  auto es = e;
  auto factors = src->getAllFactors();
  std::size_t shared = 0;
  for (auto &f : m.getAllFactors())
    shared += factors.count(f);
  VF_REQUIRE(shared == (copy ? 0 : factors.size()), shared, " factor objects are shared");
  if (order & 1)
    checkModel(c, *src, es, "source");
  checkModel(c, m, e, "conditional field");
  checkModel(c, *src, es, "source");
  auto weights = [&](auto &x, Expect &ex, double a, double d) {
    std::vector<float> v;
    for (std::size_t k = 0; k < ex.w.size(); ++k) {
      ex.w[k] = a + d * k;
      v.push_back((float)ex.w[k]);
    }
    x.setWeights(v);
  };
  if (order & 2) {
    std::vector<std::size_t> v;
    for (auto &var : m.getObservedVariables()) {
      int id = var->name()[1] - '0';
      e.ev[id] = (e.ev[id] + 1) % SIZES[id];
      v.push_back(e.ev[id]);
    }
    m.setEvidences(v);
    checkModel(c, m, e, "conditional field after its evidences changed");
    checkModel(c, *src, es, "source after the evidences of the conditional field changed");
  }
  if (!e.w.empty()) {
    weights(m, e, -0.4, 0.15);
    checkModel(c, m, e, "conditional field after setWeights");
    if (copy) {
      checkModel(c, *src, es, "source after setWeights on the conditional field");
      weights(*src, es, 0.3, 0.2);
      checkModel(c, *src, es, "source after setWeights");
      checkModel(c, m, e, "conditional field after setWeights on the source");
    }
  }
  if (copy) {
    for (auto &p : plain)
      p->set(Comb(p->function().vars().getVariables().size(), 0), 17.f);
    std::vector<std::size_t> v; // same values: the caches are dropped
    for (auto &var : m.getObservedVariables())
      v.push_back(m.getEvidences().at(var));
    m.setEvidences(v);
    checkModel(c, m, e, "conditional field after the tables of the source changed");
  }
  Crf dup(m);
  VF_REQUIRE(dup.getAllFactors() == m.getAllFactors(), "a copy shares the factors");
  checkModel(c, dup, e, "copy of the conditional field");
  src.reset();
  checkModel(c, m, e, "conditional field after its source is gone");
}

template <typename M>
void copyCtor(Ctx &c, const Desc &b, unsigned ev, bool w) {
  constexpr bool g = std::is_same_v<M, Graph>;
  Vars u(SIZES);
  auto e = expectOf(b, g);
  auto src = std::make_unique<M>();
  fill(*src, b, u, nullptr);
  for (int v : e.vars())
    if (ev >> v & 1) {
      src->setEvidence(u.ptr[v], 1);
      e.ev[v] = 1;
    }
  if (w)
    warm(*src);
  M copy(*src);
  checkModel(c, copy, e, "copy");
  checkModel(c, *src, e, "source");
  VF_REQUIRE(copy.getAllFactors() == src->getAllFactors(), "a copy shares the factors");
  M third(copy);
  src.reset();
  checkModel(c, copy, e, "copy after its source is gone");
  copy.removeAllEvidences();
  auto e2 = e;
  e2.ev.clear();
  checkModel(c, copy, e2, "copy after removing evidences");
  checkModel(c, third, e, "copy of a copy");
  c.transitions += 3;
}
} // namespace

int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    auto ms = menu();
    for (auto &a : ms)
      for (auto &b : ms)
        for (int kinds = 0; kinds < 4; ++kinds)
          for (bool copy : {false, true})
            for (int warmth = 0; warmth < 4; ++warmth)
              for (unsigned evA : {0u, 1u, 6u})
                for (unsigned evB : {0u, 2u, 9u, 15u})
                  for (int inst = 0; inst < 3; ++inst) {
                    if (!c.thorough() && (warmth % 3 || (inst && (evA || warmth))))
                      continue;
                    c.run(
                        [&] {
                          return str(a.name, " <- ", b.name, " kinds ", kinds, copy ? " deep" : " shallow", " warm ", warmth,
                                     " evidences ", evA, "/", evB, " instances ", inst);
                        },
                        [&] {
                          c.state(mix(mix(mix(1, a.name), b.name),
                                      (std::uint64_t)((((kinds * 2 + copy) * 4 + warmth) * 16 + evA) * 16 + evB) * 3 + inst));
                          ++c.traces;
                          switch (kinds) {
                          case 0:
                            scenario<RandomField, RandomField>(c, a, b, copy, warmth, evA, evB, inst);
                            break;
                          case 1:
                            scenario<RandomField, Graph>(c, a, b, copy, warmth, evA, evB, inst);
                            break;
                          case 2:
                            scenario<Graph, RandomField>(c, a, b, copy, warmth, evA, evB, inst);
                            break;
                          case 3:
                            scenario<Graph, Graph>(c, a, b, copy, warmth, evA, evB, inst);
                            break;
                          }
                        });
                  }
    for (auto &a : ms)
      for (auto &b : ms)
        for (auto &d : ms)
          for (int deep = 0; deep < 4; ++deep)
            for (int evs = 0; evs < 4; ++evs) {
              if (!c.thorough() && (deep + evs) % 4 != (int)((&a - &ms[0]) + (&b - &ms[0]) + (&d - &ms[0])) % 4)
                continue;
              c.run([&] { return str(a.name, " <- ", b.name, deep & 1 ? " (deep)" : "", " <- ", d.name, deep & 2 ? " (deep)" : "", " evidences ", evs); },
                    [&] {
                      c.state(mix(mix(mix(mix(3, a.name), b.name), d.name), (std::uint64_t)(deep * 4 + evs)));
                      ++c.traces;
                      chained(c, a, b, d, deep & 1, deep & 2, evs);
                    });
            }
    for (auto &b : ms)
      for (unsigned ev = 0; ev < 16; ++ev)
        for (bool w : {false, true})
          for (bool copy : {false, true})
            for (int order = 0; order < 4; ++order)
              c.run([&] { return str("conditional field of ", b.name, copy ? " deep" : " shallow", w ? " warm" : "", " evidences ", ev, " order ", order); },
                    [&] {
                      c.state(mix(mix(4, b.name), (std::uint64_t)((ev * 4 + w * 2 + copy) * 4 + order)));
                      ++c.traces;
                      conditional(c, b, copy, w, ev, order);
                    });
    for (auto &b : ms)
      for (unsigned ev = 0; ev < 16; ++ev)
        for (bool w : {false, true})
          for (int k = 0; k < 2; ++k)
            c.run([&] { return str("copy of ", b.name, " evidences ", ev, w ? " warm" : "", k ? " graph" : " field"); },
                  [&] {
                    c.state(mix(mix(2, b.name), (std::uint64_t)(ev * 4 + w * 2 + k)));
                    ++c.traces;
                    if (k)
                      copyCtor<Graph>(c, b, ev, w);
                    else
                      copyCtor<RandomField>(c, b, ev, w);
                  });
  });
}
