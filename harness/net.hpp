// Binding between the reference model and the real library (public API only).
#pragma once
#include "ref.hpp"
#include <EasyFactorGraph/Error.h>
#include <EasyFactorGraph/factor/Factor.h>
#include <EasyFactorGraph/factor/FactorExponential.h>
#include <EasyFactorGraph/model/ConditionalRandomField.h>
#include <EasyFactorGraph/model/Graph.h>
#include <EasyFactorGraph/model/RandomField.h>

namespace vf {
namespace cat = EFG::categoric;
namespace fac = EFG::factor;
using EFG::model::ConditionalRandomField;
using EFG::model::Graph;
using EFG::model::RandomField;

enum Kind { TAB, SPARSE, CORR, ANTI, EXPC, TUN, EXPS };
inline const char *kindName(Kind k) {
  static const char *n[] = {"tab", "sparse", "corr", "anti", "expc", "tun", "exps"};
  return n[k];
}
struct FSpec {
  std::vector<int> v;
  Kind k = TAB;
  int id = 0;
  double w = 1;
  std::vector<int> share; // variables of the factor whose weight is shared
};
inline std::string show(const FSpec &s) {
  std::ostringstream o;
  o << kindName(s.k) << s.id << '(';
  for (std::size_t i = 0; i < s.v.size(); ++i)
    o << (i ? "," : "") << s.v[i];
  o << ')';
  if (s.k >= EXPC)
    o << "w" << s.w;
  if (!s.share.empty()) {
    o << "share{";
    for (int x : s.share)
      o << x << ' ';
    o << '}';
  }
  return o.str();
}

inline std::uint32_t hash32(std::uint32_t x) {
  x ^= x >> 16;
  x *= 0x7feb352dU;
  x ^= x >> 15;
  x *= 0x846ca68bU;
  x ^= x >> 16;
  return x;
}
// generic positive value in [0.3, 3.3)
inline float genValue(int id, std::size_t idx) {
  return 0.3f +
         3.f * static_cast<float>(hash32(id * 7919u + (std::uint32_t)idx * 104729u + 17u) % 4096u) /
             4096.f;
}

inline std::vector<std::size_t> sizesOf(const std::vector<std::size_t> &all,
                                        const std::vector<int> &v) {
  std::vector<std::size_t> r;
  for (int x : v)
    r.push_back(all[x]);
  return r;
}
inline std::size_t prod(const std::vector<std::size_t> &s) {
  std::size_t n = 1;
  for (auto x : s)
    n *= x;
  return n;
}
inline Comb unflat(std::size_t i, const std::vector<std::size_t> &s) {
  Comb c(s.size());
  for (std::size_t k = s.size(); k-- > 0;) {
    c[k] = i % s[k];
    i /= s[k];
  }
  return c;
}

// raw values of the shape behind a spec
inline std::vector<float> rawTable(const FSpec &s,
                                   const std::vector<std::size_t> &all) {
  auto sz = sizesOf(all, s.v);
  std::size_t n = prod(sz);
  std::vector<float> r(n);
  for (std::size_t i = 0; i < n; ++i) {
    auto c = unflat(i, sz);
    switch (s.k) {
    case TAB:
      r[i] = genValue(s.id, i);
      break;
    case SPARSE: {
      // about one third of the combinations are left out, but the all zeros
      // one and the last one always have mass
      bool zero = (hash32(s.id * 31u + i * 17u) % 3u) == 0;
      if (i == 0 || i + 1 == n)
        zero = false;
      r[i] = zero ? 0.f : genValue(s.id, i);
    } break;
    case CORR:
    case ANTI: {
      bool eq = true;
      for (auto x : c)
        eq = eq && x == c[0];
      r[i] = (eq == (s.k == CORR)) ? 1.f : 0.f;
    } break;
    case EXPC:
    case TUN:
      r[i] = genValue(s.id, i) * 0.5f;
      break;
    case EXPS: // raw values with zeros
      r[i] = (hash32(s.id * 37u + i * 11u) % 2u) ? genValue(s.id, i) * 0.5f : 0.f;
      break;
    }
  }
  return r;
}

inline RFactor makeRef(const FSpec &s, const std::vector<std::size_t> &all) {
  RFactor r;
  r.v = s.v;
  auto raw = rawTable(s, all);
  r.raw.assign(raw.begin(), raw.end());
  if (s.k >= EXPC) {
    r.exponential = true;
    r.t.resize(r.raw.size());
    r.setWeight(s.w);
  } else
    r.t = r.raw;
  return r;
}

struct Vars {
  std::vector<std::size_t> size;
  std::vector<cat::VariablePtr> ptr;
  Vars() = default;
  Vars(const std::vector<std::size_t> &s, const std::string &prefix = "V")
      : size(s) {
    for (std::size_t i = 0; i < s.size(); ++i)
      ptr.push_back(cat::make_variable(s[i], prefix + std::to_string(i)));
  }
  Vars(const std::vector<std::size_t> &s, const std::vector<std::string> &names)
      : size(s) {
    for (std::size_t i = 0; i < s.size(); ++i)
      ptr.push_back(cat::make_variable(s[i], names[i]));
  }
  int idOf(const std::string &name) const {
    for (std::size_t i = 0; i < ptr.size(); ++i)
      if (ptr[i]->name() == name)
        return (int)i;
    return -1;
  }
  int idOf(const cat::VariablePtr &p) const { return idOf(p->name()); }
  cat::VariablesSoup soup(const std::vector<int> &v) const {
    cat::VariablesSoup r;
    for (int x : v)
      r.push_back(ptr[x]);
    return r;
  }
  cat::VariablesSet set(const std::vector<int> &v) const {
    cat::VariablesSet r;
    for (int x : v)
      r.emplace(ptr[x]);
    return r;
  }
};

inline std::shared_ptr<fac::Factor> makeShape(const FSpec &s, const Vars &u) {
  cat::Group g{u.soup(s.v)};
  if (s.k == CORR)
    return std::make_shared<fac::Factor>(g, fac::Factor::SimplyCorrelatedTag{});
  if (s.k == ANTI)
    return std::make_shared<fac::Factor>(g,
                                         fac::Factor::SimplyAntiCorrelatedTag{});
  auto f = std::make_shared<fac::Factor>(g);
  auto raw = rawTable(s, u.size);
  auto sz = sizesOf(u.size, s.v);
  for (std::size_t i = 0; i < raw.size(); ++i)
    if (raw[i] != 0)
      f->set(unflat(i, sz), raw[i]);
  return f;
}
inline std::shared_ptr<fac::FactorExponential> makeExp(const FSpec &s,
                                                       const Vars &u) {
  return std::make_shared<fac::FactorExponential>(*makeShape(s, u),
                                                  (float)s.w);
}
inline fac::ImmutablePtr makeReal(const FSpec &s, const Vars &u) {
  if (s.k >= EXPC)
    return makeExp(s, u);
  return makeShape(s, u);
}

// ---------------------------------------------------------------- checks
template <typename M>
void checkStructure(Ctx &c, M &m, const RModel &r, const Vars &u) {
  const auto &all = m.getAllVariables();
  VF_REQUIRE(all.size() == r.vars.size(), "model lists ", all.size(),
             " variables, expected ", r.vars.size());
  for (std::size_t k = 0; k < all.size(); ++k)
    VF_REQUIRE(all[k].get() == u.ptr[r.vars[k]].get(),
               "variable listed at position ", k, " is ", all[k]->name(),
               ", expected ", u.ptr[r.vars[k]]->name());
  auto hid = m.getHiddenVariables();
  auto obs = m.getObservedVariables();
  auto rh = r.hidden();
  VF_REQUIRE(hid.size() == rh.size(), "hidden variables: ", hid.size(),
             " expected ", rh.size());
  for (int v : rh)
    VF_REQUIRE(hid.find(u.ptr[v]) != hid.end(), u.ptr[v]->name(),
               " should be hidden");
  VF_REQUIRE(obs.size() == r.ev.size(), "observed variables: ", obs.size(),
             " expected ", r.ev.size());
  const auto &evs = m.getEvidences();
  VF_REQUIRE(evs.size() == r.ev.size(), "evidences: ", evs.size(),
             " expected ", r.ev.size());
  for (auto &[v, x] : r.ev) {
    VF_REQUIRE(obs.find(u.ptr[v]) != obs.end(), u.ptr[v]->name(),
               " should be observed");
    auto it = evs.find(u.ptr[v]);
    VF_REQUIRE(it != evs.end() && it->second == x, "evidence of ",
               u.ptr[v]->name(), " should be ", x);
  }
  for (int v : r.vars)
    VF_REQUIRE(m.findVariable(u.ptr[v]->name()).get() == u.ptr[v].get(),
               "lookup by name gives another instance");
  VF_REQUIRE(m.getAllFactors().size() == r.f.size(), "model holds ",
             m.getAllFactors().size(), " factors, expected ", r.f.size());
  c.comparisons += 6;
}

// the component structure reported after a query
template <typename M>
void checkPropagationInfo(Ctx &c, M &m, const RModel &r,
                          EFG::strct::PropagationKind kind) {
  VF_REQUIRE(m.hasPropagationResult(), "no propagation result after a query");
  const auto &res = m.getLastPropagationResult();
  VF_REQUIRE(res.propagation_kind_done == kind,
             "propagation result of another kind");
  std::vector<RModel::Comp> got;
  for (auto &s : res.structures) {
    RModel::Comp x;
    x.nodes = s.size;
    x.edges = s.tree_or_loopy_graph ? s.size - 1 : s.size;
    got.push_back(x);
  }
  std::sort(got.begin(), got.end());
  auto exp = r.components();
  bool same = got.size() == exp.size();
  for (std::size_t i = 0; same && i < got.size(); ++i)
    same = got[i] == exp[i];
  if (!same) {
    std::ostringstream o;
    o << "reported structure:";
    for (auto &g : got)
      o << ' ' << g.nodes << (g.tree() ? "t" : "l");
    o << " expected:";
    for (auto &g : exp)
      o << ' ' << g.nodes << (g.tree() ? "t" : "l");
    fail(o.str());
  }
  if (r.forest())
    VF_REQUIRE(res.was_completed, "propagation on a forest not completed");
  ++c.comparisons;
}

template <typename M>
void checkMarginals(Ctx &c, M &m, const RModel &r, const Vars &u,
                    const RModel::Answers &a, std::size_t threads = 1,
                    bool byName = false) {
  for (int v : r.vars) {
    auto got = byName ? m.getMarginalDistribution(u.ptr[v]->name(), threads)
                      : m.getMarginalDistribution(u.ptr[v], threads);
    const auto &exp = a.marginal.at(v);
    VF_REQUIRE(close(got, exp), "marginal of ", u.ptr[v]->name(), " is ",
               showv(got), " expected ", show(exp));
    ++c.comparisons;
    for (float x : got)
      c.outcome(mix(7, (std::uint64_t)(x * 1000)));
  }
}

template <typename M>
void checkMap(Ctx &c, M &m, const RModel &r, const Vars &u,
              const RModel::Answers &a, std::size_t threads = 1,
              bool byName = false) {
  for (auto &[v, x] : r.ev) {
    auto got = byName ? m.getMAP(u.ptr[v]->name(), threads)
                      : m.getMAP(u.ptr[v], threads);
    VF_REQUIRE(got == x, "MAP of observed ", u.ptr[v]->name(), " is ", got,
               " expected ", x);
  }
  if (!a.uniqueMap()) {
    ++c.skipped;
    return;
  }
  auto vec = m.getHiddenSetMAP(threads);
  auto hid = m.getHiddenVariables();
  VF_REQUIRE(vec.size() == hid.size(), "hidden MAP has ", vec.size(),
             " values for ", hid.size(), " hidden variables");
  std::size_t k = 0;
  for (const auto &p : hid) {
    int v = u.idOf(p);
    VF_REQUIRE(vec[k] == a.map[v], "hidden MAP of ", p->name(), " is ", vec[k],
               " expected ", a.map[v]);
    ++k;
  }
  for (int v : r.hidden()) {
    auto got = byName ? m.getMAP(u.ptr[v]->name(), threads)
                      : m.getMAP(u.ptr[v], threads);
    VF_REQUIRE(got == a.map[v], "MAP of ", u.ptr[v]->name(), " is ", got,
               " expected ", a.map[v]);
    ++c.comparisons;
    c.outcome(mix(9, got));
  }
}

// is the hidden part of g connected inside the hidden graph?
inline bool hiddenConnected(const RModel &r, const std::vector<int> &g) {
  std::vector<int> h;
  for (int v : g)
    if (!r.ev.count(v))
      h.push_back(v);
  if (h.empty())
    return true;
  std::set<int> in(h.begin(), h.end()), seen{h[0]};
  std::vector<int> st{h[0]};
  auto e = r.hiddenEdges();
  while (!st.empty()) {
    int x = st.back();
    st.pop_back();
    for (auto &[a, b] : e) {
      int o = a == x ? b : b == x ? a : -1;
      if (o >= 0 && in.count(o) && seen.insert(o).second)
        st.push_back(o);
    }
  }
  return seen.size() == in.size();
}

template <typename M>
void checkJoint(Ctx &c, M &m, const RModel &r, const Vars &u,
                const std::vector<int> &g, std::size_t threads = 1,
                bool byName = false) {
  auto exp = r.joint(g);
  std::vector<std::string> names;
  for (int v : g)
    names.push_back(u.ptr[v]->name());
  auto f = byName ? m.getJointMarginalDistribution(names, threads)
                  : m.getJointMarginalDistribution(cat::Group{u.soup(g)},
                                                   threads);
  const auto &gv = f.function().vars().getVariables();
  VF_REQUIRE(gv.size() == g.size(), "joint over ", gv.size(), " variables");
  for (std::size_t k = 0; k < g.size(); ++k)
    VF_REQUIRE(gv[k]->name() == names[k], "joint variable ", k, " is ",
               gv[k]->name(), " expected ", names[k]);
  auto got = f.getProbabilities();
  VF_REQUIRE(close(got, exp), "joint of ", showv(g), " is ", showv(got),
             " expected ", show(exp));
  ++c.comparisons;
  for (float x : got)
    c.outcome(mix(11, (std::uint64_t)(x * 1000)));
}

template <typename F> bool throws(F &&f) {
  try {
    f();
  } catch (const Violation &) {
    throw;
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
} // namespace vf
