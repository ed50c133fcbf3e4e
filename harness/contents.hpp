// Observable contents of a model, by names: used to compare a model with what
// an export followed by an import gives.
#pragma once
#include "tmodel.hpp"

namespace vf {
using EFG::train::FactorExponentialPtr;
struct FDesc {
  std::vector<std::string> vars;
  std::vector<float> raw;
  bool exponential = false, tunable = false;
  float w = 0;
  int cluster = -1;
};
inline bool sameF(float a, float b) {
  return a == b || std::fabs((double)a - b) <= 1e-6 * std::fabs((double)b) ||
         (std::fabs(b) < 1e-37 && std::fabs((double)a - b) < 1e-44);
}
// observable contents of a model
struct Contents {
  std::map<std::string, std::size_t> vars, ev;
  std::vector<FDesc> f;
  std::vector<float> w;
};
template <typename M> Contents contents(const M &m) {
  Contents r;
  for (auto &v : m.getAllVariables())
    r.vars[v->name()] = v->size();
  for (auto &[v, x] : m.getEvidences())
    r.ev[v->name()] = x;
  std::map<const fac::Immutable *, int> cl;
  if constexpr (std::is_base_of_v<EFG::train::FactorsTunableGetter, M>) {
    int k = 0;
    for (auto &c : m.getTunableClusters()) {
      if (auto *one = std::get_if<FactorExponentialPtr>(&c))
        cl[one->get()] = k;
      else
        for (auto &f : std::get<EFG::train::TunableClusters>(c))
          cl[f.get()] = k;
      ++k;
    }
    r.w = m.getWeights();
  }
  for (auto &f : m.getAllFactors()) {
    FDesc d;
    for (auto &v : f->function().vars().getVariables())
      d.vars.push_back(v->name());
    f->function().template forEachCombination<false>([&](const auto &, float x) { d.raw.push_back(x); });
    if (auto e = dynamic_cast<const fac::FactorExponential *>(f.get())) {
      d.exponential = true;
      d.w = e->getWeight();
    }
    auto it = cl.find(f.get());
    if (it != cl.end()) {
      d.tunable = true;
      d.cluster = it->second;
    }
    r.f.push_back(d);
  }
  return r;
}
inline std::string showd(const FDesc &d) {
  std::string s = "(";
  for (auto &v : d.vars)
    s += v + ",";
  s += ")";
  for (float x : d.raw)
    s += str(" ", x);
  if (d.exponential)
    s += str(" w", d.w);
  if (d.tunable)
    s += str(" cluster ", d.cluster);
  return s;
}
inline void same(Ctx &c, const Contents &got, const Contents &exp, bool allConst, const std::string &how, bool anyOrder = false) {
  VF_REQUIRE(got.vars == exp.vars, how, ": variables or their sizes differ");
  VF_REQUIRE(got.ev == exp.ev, how, ": evidences differ");
  VF_REQUIRE(got.f.size() == exp.f.size(), how, ": ", got.f.size(), " factors, expected ", exp.f.size());
  std::vector<bool> used(got.f.size(), false);
  std::map<int, int> clusterMap; // expected -> got
  // the partition into clusters has to be the same: try matches with the
  // cluster constraint, factors with equal contents are interchangeable
  std::function<bool(std::size_t)> match = [&](std::size_t i) {
    if (i == exp.f.size())
      return true;
    auto &e = exp.f[i];
    for (std::size_t k = 0; k < got.f.size(); ++k) {
      auto &g = got.f[k];
      if (used[k] || g.vars != e.vars || g.exponential != e.exponential || g.raw.size() != e.raw.size())
        continue;
      bool ok = true;
      for (std::size_t q = 0; q < e.raw.size(); ++q)
        ok = ok && sameF(g.raw[q], e.raw[q]);
      if (!ok || (e.exponential && !sameF(g.w, e.w)))
        continue;
      if (allConst ? g.tunable : g.tunable != e.tunable)
        continue;
      bool fresh = false;
      if (e.tunable && !allConst) {
        auto it = clusterMap.find(e.cluster);
        if (it == clusterMap.end()) {
          bool taken = false;
          for (auto &[a, b] : clusterMap)
            taken = taken || b == g.cluster;
          if (taken)
            continue;
          clusterMap[e.cluster] = g.cluster;
          fresh = true;
        } else if (it->second != g.cluster)
          continue;
      }
      used[k] = true;
      if (match(i + 1))
        return true;
      used[k] = false;
      if (fresh)
        clusterMap.erase(e.cluster);
    }
    return false;
  };
  if (!match(0)) {
    std::string s;
    for (auto &g : got.f)
      s += "<" + showd(g) + ">";
    s += " expected ";
    for (auto &e : exp.f)
      s += "<" + showd(e) + ">";
    fail(how, ": factors differ: ", s);
  }
  if (!allConst) {
    VF_REQUIRE(got.w.size() == exp.w.size(), how, ": number of weights");
    auto a = got.w, b = exp.w;
    if (anyOrder) {
      std::sort(a.begin(), a.end());
      std::sort(b.begin(), b.end());
    }
    for (std::size_t k = 0; k < a.size(); ++k)
      VF_REQUIRE(sameF(a[k], b[k]), how, ": weight ", k, " is ", a[k], " expected ", b[k]);
  }
  ++c.comparisons;
}
} // namespace vf
