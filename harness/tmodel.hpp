// A model with constant and tunable factors described by a list of specs: built
// on the real RandomField and on the reference.
#pragma once
#include "net.hpp"
#include <EasyFactorGraph/trainable/TrainSet.h>

namespace vf {
using EFG::train::TrainSet;

struct TRef {
  RModel r;
  std::vector<double> weights;
  std::vector<std::vector<int>> clusters; // positions in r.f

  // positions in weights of the first cluster tuning exactly this group, or -1
  int clusterOf(const std::set<int> &group) const {
    for (std::size_t k = 0; k < clusters.size(); ++k)
      for (int i : clusters[k])
        if (std::set<int>(r.f[i].v.begin(), r.f[i].v.end()) == group)
          return (int)k;
    return -1;
  }
  void add(const FSpec &s) {
    auto x = makeRef(s, r.size);
    if (s.k == TUN) {
      if (s.share.empty()) {
        x.cluster = (int)weights.size();
        weights.push_back(s.w);
        clusters.push_back({});
      } else
        x.cluster = clusterOf(std::set<int>(s.share.begin(), s.share.end()));
      clusters[x.cluster].push_back((int)r.f.size());
      x.setWeight(weights[x.cluster]);
    }
    r.add(x);
  }
  void setWeights(const std::vector<double> &w) {
    weights = w;
    for (std::size_t k = 0; k < w.size(); ++k)
      for (int i : clusters[k])
        r.f[i].setWeight(w[k]);
  }
  // definition of the gradient: samples are indexed by universe variable
  std::vector<double> gradient(const std::vector<Comb> &samples,
                               const std::set<int> &observed) const {
    std::vector<double> g(weights.size(), 0.);
    std::map<Comb, std::vector<double>> expectations; // by observed values
    for (auto &s : samples) {
      Comb key;
      for (int v : observed)
        key.push_back(s[v]);
      auto it = expectations.find(key);
      if (it == expectations.end()) {
        RModel m = r;
        m.ev.clear();
        for (int v : observed)
          m.ev[v] = s[v];
        std::vector<double> e(weights.size(), 0.);
        double mass = 0;
        m.forEachState([&](const Comb &c, double p) {
          mass += p;
          for (std::size_t k = 0; k < clusters.size(); ++k)
            for (int i : clusters[k])
              e[k] += p * m.rawValue(m.f[i], c);
        });
        for (auto &x : e)
          x /= mass;
        it = expectations.emplace(key, e).first;
      }
      for (std::size_t k = 0; k < g.size(); ++k) {
        double a = 0;
        for (int i : clusters[k])
          a += r.rawValue(r.f[i], s);
        g[k] += (a - it->second[k]) / samples.size();
      }
    }
    return g;
  }
};

inline fac::ImmutablePtr addReal(RandomField &m, const FSpec &s, const Vars &u) {
  if (s.k == TUN) {
    auto p = makeExp(s, u);
    std::optional<cat::VariablesSet> sh;
    if (!s.share.empty())
      sh = u.set(s.share);
    m.addTunableFactor(p, sh);
    return p;
  }
  auto p = makeReal(s, u);
  m.addConstFactor(p);
  return p;
}

struct TModel {
  Vars u;
  TRef t;
  RandomField m;
  TModel(const std::vector<std::size_t> &sizes, const std::vector<FSpec> &fs)
      : u(sizes) {
    t.r.size = sizes;
    for (auto &f : fs) {
      t.add(f);
      addReal(m, f, u);
    }
  }
};

inline std::string show(const std::vector<FSpec> &fs) {
  std::string s;
  for (auto &f : fs)
    s += (s.empty() ? "" : " ") + show(f);
  return s;
}

// universe samples -> combinations in the order of the variables of a model
template <typename M>
std::vector<Comb> toModelOrder(const M &m, const Vars &u,
                               const std::vector<Comb> &samples) {
  std::vector<Comb> r;
  for (auto &s : samples) {
    Comb c;
    for (auto &v : m.getAllVariables())
      c.push_back(s[u.idOf(v)]);
    r.push_back(c);
  }
  return r;
}
template <typename M>
Comb fromModelOrder(const M &m, const Vars &u, const Comb &s) {
  Comb c(u.size.size(), 0);
  std::size_t k = 0;
  for (auto &v : m.getAllVariables())
    c[u.idOf(v)] = s[k++];
  return c;
}

inline bool closeG(const std::vector<float> &a, const std::vector<double> &b) {
  if (a.size() != b.size())
    return false;
  for (std::size_t k = 0; k < a.size(); ++k)
    if (!(std::fabs(a[k] - b[k]) <= 1e-3 * (1 + std::fabs(b[k]))))
      return false;
  return true;
}

// ---------------------------------------------------------------- enumeration
// all undirected graphs over n nodes as edge lists
inline std::vector<std::vector<std::pair<int, int>>> allGraphs(int n) {
  std::vector<std::pair<int, int>> all;
  for (int a = 0; a < n; ++a)
    for (int b = a + 1; b < n; ++b)
      all.push_back({a, b});
  std::vector<std::vector<std::pair<int, int>>> r;
  for (unsigned m = 0; m < (1u << all.size()); ++m) {
    std::vector<std::pair<int, int>> e;
    for (std::size_t k = 0; k < all.size(); ++k)
      if (m >> k & 1)
        e.push_back(all[k]);
    r.push_back(e);
  }
  return r;
}
inline bool isForest(int n, const std::vector<std::pair<int, int>> &e,
                     const std::set<int> &removed = {}) {
  std::vector<int> c(n);
  for (int i = 0; i < n; ++i)
    c[i] = i;
  for (auto &[a, b] : e) {
    if (removed.count(a) || removed.count(b))
      continue;
    int x = c[a], y = c[b];
    if (x == y)
      return false;
    for (auto &z : c)
      if (z == y)
        z = x;
  }
  return true;
}
// Role of a factor in an enumerated model
enum Role { R_NONE, R_CONST, R_EXPC, R_TUN, R_SHARED, R_COUNT };
// Enumerates models over the given edges: every edge takes a role in
// edgeRoles, every variable a role in unaryRoles; R_SHARED joins the cluster of
// the first (share=0) or of the last (share=1) tunable factor before it.
// Variables without any factor get a constant unary one.
template <typename F>
void forEachModel(int n, const std::vector<std::pair<int, int>> &e,
                  const std::vector<Role> &edgeRoles,
                  const std::vector<Role> &unaryRoles, int variant, F &&fn) {
  std::size_t slots = e.size() + n;
  std::vector<std::size_t> pick(slots, 0);
  while (true) {
    std::vector<FSpec> fs;
    std::vector<std::size_t> order(slots);
    for (std::size_t i = 0; i < slots; ++i)
      order[i] = variant & 1 ? slots - 1 - i : i;
    std::vector<std::vector<int>> tunGroups;
    bool valid = true;
    std::set<int> touched;
    for (std::size_t i : order) {
      bool edge = i < e.size();
      Role role = edge ? edgeRoles[pick[i]] : unaryRoles[pick[i]];
      if (role == R_NONE)
        continue;
      FSpec s;
      if (edge) {
        s.v = {e[i].first, e[i].second};
        if ((i + (variant >> 1)) % 2)
          std::swap(s.v[0], s.v[1]);
      } else
        s.v = {(int)(i - e.size())};
      for (int v : s.v)
        touched.insert(v);
      s.id = (int)i + 3;
      s.w = 0.4 + 0.3 * (double)i - (i % 3 == 2 ? 1.5 : 0.);
      s.k = role == R_CONST ? TAB : role == R_EXPC ? EXPC : TUN;
      if (role == R_SHARED) {
        if (tunGroups.empty()) {
          valid = false;
          break;
        }
        s.share = variant & 4 ? tunGroups.back() : tunGroups.front();
      }
      if (s.k == TUN)
        tunGroups.push_back(s.v);
      fs.push_back(s);
    }
    if (valid) {
      for (int v = 0; v < n; ++v)
        if (!touched.count(v)) {
          FSpec s;
          s.v = {v};
          s.id = 40 + v;
          fs.push_back(s);
        }
      fn(fs);
    }
    std::size_t k = 0;
    for (; k < slots; ++k) {
      if (++pick[k] < (k < e.size() ? edgeRoles : unaryRoles).size())
        break;
      pick[k] = 0;
    }
    if (k == slots)
      return;
  }
}

// menu of training sets (universe samples)
inline std::vector<std::vector<Comb>>
sampleSets(const std::vector<std::size_t> &sizes, bool pairs) {
  std::vector<Comb> all;
  for (std::size_t i = 0; i < prod(sizes); ++i)
    all.push_back(unflat(i, sizes));
  std::vector<std::vector<Comb>> r;
  for (auto &x : all)
    r.push_back({x});
  if (pairs)
    for (std::size_t i = 0; i < all.size(); ++i)
      for (std::size_t j = i; j < all.size(); ++j)
        r.push_back({all[j], all[i]});
  r.push_back(all);
  std::vector<Comb> odd;
  for (std::size_t i = 0; i < 7; ++i)
    odd.push_back(all[hash32((unsigned)i * 5 + 1) % all.size()]);
  r.push_back(odd);
  return r;
}
} // namespace vf
