// Boring reference model: a list of tables over indexed variables, a set of
// evidences, and brute force (or, for big forests, exact elimination) in double
// precision. Shares no code with the library.
#pragma once
#include "core.hpp"
#include <algorithm>

namespace vf {
using Comb = std::vector<std::size_t>;
using Dist = std::vector<double>;

struct RFactor {
  std::vector<int> v;    // variable ids in factor order
  std::vector<double> t; // transformed values, lexicographic, last fastest
  std::vector<double> raw;
  double w = 0;
  int cluster = -1; // tunable cluster, -1 = constant
  bool exponential = false;
  void setWeight(double nw) {
    w = nw;
    for (std::size_t i = 0; i < t.size(); ++i)
      t[i] = std::exp(w * raw[i]);
  }
};

struct RModel {
  std::vector<std::size_t> size; // of every universe variable
  std::vector<int> vars;         // part of the model, in insertion order
  std::vector<RFactor> f;
  std::map<int, std::size_t> ev;

  bool has(int v) const {
    return std::find(vars.begin(), vars.end(), v) != vars.end();
  }
  void addVar(int v) {
    if (!has(v))
      vars.push_back(v);
  }
  bool connected(int a, int b) const {
    for (auto &x : f)
      if (x.v.size() == 2 && ((x.v[0] == a && x.v[1] == b) ||
                              (x.v[0] == b && x.v[1] == a)))
        return true;
    return false;
  }
  void add(const RFactor &x) {
    for (int v : x.v)
      addVar(v);
    f.push_back(x);
  }
  std::vector<int> hidden() const {
    std::vector<int> r;
    for (int v : vars)
      if (!ev.count(v))
        r.push_back(v);
    return r;
  }
  std::vector<std::pair<int, int>> hiddenEdges() const {
    std::vector<std::pair<int, int>> r;
    for (auto &x : f)
      if (x.v.size() == 2 && !ev.count(x.v[0]) && !ev.count(x.v[1]))
        r.push_back({x.v[0], x.v[1]});
    return r;
  }
  struct Comp {
    std::size_t nodes = 0, edges = 0;
    bool tree() const { return edges + 1 == nodes; }
    bool operator<(const Comp &o) const {
      return std::make_pair(nodes, tree()) < std::make_pair(o.nodes, o.tree());
    }
    bool operator==(const Comp &o) const {
      return nodes == o.nodes && tree() == o.tree();
    }
  };
  std::map<int, int> compOf() const {
    std::map<int, int> c;
    for (int v : hidden())
      c[v] = v;
    bool again = true;
    while (again) {
      again = false;
      for (auto &[a, b] : hiddenEdges()) {
        int m = std::min(c[a], c[b]);
        if (c[a] != m || c[b] != m) {
          c[a] = c[b] = m;
          again = true;
        }
      }
    }
    return c;
  }
  std::vector<Comp> components() const {
    auto c = compOf();
    std::map<int, Comp> m;
    for (auto &[v, k] : c)
      ++m[k].nodes;
    for (auto &[a, b] : hiddenEdges())
      ++m[c[a]].edges;
    std::vector<Comp> r;
    for (auto &[k, x] : m)
      r.push_back(x);
    std::sort(r.begin(), r.end());
    return r;
  }
  bool forest() const {
    for (auto &c : components())
      if (!c.tree())
        return false;
    return true;
  }

  // brute force over the hidden variables, value indexed by universe id
  template <typename F> void forEachState(F &&fn) const {
    auto h = hidden();
    Comb full(size.size(), 0);
    for (auto &[v, x] : ev)
      full[v] = x;
    while (true) {
      double p = 1;
      for (auto &x : f) {
        p *= value(x, full);
      }
      fn(full, p);
      std::size_t k = h.size();
      while (k > 0) {
        --k;
        if (++full[h[k]] < size[h[k]])
          break;
        full[h[k]] = 0;
        if (k == 0)
          return;
      }
      if (h.empty())
        return;
    }
  }
  double value(const RFactor &x, const Comb &full) const {
    std::size_t i = 0;
    for (int v : x.v)
      i = i * size[v] + full[v];
    return x.t[i];
  }
  double rawValue(const RFactor &x, const Comb &full) const {
    std::size_t i = 0;
    for (int v : x.v)
      i = i * size[v] + full[v];
    return x.raw[i];
  }
  double hiddenStates() const {
    double n = 1;
    for (int v : hidden())
      n *= size[v];
    return n;
  }

  struct Answers {
    double mass = 0;
    std::map<int, Dist> marginal;
    Comb map;
    double best = -1, second = -1;
    bool uniqueMap() const { return best > 0 && second < best * (1 - 2e-3); }
  };
  Answers solve() const {
    Answers a;
    for (int v : vars)
      a.marginal[v] = Dist(size[v], 0.);
    forEachState([&](const Comb &c, double p) {
      a.mass += p;
      for (auto &[v, d] : a.marginal)
        d[c[v]] += p;
      if (p > a.best) {
        a.second = a.best;
        a.best = p;
        a.map = c;
      } else if (p > a.second)
        a.second = p;
    });
    for (auto &[v, d] : a.marginal)
      for (auto &x : d)
        x = a.mass > 0 ? x / a.mass : 0;
    return a;
  }
  // joint distribution of a list of variables, requested order
  Dist joint(const std::vector<int> &g) const {
    std::size_t n = 1;
    for (int v : g)
      n *= size[v];
    Dist d(n, 0.);
    double mass = 0;
    forEachState([&](const Comb &c, double p) {
      std::size_t i = 0;
      for (int v : g)
        i = i * size[v] + c[v];
      d[i] += p;
      mass += p;
    });
    if (mass > 0)
      for (auto &x : d)
        x /= mass;
    return d;
  }
};

// Exact elimination on forests (sum or max), for models too big for brute force.
struct ForestSolver {
  const RModel &m;
  std::map<int, std::vector<const RFactor *>> inc;
  ForestSolver(const RModel &m) : m(m) {
    for (auto &x : m.f)
      for (int v : x.v)
        inc[v].push_back(&x);
  }
  Dist local(int v) const {
    Dist d(m.size[v], 1.);
    auto it = inc.find(v);
    if (it == inc.end())
      return d;
    for (auto *x : it->second) {
      if (x->v.size() == 1) {
        for (std::size_t k = 0; k < d.size(); ++k)
          d[k] *= x->t[k];
      } else {
        int o = x->v[0] == v ? x->v[1] : x->v[0];
        auto e = m.ev.find(o);
        if (e == m.ev.end())
          continue;
        for (std::size_t k = 0; k < d.size(); ++k)
          d[k] *= at(*x, v, k, e->second);
      }
      norm(d);
    }
    return d;
  }
  double at(const RFactor &x, int v, std::size_t k, std::size_t other) const {
    return x.v[0] == v ? x.t[k * m.size[x.v[1]] + other]
                       : x.t[other * m.size[x.v[1]] + k];
  }
  static void norm(Dist &d) {
    double s = 0;
    for (double x : d)
      s += x;
    if (s > 0)
      for (auto &x : d)
        x /= s;
  }
  // belief of v from the subtree not containing parent
  Dist up(int v, int parent, bool maxp) const {
    Dist d = local(v);
    auto it = inc.find(v);
    if (it != inc.end())
      for (auto *x : it->second) {
        if (x->v.size() != 2)
          continue;
        int o = x->v[0] == v ? x->v[1] : x->v[0];
        if (o == parent || m.ev.count(o))
          continue;
        Dist c = up(o, v, maxp);
        for (std::size_t k = 0; k < d.size(); ++k) {
          double s = 0;
          for (std::size_t j = 0; j < c.size(); ++j) {
            double p = c[j] * at(*x, v, k, j);
            s = maxp ? std::max(s, p) : s + p;
          }
          d[k] *= s;
        }
        norm(d);
      }
    norm(d);
    return d;
  }
  Dist marginal(int v) const { return up(v, -1, false); }
  Dist maxMarginal(int v) const { return up(v, -1, true); }
};

inline std::string show(const Dist &d) {
  std::ostringstream o;
  o << '[';
  for (std::size_t i = 0; i < d.size(); ++i)
    o << (i ? " " : "") << d[i];
  o << ']';
  return o.str();
}
template <typename T> std::string showv(const std::vector<T> &d) {
  std::ostringstream o;
  o << '[';
  for (std::size_t i = 0; i < d.size(); ++i)
    o << (i ? " " : "") << d[i];
  o << ']';
  return o.str();
}
inline bool close(const std::vector<float> &a, const Dist &b,
                  double tol = 1e-4) {
  if (a.size() != b.size())
    return false;
  for (std::size_t i = 0; i < a.size(); ++i)
    if (!(std::fabs(a[i] - b[i]) <= tol))
      return false;
  return true;
}
} // namespace vf
