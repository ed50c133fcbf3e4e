// Loopy models, and the test that an answer is a fixed point of belief propagation.
#pragma once
#include "net.hpp"

namespace vf {
using EFG::strct::PropagationKind;
using Edge = std::pair<int, int>;
struct Net {
  std::string name;
  std::vector<std::size_t> sizes;
  std::vector<Edge> e;
  int strength; // 0 weak, 1 medium, 2 strong / frustrated
};
inline std::vector<float> table(const Net &n, int i, std::size_t rows,
                         std::size_t cols) {
  std::vector<float> t(rows * cols);
  for (std::size_t k = 0; k < t.size(); ++k) {
    float u = (hash32(i * 131u + k * 17u + n.strength * 7u) % 1024) / 1024.f;
    if (n.strength == 0)
      t[k] = 0.7f + 0.6f * u;
    else if (n.strength == 1)
      t[k] = 0.4f + 1.8f * u;
    else // nearly deterministic, alternating agreement / disagreement
      t[k] = ((k / cols == k % cols) == (i % 2 == 0)) ? 4.f + u : 0.05f + 0.1f * u;
  }
  return t;
}
struct Built {
  Vars u;
  RModel r;
  RandomField m;
  explicit Built(const Net &n, const std::function<void(Built &)> &after = {})
      : u(n.sizes) {
    r.size = n.sizes;
    hook = after;
    for (std::size_t i = 0; i < n.e.size(); ++i) {
      auto [a, b] = n.e[i];
      if (i % 3 == 1)
        std::swap(a, b);
      add({a, b}, table(n, (int)i, n.sizes[a], n.sizes[b]));
    }
    for (std::size_t v = 0; v < n.sizes.size(); ++v)
      if (v % 2 == 0 || !r.has((int)v)) {
        std::vector<float> t;
        for (std::size_t k = 0; k < n.sizes[v]; ++k)
          t.push_back(0.5f + (hash32((unsigned)(v * 71 + k * 3 + 5)) % 64) / 64.f);
        add({(int)v}, t);
      }
  }
  void add(const std::vector<int> &g, const std::vector<float> &t) {
    auto f = std::make_shared<fac::Factor>(cat::Group{u.soup(g)});
    auto sz = sizesOf(u.size, g);
    for (std::size_t k = 0; k < t.size(); ++k)
      f->set(unflat(k, sz), t[k]);
    m.addConstFactor(f);
    RFactor x;
    x.v = g;
    x.raw.assign(t.begin(), t.end());
    x.t = x.raw;
    r.add(x);
    if (hook)
      hook(*this);
  }
  std::function<void(Built &)> hook;
};

// loopy belief propagation in double precision
struct Lbp {
  std::map<int, Dist> belief;
  bool converged = false;
};
inline Lbp reference(const RModel &r) {
  ForestSolver loc(r);
  auto e = r.hiddenEdges();
  std::map<Edge, const RFactor *> fac;
  for (auto &x : r.f)
    if (x.v.size() == 2) {
      fac[{x.v[0], x.v[1]}] = &x;
      fac[{x.v[1], x.v[0]}] = &x;
    }
  std::map<Edge, Dist> msg; // from, to
  std::map<int, std::vector<int>> nb;
  for (auto &[a, b] : e) {
    msg[{a, b}] = Dist(r.size[b], 1.);
    msg[{b, a}] = Dist(r.size[a], 1.);
    nb[a].push_back(b);
    nb[b].push_back(a);
  }
  Lbp out;
  std::map<int, Dist> l;
  for (int v : r.hidden())
    l[v] = loc.local(v);
  for (int it = 0; it < 4000 && !out.converged; ++it) {
    double var = 0;
    for (auto &[k, m] : msg) {
      auto [a, b] = k;
      Dist s = l[a];
      for (int x : nb[a])
        if (x != b)
          for (std::size_t q = 0; q < s.size(); ++q)
            s[q] *= msg[{x, a}][q];
      Dist t(r.size[b], 0.);
      for (std::size_t y = 0; y < t.size(); ++y)
        for (std::size_t x = 0; x < s.size(); ++x)
          t[y] += s[x] * loc.at(*fac[k], a, x, y);
      ForestSolver::norm(t);
      for (std::size_t y = 0; y < t.size(); ++y)
        var = std::max(var, std::fabs(t[y] - m[y]));
      m = t;
    }
    out.converged = var < 1e-11;
  }
  for (int v : r.hidden()) {
    Dist s = l[v];
    for (int x : nb[v])
      for (std::size_t q = 0; q < s.size(); ++q)
        s[q] *= msg[{x, v}][q];
    ForestSolver::norm(s);
    out.belief[v] = s;
  }
  return out;
}

inline void checkBeliefs(Ctx &c, Built &b, std::size_t threads, const Net &n) {
  auto &r = b.r;
  std::map<int, std::vector<float>> bel;
  for (int v : r.vars) {
    auto d = b.m.getMarginalDistribution(b.u.ptr[v], threads);
    VF_REQUIRE(d.size() == r.size[v], "marginal size");
    double s = 0;
    for (float x : d) {
      VF_REQUIRE(x >= 0 && x <= 1.0001f, "marginal of ", v, " is ", showv(d));
      s += x;
    }
    VF_REQUIRE(std::fabs(s - 1) < 1e-4, "marginal of ", v, " sums to ", s);
    if (r.ev.count(v))
      VF_REQUIRE(d[r.ev[v]] > 0.9999f, "marginal of observed ", v);
    bel[v] = d;
    ++c.comparisons;
    c.outcome(mix(7, (std::uint64_t)(d[0] * 1000)));
  }
  checkPropagationInfo(c, b.m, r, PropagationKind::SUM);
  if (r.forest()) {
    auto a = r.solve();
    checkMarginals(c, b.m, r, b.u, a, threads);
    return;
  }
  if (!b.m.getLastPropagationResult().was_completed)
    return;
  c.extra["completed_loopy_propagations"]++;
  // consistency of pairs with singles, and re-parametrisation
  std::map<Edge, std::vector<float>> pair;
  for (auto &[x, y] : r.hiddenEdges()) {
    auto j = b.m.getJointMarginalDistribution(
                    cat::Group{b.u.ptr[x], b.u.ptr[y]}, threads)
                 .getProbabilities();
    pair[{x, y}] = j;
    for (int side = 0; side < 2; ++side) {
      int v = side ? y : x;
      Dist m(r.size[v], 0.);
      for (std::size_t k = 0; k < j.size(); ++k)
        m[side ? k % r.size[y] : k / r.size[y]] += j[k];
      for (std::size_t k = 0; k < m.size(); ++k)
        VF_REQUIRE(std::fabs(m[k] - bel[v][k]) < 1e-2,
                   "not a fixed point: pair ", x, ",", y, " gives ", show(m),
                   " for ", v, " whose marginal is ", showv(bel[v]));
      ++c.comparisons;
    }
  }
  double sumP = 0, sumQ = 0;
  std::vector<std::pair<double, double>> pq;
  r.forEachState([&](const Comb &s, double p) {
    double q = 1;
    for (int v : r.hidden())
      q *= bel[v][s[v]];
    for (auto &[ed, j] : pair) {
      auto [x, y] = ed;
      double d = bel[x][s[x]] * bel[y][s[y]];
      q *= d > 0 ? j[s[x] * r.size[y] + s[y]] / d : 0;
    }
    pq.push_back({p, q});
    sumP += p;
    sumQ += q;
  });
  // the product of factors and the combination of beliefs are proportional
  for (auto &[p, q] : pq)
    VF_REQUIRE(std::fabs(p / sumP - q / sumQ) < 1e-2 * (p / sumP) + 2e-3,
               "beliefs don't represent the factors: ", q / sumQ, " expected ",
               p / sumP);
  ++c.comparisons;
  if (n.strength < 2) {
    auto ref = reference(r);
    if (ref.converged) {
      for (auto &[v, d] : ref.belief)
        VF_REQUIRE(close(bel[v], d, 1e-2), "marginal of ", v, " is ",
                   showv(bel[v]), " the fixed point is ", show(d));
      c.extra["compared_with_reference_fixed_point"]++;
    }
  }
}

// every graph with a cycle of 3 to top variables, three strengths
inline std::vector<Net> smallNets(int top) {
  auto graphs = [](int n) {
    std::vector<std::vector<Edge>> r;
    std::vector<Edge> all;
    for (int a = 0; a < n; ++a)
      for (int b = a + 1; b < n; ++b)
        all.push_back({a, b});
    for (unsigned m = 0; m < (1u << all.size()); ++m) {
      std::vector<Edge> e;
      for (std::size_t k = 0; k < all.size(); ++k)
        if (m >> k & 1)
          e.push_back(all[k]);
      RModel t;
      t.size.assign(n, 2);
      for (int v = 0; v < n; ++v)
        t.addVar(v);
      for (auto &[a, b] : e) {
        RFactor f;
        f.v = {a, b};
        t.add(f);
      }
      if (!t.forest())
        r.push_back(e);
    }
    return r;
  };
  std::vector<Net> nets;
  int idx = 0;
  for (int n = 3; n <= top; ++n)
    for (auto &e : graphs(n))
      for (int st = 0; st < 3; ++st) {
        Net x;
        x.name = str("g", n, "_", idx++);
        for (int v = 0; v < n; ++v)
          x.sizes.push_back(idx % 2 ? 2 : 2 + v % 2);
        x.e = e;
        x.strength = st;
        nets.push_back(x);
      }
  return nets;
}
inline std::vector<Net> bigNets() {
  // bigger ones
  std::vector<Net> big;
  auto add = [&](std::string name, int n, std::vector<Edge> e) {
    for (int st = 0; st < 3; ++st)
      big.push_back({name, std::vector<std::size_t>(n, 2), e, st});
  };
  std::vector<Edge> cyc6, cyc9, grid, k5, two, mixed, lolly, grid34;
  for (int i = 0; i < 6; ++i)
    cyc6.push_back({i, (i + 1) % 6});
  for (int i = 0; i < 9; ++i)
    cyc9.push_back({i, (i + 1) % 9});
  for (int i = 0; i < 9; ++i) {
    if (i % 3 < 2)
      grid.push_back({i, i + 1});
    if (i < 6)
      grid.push_back({i, i + 3});
  }
  for (int i = 0; i < 12; ++i) {
    if (i % 4 < 3)
      grid34.push_back({i, i + 1});
    if (i < 8)
      grid34.push_back({i, i + 4});
  }
  for (int a = 0; a < 5; ++a)
    for (int b = a + 1; b < 5; ++b)
      k5.push_back({a, b});
  two = {{0, 1}, {1, 2}, {0, 2}, {3, 4}, {4, 5}, {3, 5}};
  mixed = {{0, 1}, {1, 2}, {0, 2}, {3, 4}, {5, 6}, {6, 7}, {7, 5}, {7, 8}};
  lolly = {{0, 1}, {1, 2}, {2, 0}, {2, 3}, {3, 4}, {4, 5}};
  add("cycle6", 6, cyc6);
  add("cycle9", 9, cyc9);
  add("grid9", 9, grid);
  add("k5", 5, k5);
  add("two triangles", 6, two);
  add("triangles and trees", 9, mixed);
  add("lollipop", 6, lolly);
  add("grid12", 12, grid34);
  return big;
}
} // namespace vf
