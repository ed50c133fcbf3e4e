// P04 P06: every small graph, every set of observed variables of which every
// subset is released again, under every sharing of buckets among the names and
// several layouts of the addresses: structure and marginals.
#define VF_ADDRESSES
#include "layout.hpp"
#include "net.hpp"

using namespace vf;

namespace {
using Edge = std::pair<int, int>;
struct Shape {
  int n;
  std::vector<Edge> e;
};
std::string show(const std::vector<Edge> &e) {
  std::string r;
  for (auto &[a, b] : e)
    r += str(' ', a, '-', b);
  return r;
}

// mode: 0 edges first, 1 unary first, 2 unary first in the other order and
// edges in the other order, 3 evidences set as soon as possible
// way: how evidences are released
struct Plan {
  int mode, way;
  bool between; // a query before releasing
  unsigned obs, rel;
};

template <typename M> void play(Ctx &c, const Shape &g, const std::vector<std::string> &names, const Plan &p) {
  std::vector<std::size_t> sizes;
  for (int v = 0; v < g.n; ++v)
    sizes.push_back(2 + (v % 3 == 1));
  Vars u(sizes, names);
  M m;
  RModel r;
  r.size = sizes;
  auto look = [&](bool map) {
    checkStructure(c, m, r, u);
    auto probe = u.ptr[r.vars[map ? r.vars.size() - 1 : 0]];
    if (map)
      m.getMAP(probe);
    else
      m.getMarginalDistribution(probe);
    checkPropagationInfo(c, m, r, map ? EFG::strct::PropagationKind::MAP : EFG::strct::PropagationKind::SUM);
    if (r.forest()) {
      auto a = r.solve();
      checkMarginals(c, m, r, u, a);
    }
    ++c.traces;
  };
  auto observe = [&](int v) {
    if ((p.obs >> v & 1) && r.has(v) && !r.ev.count(v)) {
      m.setEvidence(u.ptr[v], v % sizes[v]);
      r.ev[v] = v % sizes[v];
      ++c.transitions;
    }
  };
  std::vector<FSpec> un, bi;
  for (int v = 0; v < g.n; ++v)
    un.push_back({{v}, TAB, v + 1});
  for (std::size_t k = 0; k < g.e.size(); ++k) {
    auto [a, b] = g.e[k];
    if (k % 2)
      std::swap(a, b);
    bi.push_back({{a, b}, TAB, 50 + (int)k});
  }
  if (p.mode == 2) {
    std::reverse(un.begin(), un.end());
    std::reverse(bi.begin(), bi.end());
  }
  auto &first = p.mode == 0 || p.mode == 3 ? bi : un;
  auto &second = p.mode == 0 || p.mode == 3 ? un : bi;
  for (auto *l : {&first, &second})
    for (auto &s : *l) {
      m.addConstFactor(makeReal(s, u));
      r.add(makeRef(s, sizes));
      ++c.transitions;
      if (p.mode == 3)
        for (int v : s.v)
          observe(v);
    }
  for (int v = 0; v < g.n; ++v)
    observe(p.mode == 2 ? g.n - 1 - v : v);
  if (p.between || !p.rel)
    look(p.between && p.rel);
  if (!p.rel)
    return;
  std::vector<int> out;
  for (int v = 0; v < g.n; ++v)
    if (p.rel >> v & 1)
      out.push_back(v);
  if (p.way == 0) {
    for (int v : out)
      m.removeEvidence(u.ptr[v]);
  } else if (p.way == 1) {
    m.removeEvidences(u.set(out));
  } else if (p.rel == p.obs) {
    m.removeAllEvidences();
  } else {
    std::unordered_set<std::string> s;
    for (int v : out)
      s.insert(names[v]);
    m.removeEvidences(s);
  }
  c.transitions += out.size();
  for (int v : out)
    r.ev.erase(v);
  look(false);
}

void one(Ctx &c, const Shape &g, const std::vector<int> &sharing, int addresses, const Plan &p) {
  c.run(
      [&] {
        return str("graph", show(g.e), " of ", g.n, " observed ", p.obs, " released ", p.rel, " mode ", p.mode, " way ",
                   p.way, p.between ? " queried between" : "", " buckets ", showv(sharing), " addresses ", addresses);
      },
      [&] {
        c.state(mix(mix(mix(mix(3, show(g.e)), g.n), p.obs), p.rel));
        auto names = namesFor(sharing);
        setAddresses(addresses);
        try {
          if (p.obs % 2)
            play<Graph>(c, g, names, p);
          else
            play<RandomField>(c, g, names, p);
        } catch (...) {
          setAddresses(0);
          throw;
        }
        setAddresses(0);
      });
}

std::vector<Shape> graphs(int n) {
  std::vector<Edge> all;
  for (int a = 0; a < n; ++a)
    for (int b = a + 1; b < n; ++b)
      all.push_back({a, b});
  std::vector<Shape> r;
  for (unsigned m = 0; m < (1u << all.size()); ++m) {
    Shape s{n, {}};
    for (std::size_t k = 0; k < all.size(); ++k)
      if (m >> k & 1)
        s.e.push_back(all[k]);
    r.push_back(s);
  }
  return r;
}
} // namespace

int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    // everything on up to 4 variables
    for (int n = 1; n <= 4; ++n) {
      auto sh = sharings(n);
      unsigned rot = 0;
      for (auto &g : graphs(n))
        for (int mode = 0; mode < 4; ++mode)
          for (unsigned obs = 0; obs < (1u << n); ++obs)
            for (unsigned rel = obs;; rel = (rel - 1) & obs) {
              // quick: one sharing of buckets out of 5 in turn
              for (std::size_t s = c.thorough() ? 0 : rot % 5; s < sh.size(); s += c.thorough() ? 1 : 5)
                for (int a = c.thorough() ? 0 : (int)(rot % 2); a < ADDRESS_LAYOUTS; a += c.thorough() ? 1 : 2 + n / 4 * 2)
                  one(c, g, sh[s], a, {mode, (int)(rot + s) % 3, (rot / 3 + s) % 2 == 0, obs, rel});
              ++rot;
              if (!rel)
                break;
            }
    }
    // every graph of 5, layouts in turn (quick: a third of the pairs observed / released)
    {
      auto sh = sharings(5);
      unsigned rot = 0;
      for (auto &g : graphs(5))
        for (unsigned obs = 1; obs < 32; ++obs)
          for (unsigned rel = obs; rel; rel = (rel - 1) & obs) {
            for (unsigned k = 0; k < c.pick(rot % 3 == 0 ? 1u : 0u, 12u); ++k) {
              unsigned x = rot * 7 + k * 31;
              one(c, g, sh[x % sh.size()], (int)(x / 5 % ADDRESS_LAYOUTS), {(int)(x % 4), (int)(x / 2 % 3), x / 3 % 2 == 0, obs, rel});
            }
            ++rot;
          }
    }
    // bigger ones: a hub, two hubs, a chain, a wheel, complete; every single and
    // every pair of variables observed, then released
    for (int n : {7, 9, 12}) {
      std::vector<Shape> big(6);
      for (auto &b : big)
        b.n = n;
      for (int i = 1; i < n; ++i) {
        big[0].e.push_back({0, i});
        big[1].e.push_back({i, n - 1 == i ? 0 : n - 1});
        big[2].e.push_back({i - 1, i});
        big[3].e.push_back({(i - 1) / 2, i});
        big[4].e.push_back({0, i});
        if (i > 1)
          big[4].e.push_back({i - 1, i});
        if (i >= 2)
          big[5].e.push_back({i % 2, i});
      }
      for (auto &b : big)
        for (int v = 0; v < n; ++v)
          for (int w = v; w < n; ++w)
            for (int k = 0; k < c.pick(4, 16); ++k) {
              std::vector<int> sharing;
              for (int i = 0; i < n; ++i)
                sharing.push_back(k % 4 == 0 ? i : k % 4 == 1 ? i % 3 : k % 4 == 2 ? i / 2 : i * i % 5);
              unsigned obs = 1u << v | 1u << w;
              one(c, b, sharing, (k + v + w) % ADDRESS_LAYOUTS, {(k + v) % 4, (k + w) % 3, k % 2 == 0, obs, k & 2 ? obs : 1u << v});
            }
    }
  });
}
