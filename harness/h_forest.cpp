// P06 P07 P08: every small forest (all shapes, orientations of the factors,
// evidence sets) and a family of big ones, on all kinds of model, compared with
// brute force or exact elimination.
#include "net.hpp"

using namespace vf;

namespace {
using Edge = std::pair<int, int>;
bool isForest(int n, const std::vector<Edge> &e) {
  std::vector<int> p(n);
  for (int i = 0; i < n; ++i)
    p[i] = i;
  std::function<int(int)> find = [&](int x) { return p[x] == x ? x : find(p[x]); };
  for (auto &[a, b] : e) {
    int x = find(a), y = find(b);
    if (x == y)
      return false;
    p[x] = y;
  }
  return true;
}
std::vector<std::vector<Edge>> forests(int n) {
  std::vector<Edge> all;
  for (int a = 0; a < n; ++a)
    for (int b = a + 1; b < n; ++b)
      all.push_back({a, b});
  std::vector<std::vector<Edge>> r;
  for (unsigned m = 0; m < (1u << all.size()); ++m) {
    std::vector<Edge> e;
    for (std::size_t k = 0; k < all.size(); ++k)
      if (m >> k & 1)
        e.push_back(all[k]);
    if (isForest(n, e))
      r.push_back(e);
  }
  return r;
}
struct Case {
  std::vector<std::size_t> sizes;
  std::vector<FSpec> f;
  std::map<int, std::size_t> ev;
  int model = 0; // 0 Graph, 1 RandomField, 2 ConditionalRandomField
  bool evFirst = false; // evidences interleaved with insertions
  std::vector<double> scale; // of each factor (tables only), empty: 1
  std::string name;
};

template <typename M> void query(Ctx &c, M &m, const RModel &r, const Vars &u, double tiny = 1e-9) {
  ++c.traces;
  auto a = r.solve();
  if (!(a.mass > tiny)) {
    ++c.skipped;
    return;
  }
  if (c.prop == "P06") {
    for (std::size_t th : {1, 2}) {
      checkMarginals(c, m, r, u, a, th, th == 2);
      c.transitions += r.vars.size();
    }
    m.getHiddenSetMAP();
    checkMarginals(c, m, r, u, a);
  } else if (c.prop == "P07") {
    checkMap(c, m, r, u, a, 1);
    m.getMarginalDistribution(u.ptr[r.vars[0]]);
    checkMap(c, m, r, u, a, 2, true);
    c.transitions += 2 * r.vars.size();
  } else {
    int n = (int)r.vars.size();
    bool flip = false;
    for (unsigned s = 1; s < (1u << n); ++s) {
      std::vector<int> g;
      for (int k = 0; k < n; ++k)
        if (s >> k & 1)
          g.push_back(r.vars[k]);
      if (!hiddenConnected(r, g) || g.size() > 6)
        continue;
      std::vector<int> p = g;
      std::sort(p.begin(), p.end());
      do {
        checkJoint(c, m, r, u, p, 1 + flip, flip);
        ++c.transitions;
        flip = !flip;
        if (g.size() >= 4) { // only rotations
          std::rotate(p.begin(), p.begin() + 1, p.end());
          checkJoint(c, m, r, u, p);
          std::reverse(p.begin(), p.end());
          checkJoint(c, m, r, u, p);
          break;
        }
      } while (std::next_permutation(p.begin(), p.end()));
    }
  }
}

void runCase(Ctx &c, const Case &k) {
  c.run([&] { return k.name; },
        [&] {
          Vars u(k.sizes);
          RModel r;
          r.size = k.sizes;
          c.state(mix(1, k.name));
          auto real = [&](const FSpec &s) -> fac::ImmutablePtr {
            if (k.scale.empty())
              return makeReal(s, u);
            float x = (float)k.scale[&s - k.f.data()];
            auto f = makeShape(s, u);
            auto copy = std::make_shared<fac::Factor>(*f);
            f->function().forEachNonNullCombination<false>(
                [&](const Comb &comb, float v) { copy->set(comb, v * x); });
            return copy;
          };
          auto refOf = [&](const FSpec &s) {
            auto x = makeRef(s, k.sizes);
            if (!k.scale.empty())
              for (auto &v : x.t)
                v *= k.scale[&s - k.f.data()];
            return x;
          };
          const double tiny = k.scale.empty() ? 1e-9 : 0;
          auto build = [&](auto &m) {
            for (auto &s : k.f) {
              m.addConstFactor(real(s));
              r.add(refOf(s));
              if (k.evFirst)
                for (auto &[v, x] : k.ev)
                  if (r.has(v) && !r.ev.count(v)) {
                    m.setEvidence(u.ptr[v], x);
                    r.ev[v] = x;
                  }
            }
            for (auto &[v, x] : k.ev)
              if (r.has(v)) {
                m.setEvidence(u.ptr[v], x);
                r.ev[v] = x;
              }
          };
          if (k.model == 0) {
            Graph m;
            build(m);
            query(c, m, r, u, tiny);
          } else {
            RandomField m;
            for (auto &s : k.f) // exponential ones tunable
              if (s.k == TUN)
                m.addTunableFactor(makeExp(s, u)), r.add(makeRef(s, k.sizes));
              else
                m.addConstFactor(real(s)), r.add(refOf(s));
            for (auto &[v, x] : k.ev)
              if (r.has(v)) {
                m.setEvidence(u.ptr[v], x);
                r.ev[v] = x;
              }
            if (k.model == 1 || r.ev.empty())
              query(c, m, r, u, tiny);
            else {
              ConditionalRandomField crf(m, true);
              // the order of insertion in the copy is up to the library
              std::vector<int> order;
              for (auto &p : crf.getAllVariables())
                order.push_back(u.idOf(p));
              r.vars = order;
              query(c, crf, r, u, tiny);
            }
          }
        });
}

void small(Ctx &c, int n, int variants) {
  static const std::vector<std::vector<std::size_t>> sizeSets = {
      {2, 3, 2, 3, 2}, {3, 2, 7, 1, 2}, {8, 2, 2, 3, 13}, {2, 2, 2, 2, 2}};
  static const Kind kinds[4][3] = {{TAB, TAB, TAB},
                                   {SPARSE, EXPC, EXPS},
                                   {EXPS, SPARSE, TAB},
                                   {CORR, ANTI, EXPC}};
  for (int var = 0; var < variants; ++var)
    for (auto &e : forests(n))
      for (unsigned orient = 0; orient < (1u << e.size()); ++orient)
        for (unsigned evs = 0; evs < (1u << n); ++evs) {
          Case k;
          k.sizes.assign(sizeSets[var].begin(), sizeSets[var].begin() + n);
          k.model = (int)((evs + orient + var) % 2);
          k.evFirst = (evs + orient) % 3 == 1;
          std::vector<FSpec> un, bi;
          for (int v = 0; v < n; ++v) {
            int cnt = (v + var + (int)evs) % 3; // 0, 1 or 2 unary factors
            bool alone = true;
            for (auto &[a, b] : e)
              alone = alone && a != v && b != v;
            if (alone && cnt == 0)
              cnt = 1;
            for (int q = 0; q < cnt; ++q)
              un.push_back({{v}, q ? EXPS : TAB, 10 * v + q + 1, 0.8});
          }
          for (std::size_t i = 0; i < e.size(); ++i) {
            auto [a, b] = e[i];
            Kind kd = kinds[var][(i + orient) % 3];
            if ((kd == CORR || kd == ANTI) && k.sizes[a] != k.sizes[b])
              kd = TAB;
            if (orient >> i & 1)
              std::swap(a, b);
            bi.push_back({{a, b}, kd, 100 + (int)i, i % 2 ? -1.1 : 0.9});
          }
          // order of insertion
          if (orient % 2)
            std::reverse(bi.begin(), bi.end());
          if (evs % 2) {
            k.f = bi;
            k.f.insert(k.f.end(), un.begin(), un.end());
          } else {
            k.f = un;
            k.f.insert(k.f.end(), bi.begin(), bi.end());
          }
          for (int v = 0; v < n; ++v)
            if (evs >> v & 1)
              k.ev[v] = (orient + v + evs) % k.sizes[v];
          std::ostringstream o;
          o << "forest n" << n << " sizes" << showv(k.sizes) << " model"
            << k.model << (k.evFirst ? " evidences early" : "");
          for (auto &f : k.f)
            o << ' ' << vf::show(f);
          for (auto &[v, x] : k.ev)
            o << " ev" << v << '=' << x;
          k.name = o.str();
          runCase(c, k);
        }
}

// conditional fields: tunable factors, no unary on evidences
void conditional(Ctx &c, int n) {
  for (auto &e : forests(n))
    for (unsigned orient = 0; orient < (1u << e.size()); ++orient)
      for (unsigned evs = 1; evs < (1u << n); ++evs) {
        Case k;
        k.sizes = {2, 3, 3, 2, 2};
        k.sizes.resize(n);
        k.model = 2;
        bool ok = true;
        for (std::size_t i = 0; i < e.size(); ++i) {
          auto [a, b] = e[i];
          if ((evs >> a & 1) && (evs >> b & 1))
            ok = false;
          if (orient >> i & 1)
            std::swap(a, b);
          k.f.push_back({{a, b}, i % 2 ? TAB : TUN, 100 + (int)i, 0.9});
        }
        if (!ok)
          continue;
        for (int v = 0; v < n; ++v)
          k.f.push_back({{v}, evs >> v & 1 ? TAB : TUN, 10 + v, -0.7});
        for (int v = 0; v < n; ++v)
          if (evs >> v & 1)
            k.ev[v] = (orient + v) % k.sizes[v];
        std::ostringstream o;
        o << "conditional n" << n << " orient" << orient << " edges";
        for (auto &[a, b] : e)
          o << ' ' << a << b;
        for (auto &[v, x] : k.ev)
          o << " ev" << v << '=' << x;
        k.name = o.str();
        runCase(c, k);
      }
}

void big(Ctx &c) {
  struct Shape {
    std::string name;
    std::vector<Edge> e;
    int n;
  };
  std::vector<Shape> shapes;
  auto chain = [](int n) {
    std::vector<Edge> e;
    for (int i = 1; i < n; ++i)
      e.push_back({i - 1, i});
    return e;
  };
  auto star = [](int n) {
    std::vector<Edge> e;
    for (int i = 1; i < n; ++i)
      e.push_back({0, i});
    return e;
  };
  auto tree = [](int n, int k) {
    std::vector<Edge> e;
    for (int i = 1; i < n; ++i)
      e.push_back({(i - 1) / k, i});
    return e;
  };
  for (int n : {12, 40, 120})
    shapes.push_back({str("chain", n), chain(n), n});
  for (int n : {9, 30, 150})
    shapes.push_back({str("star", n), star(n), n});
  shapes.push_back({"binary63", tree(63, 2), 63});
  shapes.push_back({"ternary40", tree(40, 3), 40});
  {
    Shape s{"caterpillar40", chain(20), 40};
    for (int i = 0; i < 20; ++i)
      s.e.push_back({i, 20 + i});
    shapes.push_back(s);
    Shape d{"twostars60", star(30), 60};
    for (int i = 31; i < 60; ++i)
      d.e.push_back({30, i});
    d.e.push_back({5, 35});
    shapes.push_back(d);
    Shape i{"islands30", {}, 30};
    for (int k = 0; k < 30; k += 3) {
      i.e.push_back({k, k + 1});
      i.e.push_back({k + 1, k + 2});
    }
    shapes.push_back(i);
  }
  for (auto &s : shapes)
    for (int szp = 0; szp < 4; ++szp)
      for (int evp = 0; evp < 5; ++evp)
        for (int mag = 0; mag < 3; ++mag) {
          auto nm = str("big ", s.name, " sizes", szp, " evidences", evp,
                        " magnitude", mag);
          c.run([&] { return nm; },
                [&] {
                  c.state(mix(2, nm));
                  std::vector<std::size_t> sizes(s.n);
                  for (int i = 0; i < s.n; ++i)
                    sizes[i] = szp == 0   ? 2
                               : szp == 1 ? 2 + i % 3
                               : szp == 2 ? (i % 5 ? 2 : 9)
                                          : 1 + i % 4;
                  Vars u(sizes);
                  Graph m;
                  RModel r;
                  r.size = sizes;
                  auto add = [&](const FSpec &f) {
                    m.addConstFactor(makeReal(f, u));
                    r.add(makeRef(f, sizes));
                  };
                  for (std::size_t i = 0; i < s.e.size(); ++i) {
                    auto [a, b] = s.e[i];
                    if (i % 3 == 1)
                      std::swap(a, b);
                    // exp(w * [0.15,1.65]); w 12 gives factors up to 4e8
                    add({{a, b}, mag == 0 ? TAB : EXPC, (int)i + 1,
                         mag == 1 ? 1. : (i % 2 ? -12. : 12.)});
                  }
                  for (int v = 0; v < s.n; v += 4)
                    add({{v}, TAB, 1000 + v});
                  for (int v = 0; v < s.n; ++v)
                    if ((evp == 1 && v == 0) || (evp == 2 && v % 2 == 1) ||
                        (evp == 3 && v == s.n / 2) || (evp == 4 && v % 7 == 3)) {
                      m.setEvidence(u.ptr[v], v % sizes[v]);
                      r.ev[v] = v % sizes[v];
                    }
                  ForestSolver fs(r);
                  ++c.traces;
                  if (c.prop == "P06") {
                    for (std::size_t th : {1, 3})
                      for (int v : r.vars) {
                        Dist exp = fs.marginal(v);
                        if (r.ev.count(v)) {
                          exp.assign(sizes[v], 0.);
                          exp[r.ev[v]] = 1;
                        }
                        auto got = m.getMarginalDistribution(u.ptr[v], th);
                        VF_REQUIRE(close(got, exp, 5e-4), "marginal of ", v,
                                   " is ", showv(got), " expected ",
                                   show(exp));
                        ++c.comparisons;
                        ++c.transitions;
                        c.outcome(mix(7, (std::uint64_t)(got[0] * 1000)));
                      }
                  } else if (c.prop == "P07") {
                    // unique maximiser: every max-marginal has a clear winner
                    std::map<int, std::size_t> best;
                    bool unique = true;
                    for (int v : r.hidden()) {
                      auto d = fs.maxMarginal(v);
                      std::size_t b = 0;
                      for (std::size_t k = 1; k < d.size(); ++k)
                        if (d[k] > d[b])
                          b = k;
                      for (std::size_t k = 0; k < d.size(); ++k)
                        if (k != b && d[k] > d[b] * (1 - 1e-3))
                          unique = false;
                      best[v] = b;
                    }
                    if (!unique) {
                      ++c.skipped;
                      return;
                    }
                    for (std::size_t th : {1, 3}) {
                      auto got = m.getHiddenSetMAP(th);
                      std::size_t k = 0;
                      auto hid = m.getHiddenVariables();
                      VF_REQUIRE(got.size() == hid.size(), "MAP size");
                      for (const auto &p : hid) {
                        VF_REQUIRE(got[k] == best[u.idOf(p)], "MAP of ",
                                   p->name(), " is ", got[k], " expected ",
                                   best[u.idOf(p)]);
                        ++k;
                        ++c.comparisons;
                      }
                      m.getMarginalDistribution(u.ptr[0]);
                      ++c.transitions;
                    }
                  } else {
                    // joint of every connected pair: p(a,b) by conditioning
                    for (std::size_t i = 0; i < s.e.size();
                         i += (s.n > 40 ? 7 : 1)) {
                      auto [a, b] = s.e[i];
                      if (i % 2)
                        std::swap(a, b);
                      auto f = m.getJointMarginalDistribution(
                          cat::Group{u.ptr[a], u.ptr[b]}, 1 + i % 3);
                      auto got = f.getProbabilities();
                      RModel q = r;
                      Dist pa = fs.marginal(a);
                      if (r.ev.count(a)) {
                        pa.assign(sizes[a], 0.);
                        pa[r.ev[a]] = 1;
                      }
                      for (std::size_t x = 0; x < sizes[a]; ++x) {
                        q.ev[a] = x;
                        Dist pb(sizes[b], 0.);
                        if (r.ev.count(b))
                          pb[r.ev[b]] = 1;
                        else
                          pb = ForestSolver(q).marginal(b);
                        for (std::size_t y = 0; y < sizes[b]; ++y) {
                          double e = pa[x] * pb[y];
                          float g = got[x * sizes[b] + y];
                          VF_REQUIRE(std::fabs(g - e) < 5e-4, "joint of ", a,
                                     ",", b, " at ", x, ",", y, " is ", g,
                                     " expected ", e);
                        }
                      }
                      ++c.comparisons;
                      ++c.transitions;
                    }
                  }
                });
        }
}

// forests of 6 variables: all the evidence sets, groups of up to 6 members
void wide(Ctx &c) {
  std::vector<std::vector<Edge>> shapes = {
      {{0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 5}}, {{0, 1}, {0, 2}, {0, 3}, {0, 4}, {0, 5}}, {{0, 1}, {0, 2}, {1, 3}, {1, 4}, {2, 5}},
      {{0, 1}, {1, 2}, {3, 4}, {4, 5}},         {{5, 2}, {2, 4}, {4, 0}, {0, 3}, {4, 1}}};
  static const std::vector<std::vector<std::size_t>> sizeSets = {{2, 2, 2, 2, 2, 2}, {2, 3, 1, 2, 3, 2}};
  for (std::size_t sh = 0; sh < shapes.size(); ++sh)
    for (std::size_t z = 0; z < sizeSets.size(); ++z)
      for (unsigned evs = 0; evs < 64; ++evs) {
        if (c.prop == "P08" && !c.thorough() && (evs + sh + z) % 2)
          continue;
        Case k;
        k.sizes = sizeSets[z];
        k.model = (evs + z) % 3;
        k.evFirst = evs % 3 == 1;
        for (std::size_t i = 0; i < shapes[sh].size(); ++i) {
          auto [a, b] = shapes[sh][i];
          if ((evs + i) % 2)
            std::swap(a, b);
          k.f.push_back({{a, b}, i % 3 == 0 ? TAB : i % 3 == 1 ? EXPC : SPARSE, 200 + (int)i, i % 2 ? -1.1 : 0.9});
        }
        for (int v = 0; v < 6; v += 1 + evs % 3)
          k.f.push_back({{v}, v % 2 ? EXPS : TAB, 10 * v + 1, 0.8});
        for (int v = 0; v < 6; ++v)
          if (evs >> v & 1)
            k.ev[v] = (v + evs) % k.sizes[v];
        k.name = str("wide shape", sh, " sizes", z, " evidences", evs);
        runCase(c, k);
      }
}

// factors of very different scales: only their ratios matter
void scaled(Ctx &c) {
  std::vector<std::vector<Edge>> shapes = {{{0, 1}}, {{0, 1}, {1, 2}}, {{1, 0}, {2, 1}, {1, 3}}, {{0, 1}, {2, 3}}};
  const std::vector<std::size_t> sizes{2, 3, 2, 3};
  for (std::size_t sh = 0; sh < shapes.size(); ++sh)
    for (int content = 0; content < 3; ++content) {
      Case k;
      k.sizes = sizes;
      int n = 0;
      for (std::size_t i = 0; i < shapes[sh].size(); ++i) {
        auto [a, b] = shapes[sh][i];
        n = std::max({n, a + 1, b + 1});
        k.f.push_back({{a, b}, content == 1 ? SPARSE : content == 2 && i % 2 ? SPARSE : TAB, 300 + (int)i + 10 * content});
      }
      k.f.push_back({{0}, TAB, 400 + content});
      k.f.push_back({{1}, content == 2 ? SPARSE : TAB, 410 + content});
      int assignments = 1;
      for (std::size_t i = 0; i < k.f.size(); ++i)
        assignments *= 3;
      for (int as = 0; as < assignments; ++as)
        for (unsigned evs = 0; evs < (1u << n); ++evs) {
          if (!c.thorough() && n > 3 && (as + evs) % 4)
            continue;
          k.scale.clear();
          for (int x = as; k.scale.size() < k.f.size(); x /= 3)
            k.scale.push_back(x % 3 == 0 ? 1e-6 : x % 3 == 1 ? 1. : 1e6);
          k.model = (as + evs) % 3;
          k.evFirst = evs % 3 == 1;
          k.ev.clear();
          for (int v = 0; v < n; ++v)
            if (evs >> v & 1)
              k.ev[v] = (v + evs) % k.sizes[v];
          k.name = str("scaled shape", sh, " content", content, " scales", as, " evidences", evs);
          runCase(c, k);
        }
    }
}

// variables with many values
void many(Ctx &c) {
  std::vector<std::vector<Edge>> shapes = {{{0, 1}}, {{1, 0}}, {{0, 1}, {2, 1}}, {{1, 0}, {1, 2}}};
  std::vector<std::vector<std::size_t>> sizeSets = {{300, 2, 3}, {2, 300, 3}, {40, 40, 2}, {17, 2, 65}, {257, 1, 2}, {3, 33, 3}};
  for (std::size_t sh = 0; sh < shapes.size(); ++sh)
    for (std::size_t z = 0; z < sizeSets.size(); ++z)
      for (int content = 0; content < 2; ++content)
        for (unsigned evs = 0; evs < (shapes[sh].size() == 1 ? 4u : 8u); ++evs) {
          Case k;
          k.sizes = sizeSets[z];
          k.model = (evs + z) % 3;
          for (std::size_t i = 0; i < shapes[sh].size(); ++i) {
            auto [a, b] = shapes[sh][i];
            k.f.push_back({{a, b}, content ? SPARSE : TAB, 500 + (int)i});
          }
          k.f.push_back({{1}, TAB, 510});
          k.f.push_back({{0}, EXPC, 520, 0.9});
          for (int v = 0; v < 3; ++v)
            if (evs >> v & 1)
              k.ev[v] = evs % 2 ? k.sizes[v] - 1 : k.sizes[v] / 2;
          k.name = str("many values shape", sh, " sizes", showv(k.sizes), content ? " sparse" : "", " evidences", evs);
          runCase(c, k);
        }
}

// stars where one neighbour forbids the value all the others strongly favour:
// no amount of favour makes an impossible value possible
void forbidden(Ctx &c) {
  for (int n : {2, 3, 9, 15})
    for (int where : {0, n / 2, n - 1})
      for (int orient : {0, 1})
        for (int observed : {0, 1})
          for (std::size_t th : {1, 3})
            c.run([&] { return str("star of ", n, " leaves, leaf ", where, " forbids", orient ? " (reversed)" : "",
                                   observed ? " (observed)" : "", " threads", th); },
                  [&] {
                    c.state(mix(mix(mix(5, n), where), orient * 4 + observed * 2 + th / 3));
                    ++c.traces;
                    Vars u(std::vector<std::size_t>(n + 1, 2));
                    Graph m;
                    for (int i = 0; i < n; ++i) {
                      auto f = std::make_shared<fac::Factor>(
                          orient ? cat::Group{u.ptr[i + 1], u.ptr[0]} : cat::Group{u.ptr[0], u.ptr[i + 1]});
                      for (std::size_t x = 0; x < 2; ++x)
                        for (std::size_t y = 0; y < 2; ++y) {
                          float v = (x == 0 ? 1.f : i == where ? 0.f : 100.f) * (y == 0 ? 3.f : 1.f);
                          if (v != 0)
                            f->set(orient ? std::vector<std::size_t>{y, x} : std::vector<std::size_t>{x, y}, v);
                        }
                      m.addConstFactor(f);
                    }
                    if (observed)
                      m.setEvidence(u.ptr[where + 1], 0);
                    for (int v = 0; v <= n; ++v) {
                      ++c.comparisons;
                      ++c.transitions;
                      bool obs = observed && v == where + 1;
                      if (c.prop == "P06") {
                        Dist e = v == 0 || obs ? Dist{1, 0} : Dist{0.75, 0.25};
                        auto g = m.getMarginalDistribution(u.ptr[v], th);
                        VF_REQUIRE(close(g, e, 5e-4), "marginal of ", v, " is ", showv(g), " expected ", show(e));
                      } else if (c.prop == "P07") {
                        auto g = m.getMAP(u.ptr[v], th);
                        VF_REQUIRE(g == 0, "MAP of ", v, " is ", g, " expected 0");
                        for (auto k : m.getHiddenSetMAP(th))
                          VF_REQUIRE(k == 0, "MAP of the hidden set has ", k);
                      } else if (v > 0) {
                        auto g = m.getJointMarginalDistribution(cat::Group{u.ptr[v], u.ptr[0]}, th).getProbabilities();
                        Dist e = obs ? Dist{1, 0, 0, 0} : Dist{0.75, 0, 0.25, 0};
                        VF_REQUIRE(close(g, e, 5e-4), "joint of ", v, " and the centre is ", showv(g), " expected ", show(e));
                      }
                    }
                  });
}
} // namespace

int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    for (int n = 1; n <= 3; ++n)
      small(c, n, 4);
    small(c, 4, c.pick(2, 4));
    conditional(c, 3);
    if (c.thorough())
      conditional(c, 4);
    big(c);
    forbidden(c);
    scaled(c);
    many(c);
    wide(c);
    if (c.thorough())
      small(c, 5, 3);
  });
}
