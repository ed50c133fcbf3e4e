// P04 P05 P08 P14 P15 P16 P21: models of up to 260 variables, with clusters of weights
// of any length, taken through a fixed history of changes, or absorbed; compared
// with the reference by exact elimination.
#include "contents.hpp"

using namespace vf;

namespace {
using Edge = std::pair<int, int>;
struct Shape {
  std::string name;
  int n;
  std::vector<Edge> e;
};
std::vector<Shape> shapes(int n) {
  std::vector<Shape> r;
  Shape chain{"chain", n, {}}, star{"star", n, {}}, tree{"tree", n, {}}, isl{"islands", n, {}}, fan{"late hub", n, {}};
  for (int i = 1; i < n; ++i) {
    chain.e.push_back({i - 1, i});
    star.e.push_back({0, i});
    tree.e.push_back({(i - 1) / 3, i});
    if (i % 4)
      isl.e.push_back({i, i - 1});
    fan.e.push_back({i - 1, n - 1});
  }
  return {chain, star, tree, isl, fan};
}
enum Pattern { OWN, ONE, THREES, MIXED, FEW, PATTERNS };
// one unary factor per variable, one factor per edge
std::vector<FSpec> specs(const Shape &g, int pattern, bool unaryFirst) {
  std::vector<FSpec> un, bi, r;
  for (int v = 0; v < g.n; ++v)
    un.push_back({{v}, TAB, 1000 + v});
  for (std::size_t k = 0; k < g.e.size(); ++k) {
    auto [a, b] = g.e[k];
    if (k % 2)
      std::swap(a, b);
    bi.push_back({{a, b}, TAB, (int)k + 1});
  }
  r = unaryFirst ? un : bi;
  for (auto &s : unaryFirst ? bi : un)
    r.push_back(s);
  std::vector<int> head;
  int tun = 0;
  for (std::size_t k = 0; k < r.size(); ++k) {
    bool pair = r[k].v.size() == 2;
    bool t = pattern == FEW ? k % 9 == 4 : pattern == MIXED ? (k % 2 == 0) : pair || k % 5 == 0;
    if (!t) {
      if (pattern == MIXED && k % 4 == 1)
        r[k].k = EXPC, r[k].w = 0.3;
      continue;
    }
    r[k].k = TUN;
    r[k].w = 0.2 + 0.01 * (tun % 40) - (tun % 3 == 1 ? 0.7 : 0);
    bool starts = head.empty() || pattern == OWN || pattern == FEW || ((pattern == THREES || pattern == MIXED) && tun % 3 == 0);
    if (starts)
      head = r[k].v;
    else
      r[k].share = head;
    ++tun;
  }
  return r;
}
std::vector<std::size_t> sizesFor(int n, int how) {
  std::vector<std::size_t> s;
  for (int i = 0; i < n; ++i)
    s.push_back(how == 0 ? 2 : 1 + (i + 1) % 4);
  return s;
}

// weights of the model by cluster of the reference: position in the model of
// each one, from the groups tuned
template <typename M> std::vector<int> order(const M &m, const TRef &t, const Vars &u) {
  std::map<std::set<int>, int> where;
  int k = 0;
  for (auto &c : m.getTunableClusters()) {
    std::vector<EFG::train::FactorExponentialPtr> fs;
    if (auto *one = std::get_if<EFG::train::FactorExponentialPtr>(&c))
      fs = {*one};
    else
      fs = std::get<EFG::train::TunableClusters>(c);
    for (auto &f : fs) {
      std::set<int> g;
      for (auto &v : f->function().vars().getVariables())
        g.insert(u.idOf(v));
      where[g] = k;
    }
    ++k;
  }
  VF_REQUIRE((std::size_t)k == t.clusters.size(), "number of clusters ", k, " expected ", t.clusters.size());
  std::vector<int> r;
  std::set<int> seen;
  for (auto &c : t.clusters) {
    int at = -1;
    for (int i : c) {
      auto it = where.find(std::set<int>(t.r.f[i].v.begin(), t.r.f[i].v.end()));
      VF_REQUIRE(it != where.end(), "a tunable factor is in no cluster");
      VF_REQUIRE(at < 0 || at == it->second, "factors sharing a weight are in two clusters");
      at = it->second;
    }
    VF_REQUIRE(seen.insert(at).second, "two clusters merged");
    r.push_back(at);
  }
  return r;
}
template <typename M> void checkTunables(Ctx &c, const M &m, const TRef &t, const Vars &u, bool keepsOrder) {
  auto o = order(m, t, u);
  auto w = m.getWeights();
  VF_REQUIRE(w.size() == t.weights.size(), "number of weights ", w.size(), " expected ", t.weights.size());
  for (std::size_t k = 0; k < o.size(); ++k) {
    VF_REQUIRE(!keepsOrder || o[k] == (int)k, "cluster ", k, " moved to ", o[k]);
    VF_REQUIRE(std::fabs(w[o[k]] - t.weights[k]) < 1e-5, "weight ", o[k], " is ", w[o[k]], " expected ", t.weights[k]);
  }
  std::size_t tun = 0, total = 0;
  for (auto &x : t.clusters)
    tun += x.size();
  for (auto &f : m.getTunableFactors()) {
    std::set<int> g;
    for (auto &v : f->function().vars().getVariables())
      g.insert(u.idOf(v));
    int k = t.clusterOf(g);
    VF_REQUIRE(k >= 0, "a constant factor is listed as tunable");
    VF_REQUIRE(std::fabs(f->getWeight() - t.weights[k]) < 1e-5, "a factor of cluster ", k, " carries weight ", f->getWeight(), " expected ",
               t.weights[k]);
    ++total;
  }
  VF_REQUIRE(total == tun, "tunable factors ", total, " expected ", tun);
  VF_REQUIRE(m.getConstFactors().size() + tun == t.r.f.size(), "constant factors ", m.getConstFactors().size());
  c.comparisons += 4;
}
// probes: all the variables would be quadratic
std::vector<int> probes(const RModel &r) {
  std::set<int> s;
  std::size_t n = r.vars.size();
  for (std::size_t k = 0; k < n; k += 1 + n / 12)
    s.insert(r.vars[k]);
  for (std::size_t k : {n - 1, n / 2, (std::size_t)1})
    s.insert(r.vars[k % n]);
  for (auto &[v, x] : r.ev)
    for (auto &y : r.f)
      if (y.v.size() == 2 && (y.v[0] == v || y.v[1] == v) && s.size() < 30)
        s.insert(y.v[0] == v ? y.v[1] : y.v[0]);
  return {s.begin(), s.end()};
}
template <typename M> void checkAnswers(Ctx &c, M &m, const RModel &r, const Vars &u, bool map) {
  ForestSolver s(r);
  for (int v : probes(r)) {
    if (!map) {
      Dist exp(r.size[v], 0.);
      if (r.ev.count(v))
        exp[r.ev.at(v)] = 1;
      else
        exp = s.marginal(v);
      auto got = m.getMarginalDistribution(u.ptr[v]);
      VF_REQUIRE(close(got, exp, 2e-4), "marginal of ", u.ptr[v]->name(), " is ", showv(got), " expected ", vf::show(exp));
    } else {
      auto got = m.getMAP(u.ptr[v]);
      if (r.ev.count(v)) {
        VF_REQUIRE(got == r.ev.at(v), "MAP of observed ", u.ptr[v]->name());
        continue;
      }
      auto exp = s.maxMarginal(v);
      std::size_t best = std::max_element(exp.begin(), exp.end()) - exp.begin();
      bool unique = true;
      for (std::size_t k = 0; k < exp.size(); ++k)
        unique = unique && (k == best || exp[k] < exp[best] * (1 - 1e-2));
      if (!unique) {
        ++c.skipped;
        continue;
      }
      VF_REQUIRE(got == best, "MAP of ", u.ptr[v]->name(), " is ", got, " expected ", best);
    }
    ++c.comparisons;
  }
  checkPropagationInfo(c, m, r, map ? EFG::strct::PropagationKind::MAP : EFG::strct::PropagationKind::SUM);
  ++c.traces;
}
std::vector<double> newWeights(std::size_t n, int round) {
  std::vector<double> w;
  for (std::size_t k = 0; k < n; ++k)
    w.push_back(0.05 * (double)((k * 7 + round * 5) % 23) - 0.5);
  return w;
}
template <typename M> void setWeights(M &m, TRef &t, const Vars &u, int round) {
  auto o = order(m, t, u);
  auto w = newWeights(t.weights.size(), round);
  std::vector<float> x(w.size());
  for (std::size_t k = 0; k < o.size(); ++k)
    x[o[k]] = (float)w[k];
  m.setWeights(x);
  t.setWeights(w);
}
struct Case {
  Shape g;
  int pattern, sizes;
  bool unaryFirst;
  std::string show() const {
    return str(g.name, " of ", g.n, " pattern ", pattern, " sizes ", sizes, unaryFirst ? " unary first" : "");
  }
};

// a history of changes of evidences and weights
void history(Ctx &c, const Case &k) {
  TModel x(sizesFor(k.g.n, k.sizes), specs(k.g, k.pattern, k.unaryFirst));
  auto &r = x.t.r;
  auto &m = x.m;
  int n = k.g.n;
  auto look = [&](bool map) {
    if (c.prop == "P04")
      checkStructure(c, m, r, x.u);
    if (c.prop == "P14")
      checkTunables(c, m, x.t, x.u, true);
    checkAnswers(c, m, r, x.u, map);
    ++c.transitions;
  };
  auto observe = [&](int v, int val) {
    val %= (int)r.size[v];
    m.setEvidence(x.u.ptr[v], val);
    r.ev[v] = val;
    ++c.transitions;
  };
  look(false);
  for (int v = 0; v < n; v += 3)
    observe(v, v);
  look(true);
  setWeights(m, x.t, x.u, 1);
  for (int v = 0; v < n; v += 6)
    observe(v, v + 1);
  look(false);
  std::vector<int> out;
  for (int v = 3; v < n; v += 6)
    out.push_back(v);
  m.removeEvidences(x.u.set(out));
  for (int v : out)
    r.ev.erase(v);
  look(false);
  observe(n - 1, 1);
  observe(1, 1);
  look(true);
  setWeights(m, x.t, x.u, 2);
  look(true);
  m.removeEvidence(x.u.ptr[1]);
  r.ev.erase(1);
  look(false);
  m.removeAllEvidences();
  r.ev.clear();
  look(false);
  // an insertion joins two far variables of the islands, or a new variable
  FSpec extra{{n - 1, 0}, TUN, 7777, 0.4, {}};
  if (k.g.name == "islands") {
    x.t.add(extra);
    addReal(m, extra, x.u);
    ++c.transitions;
    if (r.forest())
      look(false);
  }
  for (int v = n - 1; v > 0; v -= 2)
    observe(v, v / 2);
  look(false);
  // everything observed
  for (int v = 0; v < n; ++v)
    observe(v, v / 3);
  look(false);
  m.removeAllEvidences();
  r.ev.clear();
  look(true);
}

// expected value of every cluster given the evidences
std::vector<double> expectation(const TRef &t, const RModel &r) {
  ForestSolver s(r);
  std::vector<double> e(t.weights.size(), 0.);
  for (std::size_t k = 0; k < t.clusters.size(); ++k)
    for (int i : t.clusters[k]) {
      auto &f = r.f[i];
      int a = f.v[0], b = f.v.size() == 2 ? f.v[1] : -1;
      auto dist = [&](int v, int parent) {
        Dist d(r.size[v], 0.);
        if (r.ev.count(v))
          d[r.ev.at(v)] = 1;
        else
          d = s.up(v, parent, false);
        return d;
      };
      if (b < 0) {
        auto d = dist(a, -1);
        for (std::size_t q = 0; q < d.size(); ++q)
          e[k] += d[q] * f.raw[q];
      } else {
        bool both = !r.ev.count(a) && !r.ev.count(b);
        auto da = dist(a, both ? b : -1), db = dist(b, both ? a : -1);
        double mass = 0, sum = 0;
        for (std::size_t p = 0; p < da.size(); ++p)
          for (std::size_t q = 0; q < db.size(); ++q) {
            double w = da[p] * db[q] * (both ? f.t[p * db.size() + q] : 1);
            mass += w;
            sum += w * f.raw[p * db.size() + q];
          }
        e[k] += sum / mass;
      }
    }
  return e;
}
std::vector<Comb> samplesFor(const RModel &r, int count) {
  std::vector<Comb> s;
  for (int i = 0; i < count; ++i) {
    Comb x;
    for (std::size_t v = 0; v < r.size.size(); ++v)
      x.push_back(hash32((unsigned)(i * 977 + v * 13 + 5)) % r.size[v]);
    s.push_back(x);
  }
  return s;
}
void compareGradient(Ctx &c, const std::vector<float> &got, const std::vector<double> &exp, const std::vector<int> &o, const char *when,
                     const TRef &t) {
  VF_REQUIRE(got.size() == exp.size(), when, ": gradient of ", got.size(), " terms, expected ", exp.size());
  for (std::size_t k = 0; k < exp.size(); ++k) {
    double scale = 1 + std::fabs(exp[k]) + 0.3 * (double)t.clusters[k].size();
    VF_REQUIRE(std::fabs(got[o[k]] - exp[k]) <= 2e-3 * scale, when, ": gradient term ", k, " is ", got[o[k]], " expected ", exp[k]);
    ++c.comparisons;
  }
  ++c.traces;
}
std::vector<double> alpha(const TRef &t, const std::vector<Comb> &s) {
  std::vector<double> a(t.weights.size(), 0.);
  for (auto &x : s)
    for (std::size_t k = 0; k < a.size(); ++k)
      for (int i : t.clusters[k])
        a[k] += t.r.rawValue(t.r.f[i], x) / (double)s.size();
  return a;
}
void gradient(Ctx &c, const Case &k) {
  TModel x(sizesFor(k.g.n, k.sizes), specs(k.g, k.pattern, k.unaryFirst));
  int round = 0;
  for (int count : {1, 3, 20}) {
    auto s = samplesFor(x.t.r, count);
    auto exp = alpha(x.t, s), e = expectation(x.t, x.t.r);
    for (std::size_t q = 0; q < exp.size(); ++q)
      exp[q] -= e[q];
    TrainSet set{toModelOrder(x.m, x.u, s)};
    compareGradient(c, x.m.getWeightsGradient(set.makeIterator()), exp, order(x.m, x.t, x.u), "random field", x.t);
    setWeights(x.m, x.t, x.u, ++round);
    ++c.transitions;
  }
}
void condGradient(Ctx &c, const Case &k, int every) {
  // no unary factor on observed variables, no factor joining two of them
  std::vector<FSpec> fs;
  for (auto &f : specs(k.g, k.pattern, k.unaryFirst))
    if (f.v[0] % every != 1 || (f.v.size() == 2 && f.v[1] % every != 1))
      fs.push_back(f);
  // a cluster whose first factor is gone starts with the next one
  std::map<std::vector<int>, std::vector<int>> moved;
  std::set<std::vector<int>> there;
  for (auto &f : fs) {
    if (!f.share.empty() && !there.count(f.share)) {
      auto it = moved.find(f.share);
      if (it == moved.end()) {
        moved[f.share] = f.v;
        f.share.clear();
      } else
        f.share = it->second;
    }
    there.insert(f.v);
  }
  TModel x(sizesFor(k.g.n, k.sizes), fs);
  RModel r = x.t.r;
  for (int v = 0; v < k.g.n; ++v)
    if (v % every == 1 && r.has(v)) {
      x.m.setEvidence(x.u.ptr[v], 0);
      r.ev[v] = 0;
    }
  ConditionalRandomField f(x.m, true);
  int round = 3;
  for (int count : {1, 4}) {
    auto s = samplesFor(r, count);
    s.push_back(s[0]);
    auto exp = alpha(x.t, s);
    for (auto &one : s) {
      RModel q = x.t.r;
      q.ev = r.ev;
      for (auto &[v, val] : q.ev)
        val = one[v];
      auto e = expectation(x.t, q);
      for (std::size_t z = 0; z < exp.size(); ++z)
        exp[z] -= e[z] / (double)s.size();
    }
    TrainSet set{toModelOrder(f, x.u, s)};
    compareGradient(c, f.getWeightsGradient(set.makeIterator()), exp, order(f, x.t, x.u), "conditional field", x.t);
    setWeights(f, x.t, x.u, ++round);
    ++c.transitions;
  }
}
// a deep copy holds tables instead of constant exponential factors
Contents tables(Contents x, bool all) {
  for (auto &f : x.f)
    if (f.exponential && (all || !f.tunable)) {
      f.exponential = false;
      for (auto &v : f.raw)
        v = std::exp(f.w * v);
    }
  return x;
}
// big models absorbed
void absorb(Ctx &c, const Case &k, bool copy, bool warm) {
  TModel x(sizesFor(k.g.n, k.sizes), specs(k.g, k.pattern, k.unaryFirst));
  auto &u = x.u;
  int n = k.g.n;
  if (warm) {
    x.m.setEvidence(u.ptr[n / 2], 0);
    x.m.getMarginalDistribution(u.ptr[0]);
    x.m.removeAllEvidences();
  }
  auto before = contents(x.m);
  RandomField recv;
  recv.absorb(x.m, copy);
  ++c.transitions;
  same(c, contents(x.m), before, false, "source after being absorbed");
  same(c, contents(recv), copy ? tables(before, false) : before, false, copy ? "absorbed deep" : "absorbed shallow", true);
  TRef tr = x.t;
  // variables of the receiver are listed in another order
  checkTunables(c, recv, tr, u, false);
  checkAnswers(c, recv, tr.r, u, false);
  setWeights(recv, tr, u, 4);
  checkTunables(c, recv, tr, u, false);
  checkAnswers(c, recv, tr.r, u, false);
  if (copy) {
    checkTunables(c, x.m, x.t, u, true);
    checkAnswers(c, x.m, x.t.r, u, false);
    setWeights(x.m, x.t, u, 5);
    checkAnswers(c, x.m, x.t.r, u, false);
    checkTunables(c, recv, tr, u, false);
  }
  RandomField again(recv);
  same(c, contents(again), contents(recv), false, "copied", true);
  checkAnswers(c, again, tr.r, u, true);
  Graph g;
  g.absorb(recv, copy);
  same(c, contents(g), copy ? tables(contents(recv), true) : contents(recv), true, "absorbed by a graph");
  VF_REQUIRE(g.getAllFactors().size() == tr.r.f.size() && g.getAllVariables().size() == tr.r.vars.size(), "absorbed by a graph: ",
             g.getAllFactors().size(), " factors over ", g.getAllVariables().size(), " variables");
  for (int v = 0; v < n; v += 4) {
    g.setEvidence(u.ptr[v], 0);
    tr.r.ev[v] = 0;
  }
  checkAnswers(c, g, tr.r, u, false);
  ++c.traces;
}
// joints of bigger groups (brute force), and of pairs of big forests
void joints(Ctx &c, const Case &k, int every) {
  int n = k.g.n;
  TModel x(sizesFor(n, k.sizes), specs(k.g, k.pattern, k.unaryFirst));
  auto &r = x.t.r;
  if (every)
    for (int v = 2; v < n; v += every) {
      x.m.setEvidence(x.u.ptr[v], 0);
      r.ev[v] = 0;
    }
  auto tryGroup = [&](const std::vector<int> &g, const Dist &exp) {
    auto f = x.m.getJointMarginalDistribution(cat::Group{x.u.soup(g)});
    const auto &gv = f.function().vars().getVariables();
    VF_REQUIRE(gv.size() == g.size(), "joint over ", gv.size(), " variables");
    for (std::size_t q = 0; q < g.size(); ++q)
      VF_REQUIRE(gv[q].get() == x.u.ptr[g[q]].get(), "variable ", q, " of the joint");
    auto got = f.getProbabilities();
    VF_REQUIRE(close(got, exp, 2e-4), "joint of ", showv(g), " is ", showv(got), " expected ", vf::show(exp));
    ++c.comparisons;
    ++c.transitions;
  };
  if (n <= 12) {
    for (int root : {0, n / 2, n - 1}) {
      // the group grows along the edges; observed variables are added as well
      std::vector<int> g{root};
      bool grown = true;
      while (grown && g.size() < 9) {
        grown = false;
        for (auto &[a, b] : k.g.e) {
          bool ia = std::find(g.begin(), g.end(), a) != g.end(), ib = std::find(g.begin(), g.end(), b) != g.end();
          if (ia == ib)
            continue;
          auto more = g;
          more.push_back(ia ? b : a);
          if (!hiddenConnected(r, more) || prod(sizesOf(r.size, more)) > 2000)
            continue;
          g = more;
          grown = true;
          if (g.size() >= 3) {
            tryGroup(g, r.joint(g));
            auto rev = g;
            std::reverse(rev.begin(), rev.end());
            tryGroup(rev, r.joint(rev));
            std::rotate(rev.begin(), rev.begin() + (long)rev.size() / 2, rev.end());
            tryGroup(rev, r.joint(rev));
          }
          if (g.size() >= 9)
            break;
        }
      }
    }
  } else {
    ForestSolver s(r);
    for (std::size_t q = 0; q < k.g.e.size(); q += 1 + k.g.e.size() / 9) {
      auto [a, b] = k.g.e[q];
      const RFactor *f = nullptr;
      for (auto &y : r.f)
        if (y.v.size() == 2 && ((y.v[0] == a && y.v[1] == b) || (y.v[0] == b && y.v[1] == a)))
          f = &y;
      bool both = !r.ev.count(a) && !r.ev.count(b);
      auto dist = [&](int v, int parent) {
        Dist d(r.size[v], 0.);
        if (r.ev.count(v))
          d[r.ev.at(v)] = 1;
        else
          d = s.up(v, parent, false);
        return d;
      };
      auto da = dist(a, both ? b : -1), db = dist(b, both ? a : -1);
      Dist e, t;
      double mass = 0;
      for (std::size_t i = 0; i < da.size(); ++i)
        for (std::size_t j = 0; j < db.size(); ++j) {
          e.push_back(da[i] * db[j] * (both ? s.at(*f, a, i, j) : 1.));
          mass += e.back();
        }
      for (auto &y : e)
        y /= mass;
      for (std::size_t j = 0; j < db.size(); ++j)
        for (std::size_t i = 0; i < da.size(); ++i)
          t.push_back(e[i * db.size() + j]);
      tryGroup({a, b}, e);
      tryGroup({b, a}, t);
    }
  }
  ++c.traces;
}
// a model whose variables have names that differ little, used by name
void names(Ctx &c) {
  std::vector<std::string> menu = {"A", "a", "A ", " A", "A1", "A01", "1", "01", "1.0", "+1", "A_", "_A", "AB", "BA", "A\n", "A\t", "A,B", "\xc3\xa9", "e\xcc\x81"};
  menu.push_back(std::string("A\0", 2));
  menu.push_back(std::string("A\0b", 3));
  for (int len : {15, 16, 31, 32, 63, 64, 255, 256, 1000})
    for (char last : {'x', 'y'})
      menu.push_back(std::string(len, 'n') + last);
  int n = (int)menu.size();
  for (int v = 0; v < n; ++v)
    for (int w = 0; w < n; w += 1 + (c.thorough() ? 0 : 3))
      c.run([&] { return str("names: variables ", v, " and ", w, " of ", n, " used by name"); },
            [&] {
              std::vector<std::size_t> sizes(n);
              for (int i = 0; i < n; ++i)
                sizes[i] = 2 + i % 2;
              Vars u(sizes, menu);
              Graph m;
              RModel r;
              r.size = sizes;
              for (int i = 0; i < n; ++i) {
                std::vector<FSpec> fs{{{i}, TAB, 300 + i}};
                if (i)
                  fs.push_back({{i - (i % 4 ? 1 : i), i}, TAB, i});
                for (auto &f : fs) {
                  m.addConstFactor(makeReal(f, u));
                  r.add(makeRef(f, sizes));
                }
              }
              auto look = [&] {
                checkStructure(c, m, r, u);
                ForestSolver s(r);
                for (int q : {v, w, (v + 1) % n, (w + n - 1) % n}) {
                  Dist exp(r.size[q], 0.);
                  if (r.ev.count(q))
                    exp[r.ev.at(q)] = 1;
                  else
                    exp = s.marginal(q);
                  auto got = m.getMarginalDistribution(menu[q]);
                  VF_REQUIRE(close(got, exp, 2e-4), "marginal of <", menu[q], "> is ", showv(got), " expected ", vf::show(exp));
                }
                ++c.transitions;
              };
              look();
              m.setEvidence(menu[v], 1);
              r.ev[v] = 1;
              look();
              m.setEvidence(menu[w], 0);
              r.ev[w] = 0;
              look();
              m.removeEvidence(menu[v]);
              r.ev.erase(v);
              look();
              if (v != w) {
                m.removeEvidences(std::unordered_set<std::string>{menu[w]});
                r.ev.erase(w);
                look();
              }
              // names nobody has
              auto a = menu[v], b = menu[v];
              a += "?";
              b.pop_back();
              for (auto &x : {a, b, "?" + menu[v], menu[v] + menu[v] + "!", std::string()}) {
                if (std::find(menu.begin(), menu.end(), x) != menu.end())
                  continue;
                VF_REQUIRE(throws([&] { m.findVariable(x); }), "variable <", x, "> found");
                VF_REQUIRE(throws([&] { m.getMarginalDistribution(x); }), "marginal of <", x, "> answered");
                VF_REQUIRE(throws([&] { m.getMAP(x); }), "MAP of <", x, "> answered");
                VF_REQUIRE(throws([&] { m.getJointMarginalDistribution(std::vector<std::string>{menu[w], x}); }), "joint with <", x, "> answered");
                VF_REQUIRE(throws([&] { m.setEvidence(x, 0); }), "evidence on <", x, "> accepted");
                VF_REQUIRE(throws([&] { m.removeEvidence(x); }), "evidence on <", x, "> removed");
              }
              look();
              c.state(mix(mix(31, (std::uint64_t)v), (std::uint64_t)w));
              c.outcome(mix(mix(32, (std::uint64_t)v), (std::uint64_t)w));
              ++c.traces;
            });
}
} // namespace

int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    if (c.prop == "P04" || c.prop == "P05")
      names(c);
    if (c.prop == "P05")
      return;
    std::vector<int> ns = c.prop == "P04" || c.prop == "P14" ? std::vector<int>{10, 17, 33, 65, 130, 260} : std::vector<int>{10, 17, 33, 65, 130};
    if (c.prop == "P08")
      ns = {9, 11, 12, 33, 65, 130};
    if (c.thorough() && c.prop != "P08") {
      ns.clear();
      for (int n = 7; n <= 70; ++n)
        ns.push_back(n);
      for (int n : {127, 128, 129, 255, 256, 257})
        ns.push_back(n);
    }
    for (int n : ns)
      for (auto &g : shapes(n))
        for (int p = 0; p < PATTERNS; ++p)
          for (int sz = 0; sz < 2; ++sz)
            for (int uf = 0; uf < 2; ++uf) {
              if (!c.thorough() && n > 130 && (p == OWN || p == THREES || p == FEW || !sz))
                continue;
              Case k{g, p, sz, uf == 1};
              auto run = [&](const std::string &what, const std::function<void()> &fn) {
                c.run([&] { return k.show() + what; },
                      [&] {
                        c.state(mix(11, k.show() + what));
                        fn();
                        c.outcome(mix(mix(13, k.show()), what));
                      });
              };
              if (c.prop == "P04" || c.prop == "P14")
                run(" history", [&] { history(c, k); });
              else if (c.prop == "P08")
                for (int every : {0, 3, 7})
                  run(str(" joints, one variable observed every ", every), [&] { joints(c, k, every); });
              else if (c.prop == "P15")
                run(" gradient", [&] { gradient(c, k); });
              else if (c.prop == "P16")
                for (int every : {2, 3, 11})
                  run(str(" gradient, one variable observed every ", every), [&] { condGradient(c, k, every); });
              else if (c.prop == "P21")
                for (int copy = 0; copy < 2; ++copy)
                  for (int warm = 0; warm < 2; ++warm) {
                    if (!c.thorough() && (warm + copy + p + sz + uf) % 2)
                      continue; // quick: half of the combinations
                    run(str(copy ? " absorbed deep" : " absorbed shallow", warm ? " after queries" : ""),
                        [&] { absorb(c, k, copy == 1, warm == 1); });
                  }
            }
  });
}
