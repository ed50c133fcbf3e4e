// P03: every small instance of the factor algebra on the real code, compared
// with the definition (tables indexed by named variables).
#include "net.hpp"

using namespace vf;

namespace {
using G = std::vector<int>;
std::vector<G> orderedGroups(int n, int maxLen) {
  std::vector<G> out, cur{{}};
  for (int l = 0; l < maxLen; ++l) {
    std::vector<G> nx;
    for (auto &g : cur)
      for (int v = 0; v < n; ++v)
        if (std::find(g.begin(), g.end(), v) == g.end()) {
          auto h = g;
          h.push_back(v);
          nx.push_back(h);
          out.push_back(h);
        }
    cur = nx;
  }
  return out;
}
// a table with any combination of zeros, decided by the id; independent of the
// order of the variables
float tableValue(int id, const G &g, const Comb &full, int kind) {
  std::uint32_t h = id * 977u + 3u;
  std::vector<int> s = g;
  std::sort(s.begin(), s.end());
  for (int v : s)
    h = hash32(h * 31u + v * 7u + (std::uint32_t)full[v] + 1u);
  if (kind == 1 && h % 3 == 0)
    return 0.f;
  if (kind == 2 && h % 5 != 0)
    return 0.f;
  return 0.25f + (h >> 8) % 64 / 16.f;
}
struct F {
  G g;
  int kind; // 0 dense 1 sparse 2 very sparse 3 exponential 4 empty
  int id;
  double w = 0.7;
};
std::string show(const F &f) {
  static const char *k[] = {"tab", "sparse", "verysparse", "exp", "empty"};
  return str(k[f.kind], f.id, showv(f.g));
}
Comb full(const Vars &u, const G &g, const Comb &c) {
  Comb r(u.size.size(), 0);
  for (std::size_t k = 0; k < g.size(); ++k)
    r[g[k]] = c[k];
  return r;
}
std::shared_ptr<fac::Factor> makeF(const F &f, const Vars &u) {
  auto r = std::make_shared<fac::Factor>(cat::Group{u.soup(f.g)});
  auto sz = sizesOf(u.size, f.g);
  if (f.kind == 4)
    return r;
  for (std::size_t i = 0; i < prod(sz); ++i) {
    auto c = unflat(i, sz);
    float v = tableValue(f.id, f.g, full(u, f.g, c), f.kind);
    if (v != 0)
      r->set(c, v);
  }
  return r;
}
std::shared_ptr<fac::Immutable> makeI(const F &f, const Vars &u) {
  auto r = makeF(f, u);
  if (f.kind == 3)
    return std::make_shared<fac::FactorExponential>(*r, (float)f.w);
  return r;
}
double raw(const F &f, const Comb &fullComb) {
  return f.kind == 4 ? 0. : tableValue(f.id, f.g, fullComb, f.kind);
}
double val(const F &f, const Comb &fullComb) {
  double r = raw(f, fullComb);
  return f.kind == 3 ? std::exp(f.w * r) : r;
}
bool near(double a, double b) {
  return std::fabs(a - b) <= 1e-5 * (1 + std::fabs(b));
}
G groupOf(const Vars &u, const fac::Immutable &f) {
  G g;
  for (auto &v : f.function().vars().getVariables()) {
    int id = -1;
    for (std::size_t k = 0; k < u.ptr.size(); ++k)
      if (u.ptr[k].get() == v.get())
        id = (int)k;
    VF_REQUIRE(id >= 0, "unknown variable instance in the result");
    g.push_back(id);
  }
  return g;
}
template <typename E>
void sameValues(Ctx &c, const Vars &u, const fac::Immutable &f, const G &g,
                E &&expected) {
  auto sz = sizesOf(u.size, g);
  std::size_t n = prod(sz), i = 0;
  f.function().template forEachCombination<true>([&](const Comb &x, float v) {
    VF_REQUIRE(i < n && x == unflat(i, sz), "iteration order");
    double e = expected(full(u, g, x));
    VF_REQUIRE(near(v, e), "value at ", showv(x), " is ", v, " expected ", e);
    float v2 = f.function().findTransformed(x);
    VF_REQUIRE(near(v2, e), "value found at ", showv(x), " is ", v2,
               " expected ", e);
    c.outcome(mix(5, (std::uint64_t)(e * 1000)));
    ++i;
    ++c.comparisons;
  });
  VF_REQUIRE(i == n, "iteration stops at ", i, " of ", n);
}
void tick(Ctx &c, const std::string &s) {
  ++c.transitions;
  ++c.traces;
  c.state(mix(1, s));
}

void merges(Ctx &c, const std::vector<std::size_t> &sizes,
            const std::vector<int> &kinds, int maxFactors,
            const std::vector<G> &groups) {
  std::vector<F> fs;
  auto check = [&] {
    c.run(
        [&] {
          std::string s = "merge sizes" + showv(sizes);
          for (auto &f : fs)
            s += " " + show(f);
          return s;
        },
        [&] {
          Vars u(sizes);
          std::vector<std::shared_ptr<fac::Immutable>> real;
          std::vector<const fac::Immutable *> ptr;
          std::set<int> un;
          std::string key = "merge" + showv(sizes);
          for (auto &f : fs) {
            real.push_back(makeI(f, u));
            ptr.push_back(real.back().get());
            un.insert(f.g.begin(), f.g.end());
            key += show(f);
          }
          tick(c, key);
          auto verify = [&](const fac::Factor &m) {
            auto g = groupOf(u, m);
            VF_REQUIRE(std::set<int>(g.begin(), g.end()) == un &&
                           g.size() == un.size(),
                       "merged over ", showv(g));
            sameValues(c, u, m, g, [&](const Comb &x) {
              double p = 1;
              for (auto &f : fs)
                p *= val(f, x);
              return p;
            });
          };
          verify(fac::Factor{ptr});
          if (fs.size() == 2)
            verify(fac::Factor::merge(*real[0], *real[1]));
          if (fs.size() == 3)
            verify(fac::Factor::merge(*real[0], *real[1], *real[2]));
          for (std::size_t k = 0; k < fs.size(); ++k) // untouched
            sameValues(c, u, *real[k], fs[k].g,
                       [&](const Comb &x) { return val(fs[k], x); });
        });
  };
  std::function<void(int)> rec = [&](int left) {
    if (!fs.empty())
      check();
    if (left == 0)
      return;
    for (auto &g : groups)
      for (int k : kinds) {
        fs.push_back({g, k, (int)fs.size() + 1});
        rec(left - 1);
        fs.pop_back();
      }
  };
  rec(maxFactors);
}

void rejectedMerges(Ctx &c) {
  // every pair of factors over {A,B} where the second uses another instance of
  // some of the variables, of the same or of another size
  for (int which = 0; which < 3; ++which)
    for (int dsize = 0; dsize < 2; ++dsize)
      for (auto &g : orderedGroups(2, 2))
        for (auto &h : orderedGroups(2, 2))
          c.run(
              [&] {
                return str("merge with another instance ", which, dsize,
                           showv(g), showv(h));
              },
              [&] {
                tick(c, str("reject", which, dsize, showv(g), showv(h)));
                Vars u({2, 2}), o({2, 2});
                for (int v = 0; v < 2; ++v)
                  if (which == v || which == 2)
                    o.ptr[v] = cat::make_variable(2 + dsize, str("V", v));
                  else
                    o.ptr[v] = u.ptr[v];
                for (int v = 0; v < 2; ++v)
                  o.size[v] = o.ptr[v]->size();
                auto a = makeF({g, 0, 1}, u), b = makeF({h, 0, 2}, o);
                bool clash = false;
                for (int v : g)
                  for (int w : h)
                    clash |= v == w && u.ptr[v] != o.ptr[v];
                // distinct names only: allowed
                bool t = throws([&] { fac::Factor::merge(*a, *b); });
                VF_REQUIRE(t == clash, clash ? "accepted" : "rejected");
                ++c.comparisons;
              });
  c.run([] { return "merge of nothing"; },
        [&] {
          tick(c, "nothing");
          VF_REQUIRE(throws([] {
                       fac::Factor f(std::vector<const fac::Immutable *>{});
                     }),
                     "accepted");
        });
}

void permutations(Ctx &c, const std::vector<std::size_t> &sizes) {
  auto groups = orderedGroups((int)sizes.size(), 3);
  for (auto &g : groups)
    for (int kind : {0, 1, 2, 4})
      for (auto &h : groups)
        for (int inst = 0; inst < 2; ++inst)
          c.run(
              [&] {
                return str("reorder sizes", showv(sizes), " ", show(F{g, kind, 1}),
                           " to ", showv(h), inst ? " other instances" : "");
              },
              [&] {
                tick(c, str("perm", showv(sizes), kind, showv(g), showv(h), inst));
                Vars u(sizes);
                Vars o = inst ? Vars(sizes) : u;
                F f{g, kind, 1};
                auto r = makeF(f, u);
                bool ok = !inst && std::set<int>(g.begin(), g.end()) ==
                                       std::set<int>(h.begin(), h.end());
                if (!ok) {
                  VF_REQUIRE(throws([&] {
                               r->cloneWithPermutedGroup(cat::Group{o.soup(h)});
                             }),
                             "not a permutation but accepted");
                  ++c.comparisons;
                } else {
                  auto p = r->cloneWithPermutedGroup(cat::Group{o.soup(h)});
                  auto got = groupOf(u, p);
                  VF_REQUIRE(got == h, "reordered to ", showv(got));
                  sameValues(c, u, p, h,
                             [&](const Comb &x) { return val(f, x); });
                  p.clear(); // independent
                }
                sameValues(c, u, *r, g,
                           [&](const Comb &x) { return val(f, x); });
              });
}

void correlations(Ctx &c) {
  std::vector<std::vector<std::size_t>> all, cur{{}};
  for (int l = 0; l < 4; ++l) {
    std::vector<std::vector<std::size_t>> nx;
    for (auto &x : cur)
      for (std::size_t s = 1; s <= (std::size_t)c.pick(4, 5); ++s) {
        auto y = x;
        y.push_back(s);
        nx.push_back(y);
        all.push_back(y);
      }
    cur = nx;
  }
  all.push_back({9, 9});
  all.push_back({13, 13});
  all.push_back({2, 2, 2, 2, 2, 2});
  for (auto &sz : all)
    for (int anti = 0; anti < 2; ++anti)
      c.run([&] { return str(anti ? "anti" : "", "correlation ", showv(sz)); },
            [&] {
              tick(c, str("corr", anti, showv(sz)));
              Vars u(sz);
              G g;
              bool ok = sz.size() > 1;
              for (std::size_t k = 0; k < sz.size(); ++k) {
                g.push_back((int)k);
                ok = ok && sz[k] == sz[0];
              }
              auto make = [&] {
                cat::Group grp{u.soup(g)};
                return anti ? std::make_shared<fac::Factor>(
                                  grp, fac::Factor::SimplyAntiCorrelatedTag{})
                            : std::make_shared<fac::Factor>(
                                  grp, fac::Factor::SimplyCorrelatedTag{});
              };
              if (!ok) {
                VF_REQUIRE(throws(make), "accepted");
                ++c.comparisons;
                return;
              }
              auto f = make();
              auto expected = [&](const Comb &x) {
                bool eq = true;
                for (auto v : x)
                  eq = eq && v == x[0];
                return eq != (bool)anti ? 1. : 0.;
              };
              sameValues(c, u, *f, g, expected);
              // remains a regular, editable factor
              auto top = unflat(prod(sz) - 1, sz);
              f->set(top, 5.f);
              sameValues(c, u, *f, g, [&](const Comb &x) {
                return x == top ? 5. : expected(x);
              });
            });
}

void exponentials(Ctx &c) {
  std::vector<double> ws = {0., 1., -1.5, 2., 0.001};
  for (auto &sizes : std::vector<std::vector<std::size_t>>{{2, 3, 2}, {1, 8, 1}})
    for (auto &g : orderedGroups(3, 3))
      for (int kind : {0, 1, 2, 4})
        for (double w0 : ws)
          for (double w1 : ws)
            c.run(
                [&] {
                  return str("exponential of ", show(F{g, kind, 1}), " sizes",
                             showv(sizes), " w ", w0, " then ", w1);
                },
                [&] {
                  tick(c, str("exp", showv(sizes), showv(g), kind, w0, w1));
                  Vars u(sizes);
                  F f{g, kind, 1};
                  auto base = makeF(f, u);
                  fac::FactorExponential e(*base, (float)w0);
                  auto is = [&](const fac::FactorExponential &x, double w) {
                    VF_REQUIRE(near(x.getWeight(), w), "weight ", x.getWeight());
                    sameValues(c, u, x, g, [&](const Comb &v) {
                      return std::exp(w * raw(f, v));
                    });
                    std::size_t n = 0;
                    auto sz = sizesOf(u.size, g);
                    x.function().forEachCombination<false>(
                        [&](const Comb &v, float r) {
                          VF_REQUIRE(near(r, raw(f, full(u, g, v))) &&
                                         near(x.function().findImage(v), r),
                                     "raw value at ", showv(v), " is ", r);
                          ++n;
                        });
                    VF_REQUIRE(n == prod(sz), "raw iteration");
                  };
                  is(e, w0);
                  fac::FactorExponential copy(e);
                  base->clear(); // independent of its source
                  base->set(Comb(g.size(), 0), 9.f);
                  e.setWeight((float)w1);
                  is(e, w1);
                  is(copy, w0);
                  copy.setWeight(0.3f);
                  is(copy, 0.3);
                  is(e, w1);
                  fac::Factor t(e, fac::Factor::CloneTrasformedImagesTag{});
                  e.setWeight(5.f);
                  sameValues(c, u, t, g, [&](const Comb &v) {
                    return std::exp(w1 * raw(f, v));
                  });
                  fac::FactorExponential one(*makeF(f, u));
                  is(one, 1);
                });
}

void finders(Ctx &c, const std::vector<std::size_t> &sizes) {
  int n = (int)sizes.size();
  for (auto &g : orderedGroups(n, 3))
    for (int kind : {0, 1, 3})
      for (auto &big : orderedGroups(n, n))
        for (int inst = 0; inst < 2; ++inst)
          c.run(
              [&] {
                return str("look up ", show(F{g, kind, 1}), " through ",
                           showv(big), inst ? " other instances" : "");
              },
              [&] {
                tick(c, str("find", showv(sizes), showv(g), kind, showv(big), inst));
                Vars u(sizes);
                Vars o = inst ? Vars(sizes) : u;
                F f{g, kind, 1};
                auto r = makeI(f, u);
                bool ok = !inst;
                for (int v : g)
                  ok = ok && std::find(big.begin(), big.end(), v) != big.end();
                if (!ok) {
                  VF_REQUIRE(throws([&] { r->makeFinder(o.soup(big)); }),
                             "accepted");
                  ++c.comparisons;
                  return;
                }
                auto fd = r->makeFinder(u.soup(big));
                auto sz = sizesOf(sizes, big);
                for (std::size_t i = 0; i < prod(sz); ++i) {
                  auto x = unflat(i, sz);
                  auto fl = full(u, big, x);
                  VF_REQUIRE(near(fd.findTransformed(x), val(f, fl)) &&
                                 near(fd.findImage(x), raw(f, fl)),
                             "at ", showv(x), " got ", fd.findTransformed(x),
                             " expected ", val(f, fl));
                  ++c.comparisons;
                  c.outcome(mix(6, (std::uint64_t)(val(f, fl) * 1000)));
                }
              });
}

void substitutions(Ctx &c) {
  // candidate replacing variables
  std::vector<std::pair<std::size_t, std::string>> cand = {
      {2, "N0"}, {2, "N1"}, {3, "N2"}, {3, "N3"}, {2, "V0"}, {2, "N0"}};
  std::vector<G> lists, cur{{}};
  lists.push_back({});
  for (int l = 0; l < 3; ++l) {
    std::vector<G> nx;
    for (auto &x : cur)
      for (int k = 0; k < (int)cand.size(); ++k) {
        auto y = x;
        y.push_back(k);
        nx.push_back(y);
        lists.push_back(y);
      }
    cur = nx;
  }
  std::vector<std::size_t> sizes = {2, 3, 2};
  for (auto &g : orderedGroups(3, 3))
    for (int kind : {0, 1, 3})
      for (auto &l : lists)
        c.run([&] { return str("substitute ", show(F{g, kind, 1}), " with ", showv(l)); },
              [&] {
                tick(c, str("subst", showv(g), kind, showv(l)));
                Vars u(sizes);
                F f{g, kind, 1};
                cat::VariablesSoup nv;
                std::set<std::string> names;
                bool ok = l.size() == g.size();
                for (int k : l) {
                  nv.push_back(cat::make_variable(cand[k].first, cand[k].second));
                  ok = ok && names.insert(cand[k].second).second;
                }
                for (std::size_t k = 0; ok && k < g.size(); ++k)
                  ok = cand[l[k]].first == sizes[g[k]];
                auto one = [&](auto &subject, auto &copy) {
                  bool t = throws([&] { subject.replaceVariables(nv); });
                  VF_REQUIRE(t == !ok, ok ? "rejected" : "accepted");
                  const auto &got = subject.function().vars().getVariables();
                  const auto exp = ok ? nv : u.soup(g);
                  VF_REQUIRE(got == exp, "variables after the substitution");
                  auto sz = sizesOf(sizes, g);
                  for (std::size_t i = 0; i < prod(sz); ++i) {
                    auto x = unflat(i, sz);
                    VF_REQUIRE(near(subject.function().findTransformed(x),
                                    val(f, full(u, g, x))),
                               "value changed at ", showv(x));
                    ++c.comparisons;
                  }
                  sameValues(c, u, copy, g,
                             [&](const Comb &x) { return val(f, x); });
                  if (ok) { // usable through the new variables
                    auto big = nv;
                    std::reverse(big.begin(), big.end());
                    auto fd = subject.makeFinder(big);
                    for (std::size_t i = 0; i < prod(sz); ++i) {
                      auto x = unflat(i, sz);
                      auto y = x;
                      std::reverse(y.begin(), y.end());
                      VF_REQUIRE(near(fd.findTransformed(y),
                                      val(f, full(u, g, x))),
                                 "look up after the substitution");
                    }
                  }
                };
                if (kind == 3) {
                  fac::FactorExponential s(*makeF(f, u), (float)f.w), cp(s);
                  one(s, cp);
                } else {
                  auto s = makeF(f, u);
                  fac::Factor cp(*s);
                  one(*s, cp);
                }
              });
}
} // namespace

int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    auto g2 = orderedGroups(3, 2), g3 = orderedGroups(3, 3);
    merges(c, {2, 3, 2}, {0, 1, 3}, 2, g3);
    merges(c, {2, 3, 2}, c.pick(std::vector<int>{1}, std::vector<int>{0, 2, 3}),
           3, c.pick(g2, g3));
    merges(c, {1, 7, 3}, {1, 2}, 2, g3);
    merges(c, {2, 2, 3, 2}, {1}, 2, orderedGroups(4, c.pick(2, 3)));
    if (c.thorough())
      merges(c, {2, 2, 3, 2}, {0}, 3, orderedGroups(4, 2));
    rejectedMerges(c);
    permutations(c, {2, 3, 2});
    permutations(c, {3, 3, 3});
    if (c.thorough())
      permutations(c, {2, 3, 4, 2});
    correlations(c);
    exponentials(c);
    finders(c, c.pick(std::vector<std::size_t>{2, 3, 2},
                      std::vector<std::size_t>{2, 3, 2, 3}));
    substitutions(c);
  });
}
