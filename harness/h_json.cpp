// P18: export to json followed by import reproduces the model. P23 (h_xml.cpp):
// the same through xml files.
#include "contents.hpp"
#ifdef VF_XML
#include <EasyFactorGraph/io/xml/Exporter.h>
#include <EasyFactorGraph/io/xml/Importer.h>
#else
#include <EasyFactorGraph/io/json/Exporter.h>
#include <EasyFactorGraph/io/json/Importer.h>
#endif
#include <cfloat>
#include <filesystem>

using namespace vf;
namespace {
#ifdef VF_XML
using EFG::io::xml::Exporter;
using EFG::io::xml::Importer;
constexpr bool ANY_ORDER = true; // the format keeps tags in multimaps
template <typename M> struct Trip {
  std::string path;
  Trip(const M &m, const std::string &scratch, int id) : path(str(scratch, "/model", id % 16, ".xml")) {
    Exporter::exportToFile(m, {path, "Model"});
    std::ifstream f(path);
    std::stringstream b;
    b << f.rdbuf();
    VF_REQUIRE(b.str() == Exporter::exportToString(m, "Model"), "the file and the string exported differ");
  }
  ~Trip() { std::filesystem::remove(path); }
  template <typename N> void into(N &n) { Importer::importFromFile(n, path); }
};
#else
using EFG::io::json::Exporter;
using EFG::io::json::Importer;
constexpr bool ANY_ORDER = false;
template <typename M> struct Trip {
  nlohmann::json j;
  Trip(const M &m, const std::string &, int) : j(Exporter::exportToJson(m)) {}
  template <typename N> void into(N &n) { Importer::importFromJson(n, j); }
};
#endif
template <typename M> void roundTrip(Ctx &c, const M &m, int id) {
  auto exp = contents(m);
  Trip<M> j(m, c.scratch, id);
  for (auto &x : exp.f)
    c.outcome(mix(5, showd(x)));
  {
    RandomField a;
    j.into(a);
    auto got = contents(a);
    same(c, got, exp, false, "direct", ANY_ORDER);
    // a second trip changes nothing more
    RandomField b;
    Trip<RandomField>(a, c.scratch, id + 8).into(b);
    same(c, contents(b), exp, false, "second trip", ANY_ORDER);
  }
  {
    Graph a;
    j.into(a);
    same(c, contents(a), exp, true, "into a graph");
  }
#ifndef VF_XML
  {
    std::string path = str(c.scratch, "/model", id % 16, ".json");
    Exporter::exportToFile(m, path);
    RandomField a;
    Importer::importFromFile(a, path);
    same(c, contents(a), exp, false, "through a file");
    std::filesystem::remove(path);
  }
#endif
  // the exported model is not affected
  same(c, contents(m), exp, false, "source");
  c.transitions += 4;
}
template <typename M> void answers(Ctx &c, M &m, const RModel &r, const Vars &u) {
  if (!r.forest())
    return;
  auto a = r.solve();
  RandomField f;
  Trip<M> j(m, c.scratch, 0);
  j.into(f);
  Graph g;
  j.into(g);
  for (int v : r.vars) {
    auto d = f.getMarginalDistribution(u.ptr[v]->name());
    VF_REQUIRE(close(d, a.marginal.at(v)), "imported field: marginal of ", v, " is ", showv(d));
    d = g.getMarginalDistribution(u.ptr[v]->name());
    VF_REQUIRE(close(d, a.marginal.at(v)), "imported graph: marginal of ", v, " is ", showv(d));
    ++c.comparisons;
  }
}

void models(Ctx &c) {
  int id = 0;
  for (int n = 1; n <= 3; ++n)
    for (auto &e : allGraphs(n))
      for (int variant = 0; variant < 8; ++variant) {
        if (!c.thorough() && variant != 0 && variant != 5 && variant != 3)
          continue;
        std::vector<std::size_t> sizes{2, 3, 4};
        sizes.resize(n);
        int cnt = 0;
        forEachModel(n, e, {R_CONST, R_EXPC, R_TUN, R_SHARED}, {R_NONE, R_CONST, R_TUN, R_SHARED}, variant,
                     [&](const std::vector<FSpec> &fs) {
                       ++cnt;
                       if (!c.thorough() && e.size() == 3 && cnt % 8)
                         return;
                       if (!c.thorough() && e.size() == 2 && cnt % 2)
                         return;
                       for (unsigned ev = 0; ev < (1u << n); ++ev) {
                         if (n == 3 && (ev * 3 + cnt) % 4)
                           continue;
                         int my = id++;
                         c.run([&] { return "model " + show(fs) + str(" evidences ", ev); },
                               [&] {
                                 c.state(mix(mix(1, show(fs)), (std::uint64_t)ev));
                                 ++c.traces;
                                 TModel x(sizes, fs);
                                 for (int v = 0; v < n; ++v)
                                   if (ev >> v & 1) {
                                     x.m.setEvidence(x.u.ptr[v], sizes[v] - 1);
                                     x.t.r.ev[v] = sizes[v] - 1;
                                   }
                                 roundTrip(c, x.m, my);
                                 answers(c, x.m, x.t.r, x.u);
                               });
                       }
                     });
      }
}
void names(Ctx &c) {
  std::vector<std::string> ns = {"a",       "A B",      " lead",     "trail ",  "\"q\"",       "\\",          "a\\nb",     "a\nb",
                                 "tab\t",   "\x01\x02", "\x7f",      "è",       "日本",        "😀",          "{\"a\":1}", "[x]",
                                 "null",    "true",     "1",         "-1",      "0.5",         "/",           "a/b",       "~0",
                                 "\\u0041", "'",        "<x>&amp;",  "a,b",     "\r\n",        "\b\f",        std::string(300, 'z'),
                                 "name",    "Size",     "evidence",  "weight",  "\"",          "\\\"",        "é́",        "$", "%d%s"};
#ifdef VF_XML
  // escaping is a matter of the xml library
  ns = {"a", "A B", " lead", "trail ", "è", "日本", "null", "1", "-1", "0.5", "'", "a,b", "a/b", "name", "Size", "evidence", "var", "v", "D", "weight", "Potential", std::string(300, 'z')};
#endif
  int id = 0;
  for (std::size_t i = 0; i < ns.size(); ++i)
    for (std::size_t k = 0; k < ns.size(); ++k) {
      if (i == k)
        continue;
      int my = id++;
      c.run([&] { return "names <" + ns[i] + "> <" + ns[k] + ">"; },
            [&] {
              c.state(mix(mix(2, ns[i]), ns[k]));
              ++c.traces;
              auto A = cat::make_variable(2, ns[i]), B = cat::make_variable(3, ns[k]);
              RandomField m;
              auto f = std::make_shared<fac::Factor>(cat::Group{A, B});
              for (std::size_t q = 0; q < 6; ++q)
                f->set(Comb{q / 3, q % 3}, 1.f + q);
              m.addConstFactor(f);
              auto g = std::make_shared<fac::Factor>(cat::Group{A});
              g->set(Comb{1}, 2.f);
              m.addTunableFactor(std::make_shared<fac::FactorExponential>(*g, 0.5f));
              auto h = std::make_shared<fac::Factor>(cat::Group{B});
              h->set(Comb{2}, 3.f);
              m.addTunableFactor(std::make_shared<fac::FactorExponential>(*h, 0.7f), cat::VariablesSet{A});
              if ((i + k) % 2)
                m.setEvidence(A, 1);
              if ((i + k) % 3)
                m.setEvidence(B, 2);
              roundTrip(c, m, my);
            });
    }
}
void values(Ctx &c) {
  std::vector<float> vs = {0.f,     1.f,        0.1f,      1.f / 3,    2.f / 3,    3.14159274f, 1e-3f,   1e-6f,     1.0000001f, 0.99999994f,
                           1e-10f,  1e-20f,     1e-30f,    FLT_MIN,    1e-40f,     1.4e-45f,    1e3f,    12345678.f, 16777216.f, 16777218.f,
                           1e10f,   1e20f,      1e38f,     FLT_MAX,    0.3333333f, 1234.5678f,  9.99999f, 5e-5f,     0.0001f, 1e5f, 1e6f, 123456.7f, 1e7f};
  int id = 0;
  for (std::size_t i = 0; i < vs.size(); ++i)
    for (std::size_t k = 0; k < vs.size(); ++k)
      for (int kind = 0; kind < 3; ++kind) {
        int my = id++;
        c.run([&] { return str("values ", vs[i], " ", vs[k], " kind ", kind); },
              [&] {
                c.state(mix(mix(3, str(i, " ", k)), (std::uint64_t)kind));
                ++c.traces;
                auto A = cat::make_variable(3, "A");
                RandomField m;
                auto f = std::make_shared<fac::Factor>(cat::Group{A});
                f->set(Comb{0}, vs[i]);
                f->set(Comb{2}, vs[k]);
                if (kind == 0)
                  m.addConstFactor(f);
                else {
                  float w = (k % 2 ? -1.f : 1.f) * vs[(i + k) % vs.size()];
                  auto e = std::make_shared<fac::FactorExponential>(*f, w);
                  if (kind == 1)
                    m.addConstFactor(e);
                  else
                    m.addTunableFactor(e);
                }
                roundTrip(c, m, my);
              });
      }
}
void tables(Ctx &c) {
  // every subset of filled combinations of small domains, all kinds
  int id = 0;
  std::vector<std::vector<std::size_t>> doms = {{1}, {2}, {3}, {1, 2}, {2, 2}, {2, 3}, {3, 2}, {1, 1}};
  if (c.thorough())
    doms.push_back({3, 3});
  for (auto &d : doms)
    for (unsigned mask = 0; mask < (1u << prod(d)); ++mask)
      for (int kind = 0; kind < 3; ++kind) {
        int my = id++;
        c.run([&] { return str("table ", showv(d), " filled ", mask, " kind ", kind); },
              [&] {
                c.state(mix(mix(4, showv(d)), (std::uint64_t)(mask * 3 + kind)));
                ++c.traces;
                Vars u(d);
                std::vector<int> all(d.size());
                for (std::size_t k = 0; k < all.size(); ++k)
                  all[k] = (int)k;
                auto f = std::make_shared<fac::Factor>(cat::Group{u.soup(all)});
                for (std::size_t q = 0; q < prod(d); ++q)
                  if (mask >> q & 1)
                    f->set(unflat(q, d), 0.5f + q);
                RandomField m;
                if (kind == 0)
                  m.addConstFactor(f);
                else if (kind == 1)
                  m.addConstFactor(std::make_shared<fac::FactorExponential>(*f, -0.5f));
                else
                  m.addTunableFactor(std::make_shared<fac::FactorExponential>(*f, 1.5f));
                roundTrip(c, m, my);
              });
      }
  for (auto corr : {CORR, ANTI})
    for (std::size_t s : {2, 3, 5})
      for (int kind = 0; kind < 2; ++kind)
        c.run([&] { return str("correlation ", kindName(corr), s, kind); },
              [&] {
                ++c.traces;
                Vars u({s, s});
                FSpec x;
                x.v = {1, 0};
                x.k = corr;
                RandomField m;
                auto f = makeShape(x, u);
                if (kind)
                  m.addTunableFactor(std::make_shared<fac::FactorExponential>(*f, 0.3f));
                else
                  m.addConstFactor(f);
                roundTrip(c, m, 0);
              });
  c.run([&] { return std::string("empty model"); },
        [&] {
          ++c.traces;
          RandomField m;
          roundTrip(c, m, 0);
          Graph g;
          Graph h;
          Trip<Graph>(g, c.scratch, 0).into(h);
          VF_REQUIRE(h.getAllVariables().empty() && h.getAllFactors().empty(), "empty graph");
        });
  c.run([&] { return std::string("graph export"); },
        [&] {
          ++c.traces;
          Graph g;
          Vars u({2, 3, 2});
          FSpec a, b;
          a.v = {0, 1};
          a.id = 3;
          b.v = {2, 1};
          b.k = EXPC;
          b.w = 0.3;
          g.addConstFactor(makeReal(a, u));
          g.addConstFactor(makeReal(b, u));
          g.setEvidence("V2", 1);
          roundTrip(c, g, 0);
        });
  // conditional fields can be exported too
  for (int how = 0; how < 2; ++how)
    c.run([&] { return str("conditional field ", how); },
          [&] {
            ++c.traces;
            TModel x({2, 3, 2}, {{{0, 1}, TUN, 1, 0.5}, {{1, 2}, TUN, 2, 0.2, {0, 1}}, {{1}, TAB, 3}});
            x.m.setEvidence("V0", 1);
            x.m.setEvidence("V2", 1);
            ConditionalRandomField f(x.m, how);
            roundTrip(c, f, 0);
          });
  // two tunable factors over the same variable
  for (int order = 0; order < 6; ++order)
    c.run([&] { return str("twin tunables ", order); },
          [&] {
            ++c.traces;
            std::vector<std::vector<FSpec>> o = {
                {{{0}, TUN, 1, 0.5}, {{0}, TUN, 2, 0.7}},
                {{{0}, TUN, 1, 0.5}, {{0}, TUN, 2, 0.7, {0}}},
                {{{0}, TUN, 1, 0.5}, {{1}, TUN, 3, 0.1, {0}}, {{0}, TUN, 2, 0.7}},
                {{{1}, TUN, 3, 0.1}, {{0}, TUN, 1, 0.5}, {{0}, TUN, 2, 0.7, {1}}},
                {{{0}, TUN, 1, 0.5}, {{1}, TUN, 3, 0.1}, {{0}, TUN, 2, 0.7, {1}}},
                {{{0, 1}, TUN, 1, 0.5}, {{1}, TUN, 3, 0.1, {0, 1}}, {{0}, TUN, 2, 0.7, {1}}, {{1}, TUN, 4, 2.}}};
            TModel x({2, 3}, o[order]);
            roundTrip(c, x.m, 0);
          });
  // a cluster whose first factor has the same variables of another cluster; it
  // can be obtained only by absorbing a model into another one
  c.run([&] { return std::string("absorbed cluster starting with the variables of another one"); },
        [&] {
          ++c.traces;
          Vars u({2, 3});
          RandomField a, b;
          addReal(a, {{0}, TUN, 1, 0.5}, u);
          addReal(b, {{0}, TUN, 2, 0.7}, u);
          addReal(b, {{1}, TUN, 3, 0.1, {0}}, u);
          a.absorb(b, false);
          roundTrip(c, a, 0);
        });
}
// many variables, values, factors and members of a cluster
void sizes(Ctx &c) {
  int id = 700000;
  for (std::size_t n : {9, 20, 40, 130})
    for (int style = 0; style < 4; ++style) {
      int my = id++;
      c.run([&] { return str("model of ", n, " variables, style ", style); },
            [&] {
              c.state(mix(mix(7, (std::uint64_t)n), (std::uint64_t)style));
              ++c.traces;
              std::vector<std::size_t> sz;
              std::vector<FSpec> f;
              for (std::size_t k = 0; k < n; ++k) {
                sz.push_back(k == n - 1 ? 300 : 2 + k % 3);
                FSpec x;
                x.id = (int)k;
                x.w = 0.01 * (double)k - 0.3;
                if (k) {
                  int o = style == 1 ? 0 : style == 2 ? ((int)k - 1) / 2 : (int)k - 1;
                  x.v = k % 3 ? std::vector<int>{o, (int)k} : std::vector<int>{(int)k, o};
                  x.k = style == 3 ? (k % 4 == 0 ? EXPC : TAB) : k % 5 == 4 ? TAB : TUN;
                  if (x.k == TUN && k % 5 == 2 && k > 2) // long clusters
                    x.share = f[1].v;
                  if (x.k == TUN && k % 5 == 1 && k > 5)
                    x.share = f[f.size() - std::min<std::size_t>(f.size(), style == 2 ? 10 : 5)].v;
                  if (x.share.size() && std::none_of(f.begin(), f.end(), [&](auto &y) { return y.k == TUN && y.v == x.share; }))
                    x.share.clear();
                  f.push_back(x);
                } else {
                  x.v = {0};
                  x.k = TUN;
                  f.push_back(x);
                }
              }
              TModel x(sz, f);
              for (std::size_t k = 0; k < n; ++k)
                if ((k * 7 + style) % 4 == 0 || k + 1 == n)
                  x.m.setEvidence(x.u.ptr[k], sz[k] - 1);
              roundTrip(c, x.m, my);
            });
    }
  for (std::size_t len : {30, 255, 256, 1000, 70000}) {
    int my = id++;
    c.run([&] { return str("name of ", len, " characters"); },
          [&] {
            ++c.traces;
            std::string name;
            while (name.size() < len)
              name += (char)('a' + name.size() % 26);
            auto A = cat::make_variable(2, name), B = cat::make_variable(2, name + "x");
            auto f = std::make_shared<fac::Factor>(cat::Group{B, A});
            f->set(Comb{0, 1}, 2.f);
            RandomField m;
            m.addConstFactor(f);
            m.setEvidence(A, 1);
            roundTrip(c, m, my);
          });
  }
}
} // namespace
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    names(c);
    values(c);
    tables(c);
    models(c);
    sizes(c);
  });
}
