// P02: every short history of sets, clears, copies and refused requests on a
// factor, starting from every fill level of several domains (so that every
// point of the switch between the storages is crossed), against a plain table.
#include "net.hpp"
#include <cstring>

using namespace vf;

namespace {
using Sizes = std::vector<std::size_t>;
struct Obj {
  std::shared_ptr<fac::Factor> f;
  std::vector<float> ref;
};
void same(Ctx &c, const Sizes &sz, const Obj &o, const char *when) {
  std::size_t n = prod(sz);
  const auto &fn = o.f->function();
  double sum = 0;
  std::uint64_t h = mix(3, (std::uint64_t)n);
  for (std::size_t i = 0; i < n; ++i) {
    auto comb = unflat(i, sz);
    float a = fn.findImage(comb), b = fn.findTransformed(comb);
    VF_REQUIRE(a == o.ref[i] && b == o.ref[i], when, ": value at ", showv(comb),
               " is ", a, " / ", b, " expected ", o.ref[i]);
    sum += o.ref[i];
    std::uint32_t bits;
    std::memcpy(&bits, &o.ref[i], sizeof bits);
    h = mix(h, (std::uint64_t)bits);
  }
  auto each = [&](bool tr) {
    std::size_t i = 0;
    auto visit = [&](const Comb &comb, float v) {
      VF_REQUIRE(i < n && comb == unflat(i, sz) && v == o.ref[i], when,
                 ": iteration ", i, " gives ", showv(comb), "->", v);
      ++i;
    };
    if (tr)
      fn.forEachCombination<true>(visit);
    else
      fn.forEachCombination<false>(visit);
    VF_REQUIRE(i == n, when, ": iteration over ", i, " combinations of ", n);
  };
  each(false);
  each(true);
  std::vector<int> seen(n, 0);
  fn.forEachNonNullCombination<false>([&](const Comb &comb, float v) {
    std::size_t i = 0;
    for (std::size_t k = 0; k < sz.size(); ++k)
      i = i * sz[k] + comb[k];
    VF_REQUIRE(i < n && !seen[i]++ && v == o.ref[i], when,
               ": non null iteration gives ", showv(comb), "->", v);
  });
  for (std::size_t i = 0; i < n; ++i)
    VF_REQUIRE(seen[i] || o.ref[i] == 0, when, ": non null iteration misses ",
               i);
  auto p = o.f->getProbabilities();
  VF_REQUIRE(p.size() == n, when, ": ", p.size(), " probabilities");
  double ps = 0;
  for (std::size_t i = 0; i < n; ++i) {
    double e = sum > 0 ? o.ref[i] / sum : 1. / n;
    VF_REQUIRE(p[i] >= 0 && std::fabs(p[i] - e) < 1e-5, when, ": probability ",
               i, " is ", p[i], " expected ", e);
    ps += p[i];
  }
  VF_REQUIRE(std::fabs(ps - 1) < 1e-4, when, ": probabilities sum to ", ps);
  c.comparisons += 4 * n;
  c.state(h);
  c.outcome(h);
}

struct Op {
  enum K { SET, CLEAR, COPY, COPYT, PERM, NEG, BAD } k;
  std::size_t i = 0;
  float v = 0;
  Comb comb = {};
  std::string name() const {
    static const char *n[] = {"set", "clear", "copy", "copyT", "perm", "neg", "bad"};
    std::string s = n[k];
    if (k == SET)
      s += str(i, "=", v);
    if (k == NEG)
      s += str(i);
    if (k == BAD)
      s += showv(comb);
    return s;
  }
};
struct Run {
  std::vector<Obj> objs; // all copies taken, last one is the current
};
void apply(Ctx &c, const Sizes &sz, const cat::VariablesSoup &vars, Run &r,
           const Op &o) {
  ++c.transitions;
  auto cur = [&]() -> Obj & { return r.objs.back(); };
  switch (o.k) {
  case Op::SET:
    cur().f->set(unflat(o.i, sz), o.v);
    cur().ref[o.i] = o.v;
    break;
  case Op::CLEAR:
    cur().f->clear();
    cur().ref.assign(cur().ref.size(), 0.f);
    break;
  case Op::COPY:
    r.objs.push_back({std::make_shared<fac::Factor>(*cur().f), cur().ref});
    break;
  case Op::COPYT:
    r.objs.push_back({std::make_shared<fac::Factor>(
                          *cur().f, fac::Factor::CloneTrasformedImagesTag{}),
                      cur().ref});
    break;
  case Op::PERM: { // factors can't be returned by move/copy assignment
    auto g = cat::Group{vars};
    struct Holder : fac::Factor {
      Holder(const fac::Factor &f, const cat::Group &g)
          : fac::Factor(f.cloneWithPermutedGroup(g)) {}
    };
    r.objs.push_back({std::make_shared<Holder>(*cur().f, g), cur().ref});
  } break;
  case Op::NEG:
    VF_REQUIRE(throws([&] { cur().f->set(unflat(o.i, sz), -0.5f); }),
               "negative value accepted");
    break;
  case Op::BAD:
    VF_REQUIRE(throws([&] { cur().f->set(o.comb, 1.f); }),
               "invalid combination accepted ", showv(o.comb));
    break;
  }
}

std::vector<Op> alphabet(const Sizes &sz, const std::vector<std::size_t> &pos,
                         const std::vector<float> &vals) {
  std::vector<Op> r;
  for (auto i : pos)
    for (float v : vals)
      r.push_back({Op::SET, i, v});
  r.push_back({Op::CLEAR});
  r.push_back({Op::COPY});
  r.push_back({Op::COPYT});
  r.push_back({Op::PERM});
  r.push_back({Op::NEG, pos[0]});
  for (std::size_t k = 0; k < sz.size(); ++k) {
    Comb x(sz.size(), 0);
    x[k] = sz[k];
    r.push_back({Op::BAD, 0, 0, x});
    if (k == 0)
      x[k] = (std::size_t)-1, r.push_back({Op::BAD, 0, 0, x});
  }
  r.push_back({Op::BAD, 0, 0, Comb(sz.size() + 1, 0)});
  r.push_back({Op::BAD, 0, 0, Comb(sz.size() - 1, 0)});
  return r;
}

void explore(Ctx &c, const Sizes &sz, const std::vector<Op> &prefix,
             const std::vector<Op> &ops, std::vector<Op> &seq, int depth,
             const std::string &tag) {
  c.run(
      [&] {
        std::string s = "domain " + showv(sz) + " " + tag + ":";
        for (auto &o : seq)
          s += " " + o.name();
        return s;
      },
      [&] {
        cat::VariablesSoup vars;
        for (std::size_t k = 0; k < sz.size(); ++k)
          vars.push_back(cat::make_variable(sz[k], str("X", k)));
        Run r;
        r.objs.push_back({std::make_shared<fac::Factor>(cat::Group{vars}),
                          std::vector<float>(prod(sz), 0.f)});
        for (auto &o : prefix)
          apply(c, sz, vars, r, o);
        for (auto &o : seq)
          apply(c, sz, vars, r, o);
        ++c.traces;
        for (std::size_t k = 0; k < r.objs.size(); ++k)
          same(c, sz, r.objs[k],
               k + 1 == r.objs.size() ? "factor" : "original of a copy");
      });
  if (depth == 0)
    return;
  for (auto &o : ops) {
    seq.push_back(o);
    explore(c, sz, prefix, ops, seq, depth - 1, tag);
    seq.pop_back();
  }
}
} // namespace

int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    std::vector<Op> seq;
    // small domains, from empty, deep
    for (auto &sz : std::vector<Sizes>{{1}, {2}, {2, 2}, {1, 1}}) {
      std::vector<std::size_t> pos;
      for (std::size_t i = 0; i < prod(sz); ++i)
        pos.push_back(i);
      explore(c, sz, {}, alphabet(sz, pos, {0.f, 1.5f}), seq,
              c.pick(3, prod(sz) > 2 ? 4 : 5), "from empty");
    }
    // every fill level of several domains, three fill orders
    std::vector<Sizes> doms = {{3},    {6},    {7},       {8},       {13},
                               {14},   {40},   {2, 3},    {3, 2},    {7, 1},
                               {1, 7}, {3, 3}, {2, 4},    {4, 3},    {5, 3},
                               {4, 4}, {2, 2, 2}, {3, 2, 2}, {2, 3, 3}, {2, 2, 2, 2}};
    for (auto &sz : doms) {
      std::size_t n = prod(sz);
      for (int order = 0; order < 3; ++order)
        for (std::size_t fill = 0; fill <= n; ++fill) {
          std::vector<std::size_t> ord(n);
          std::size_t step = 1;
          if (order == 2)
            for (step = 5; std::__gcd(step, n) != 1; ++step)
              ;
          for (std::size_t i = 0; i < n; ++i)
            ord[i] = order == 1 ? n - 1 - i : (i * step + (order == 2)) % n;
          std::vector<Op> prefix;
          for (std::size_t i = 0; i < fill; ++i)
            prefix.push_back({Op::SET, ord[i], 0.25f + 0.5f * (ord[i] % 7)});
          std::set<std::size_t> p{ord[0], ord[n - 1]};
          if (fill > 0)
            p.insert(ord[fill - 1]);
          if (fill < n)
            p.insert(ord[fill]);
          if (fill + 1 < n)
            p.insert(ord[fill + 1]);
          std::vector<std::size_t> pos(p.begin(), p.end());
          auto ops = alphabet(sz, pos, {0.f, 3.f});
          explore(c, sz, prefix, ops, seq,
                  n > 20 ? 1 : c.pick(order == 2 ? 2 : 1, n > 14 ? 2 : 3),
                  str("fill ", fill, " order ", order));
        }
    }
    // values of any magnitude a float can represent, alone and mixed
    const std::vector<float> mags = {1e-30f, 1e-20f, 3e-12f, 1e-9f, 1e-7f, 1e-4f,
                                     1e3f,   16777216.f, 1e9f, 1e20f, 1e30f};
    for (auto &sz : std::vector<Sizes>{{2}, {7}, {3, 3}, {2, 2, 2}, {13}}) {
      std::size_t n = prod(sz);
      for (float m : mags)
        for (float m2 : mags) {
          if (m2 != m && !c.thorough() && n > 7)
            continue;
          for (std::size_t fill = 0; fill <= n; ++fill) {
            std::vector<Op> prefix;
            for (std::size_t i = 0; i < fill; ++i)
              prefix.push_back({Op::SET, (i * 5 + 1) % n,
                                (1.f + 0.5f * (i % 3)) * (i % 2 ? m2 : m)});
            std::set<std::size_t> p{0, n - 1};
            std::vector<std::size_t> pos(p.begin(), p.end());
            explore(c, sz, prefix, alphabet(sz, pos, {0.f, 3.f * m, 3.f * m2}),
                    seq, 1, str("magnitudes ", m, " ", m2, " fill ", fill));
          }
        }
    }
    // large groups: the switch between the storages is far
    for (auto &sz : std::vector<Sizes>{{300}, {17, 19}, {257}, {7, 6, 8}, {1, 260}, {2, 2, 2, 2, 2, 2, 2, 2}, {65, 4}}) {
      std::size_t n = prod(sz);
      for (int order = 0; order < 3; ++order) {
        std::vector<std::size_t> ord(n);
        std::size_t step = 1;
        if (order == 2)
          for (step = 37; std::__gcd(step, n) != 1; ++step)
            ;
        for (std::size_t i = 0; i < n; ++i)
          ord[i] = order == 1 ? n - 1 - i : (i * step + (order == 2)) % n;
        for (std::size_t fill = 0; fill <= n; fill += c.pick(11, 1)) {
          std::vector<Op> prefix;
          for (std::size_t i = 0; i < fill; ++i)
            prefix.push_back({Op::SET, ord[i], 0.25f + 0.5f * (ord[i] % 7)});
          std::set<std::size_t> p{ord[0], ord[n - 1], ord[n / 2]};
          std::vector<std::size_t> pos(p.begin(), p.end());
          explore(c, sz, prefix, alphabet(sz, pos, {0.f, 3.f}), seq, 1,
                  str("fill ", fill, " order ", order));
        }
        // all the points where the number of values set crosses a fraction of
        // the domain
        for (std::size_t d = 2; d <= 16; ++d)
          for (std::size_t k = 1; k < d; ++k)
            for (int off = -1; off <= 1; ++off) {
              std::size_t fill = n * k / d + off;
              if (fill > n)
                continue;
              std::vector<Op> prefix;
              for (std::size_t i = 0; i < fill; ++i)
                prefix.push_back({Op::SET, ord[i], 0.25f + 0.5f * (ord[i] % 7)});
              explore(c, sz, prefix, {}, seq, 0,
                      str("fill ", fill, " order ", order));
            }
      }
    }
  });
}
