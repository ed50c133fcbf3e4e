// P01: every short history of constructions / additions / replacements on
// groups of variables, and the enumeration of every small joint domain.
#include "net.hpp"
#include <EasyFactorGraph/categoric/GroupRange.h>

using namespace vf;

namespace {
struct U {
  std::vector<cat::VariablePtr> v; // last one is null
  std::vector<std::string> n;
};
U universe(bool deep) {
  U u;
  auto add = [&](std::size_t s, const char *name) {
    u.v.push_back(cat::make_variable(s, name));
    u.n.push_back(str(name, s));
  };
  add(2, "A");
  add(2, "A"); // another instance of the same
  add(3, "A"); // same name, different size
  add(2, "B");
  add(3, "B");
  add(2, "C");
  if (deep) {
    add(1, "C");
    add(3, "D");
  }
  u.v.push_back(nullptr);
  u.n.push_back("null");
  return u;
}
using L = std::vector<int>;
void lists(int n, int maxLen, std::vector<L> &out) {
  out.push_back({});
  std::size_t from = 0;
  for (int len = 1; len <= maxLen; ++len) {
    std::size_t to = out.size();
    for (std::size_t i = from; i < to; ++i)
      for (int k = 0; k < n; ++k) {
        auto l = out[i];
        l.push_back(k);
        out.push_back(l);
      }
    from = to;
  }
}
std::string show(const U &u, const L &l) {
  std::string s = "<";
  for (int k : l)
    s += (s.size() > 1 ? "," : "") + u.n[k];
  return s + ">";
}
cat::VariablesSoup soup(const U &u, const L &l) {
  cat::VariablesSoup r;
  for (int k : l)
    r.push_back(u.v[k]);
  return r;
}
bool valid(const U &u, const L &l) {
  if (l.empty())
    return false;
  std::set<std::string> names;
  for (int k : l)
    if (!u.v[k] || !names.insert(u.v[k]->name()).second)
      return false;
  return true;
}
void same(Ctx &c, const U &u, const cat::Group &g, const L &l,
          const char *when) {
  const auto &v = g.getVariables();
  VF_REQUIRE(v.size() == l.size(), when, ": group has ", v.size(),
             " variables, expected ", l.size());
  std::size_t n = 1;
  for (std::size_t k = 0; k < l.size(); ++k) {
    VF_REQUIRE(v[k].get() == u.v[l[k]].get(), when, ": position ", k,
               " holds another variable");
    VF_REQUIRE(v[k]->size() > 0 && !v[k]->name().empty(), when,
               ": malformed variable");
    n *= u.v[l[k]]->size();
  }
  VF_REQUIRE(g.size() == n, when, ": joint size ", g.size(), " expected ", n);
  const auto &s = g.getVariablesSet();
  VF_REQUIRE(s.size() == l.size(), when, ": set view has ", s.size(),
             " variables");
  for (int k : l) {
    auto it = s.find(u.v[k]);
    VF_REQUIRE(it != s.end() && it->get() == u.v[k].get(), when,
               ": set view misses a variable");
  }
  std::uint64_t h = 1;
  for (int k : l)
    h = mix(h, (std::uint64_t)k);
  c.state(h);
  c.comparisons += 3;
}
void sameDomain(Ctx &c, const std::vector<std::size_t> &sz,
                cat::GroupRange range) {
  std::size_t n = prod(sz);
  std::size_t i = 0;
  cat::GroupRange original(range);
  while (range != cat::RANGE_END) {
    VF_REQUIRE(i < n, "more than ", n, " combinations");
    auto exp = unflat(i, sz);
    VF_REQUIRE(*range == exp, "combination ", i, " is ", showv(*range),
               " expected ", showv(exp));
    VF_REQUIRE(range->size() == sz.size(), "combination size");
    cat::GroupRange copy(range);
    VF_REQUIRE(copy == range, "copy of a range differs");
    ++copy;
    VF_REQUIRE(*range == exp, "a copy advanced the original");
    if (i + 1 < n)
      VF_REQUIRE(*copy == unflat(i + 1, sz), "the copy advanced wrongly");
    else
      VF_REQUIRE(copy == cat::RANGE_END, "the copy is not at the end");
    VF_REQUIRE(&(++range) != nullptr, "increment");
    ++i;
    ++c.transitions;
  }
  VF_REQUIRE(i == n, "domain enumerates ", i, " combinations, expected ", n);
  for (int k = 0; k < 3; ++k) {
    VF_REQUIRE(throws([&] { ++range; }), "going past the end accepted");
    VF_REQUIRE(range == cat::RANGE_END, "past the end is not the end");
  }
  VF_REQUIRE(*original == unflat(0, sz), "copy not independent");
  std::size_t j = 0;
  cat::for_each_combination(original, [&](const Comb &x) {
    VF_REQUIRE(j < n && x == unflat(j, sz), "for_each_combination: ", j);
    ++j;
  });
  VF_REQUIRE(j == n, "for_each_combination visits ", j, " expected ", n);
  c.comparisons += 2 * n;
  std::uint64_t h = 77;
  for (auto x : sz)
    h = mix(h, (std::uint64_t)x);
  c.state(h);
  c.outcome(mix(3, (std::uint64_t)n));
}

void variables(Ctx &c) {
  std::vector<std::string> names = {"",  "A", " ", std::string("\0x", 2),
                                    std::string(300, 'z'), "\xc3\xa9", "0"};
  std::vector<std::size_t> sizes = {0, 1, 2, 3, 1000, (std::size_t)-1};
  for (auto &n : names)
    for (auto s : sizes)
      for (int how = 0; how < 2; ++how)
        c.run([&] { return str("variable size=", s, " name=<", n, "> ", how); },
              [&] {
                bool ok = !n.empty() && s != 0;
                ++c.transitions;
                ++c.traces;
                c.state(mix(mix(5, n), (std::uint64_t)s));
                cat::VariablePtr p;
                bool t = throws([&] {
                  p = how ? cat::make_variable(s, n)
                          : std::make_shared<cat::Variable>(s, n);
                });
                VF_REQUIRE(t == !ok, t ? "valid variable rejected"
                                       : "invalid variable accepted");
                if (ok)
                  VF_REQUIRE(p->size() == s && p->name() == n,
                             "variable altered");
                ++c.comparisons;
                c.outcome(mix(1, (std::uint64_t)ok));
              });
}

void histories(Ctx &c) {
  U u = universe(c.thorough());
  int n = (int)u.v.size();
  std::vector<L> ls;
  lists(n, 3, ls);
  std::vector<L> initial = ls; // constructions
  std::vector<L> later = ls;   // replacements
  for (auto &init : initial)
    for (int ctor = 0; ctor < 2; ++ctor) {
      if (ctor == 1 && init.empty())
        continue; // needs at least one
      c.run(
          [&] {
            return str("group ", show(u, init), ctor ? " one by one" : "",
                       " then every change and second change");
          },
          [&] {
            auto make = [&] {
              auto s = soup(u, init);
              if (ctor == 0)
                return cat::Group{s};
              if (s.size() == 1)
                return cat::Group{s[0]};
              if (s.size() == 2)
                return cat::Group{s[0], s[1]};
              return cat::Group{s[0], s[1], s[2]};
            };
            bool ok = valid(u, init);
            ++c.transitions;
            ++c.traces;
            std::unique_ptr<cat::Group> first;
            bool t = throws([&] { first = std::make_unique<cat::Group>(make()); });
            VF_REQUIRE(t == !ok, t ? "valid group rejected"
                                   : "invalid group accepted");
            c.outcome(mix(2, (std::uint64_t)ok));
            if (!ok)
              return;
            same(c, u, *first, init, "construction");
            // first change: every addition and every replacement
            auto change = [&](cat::Group &g, const L &cur, int add,
                              const L *rep) -> std::pair<bool, L> {
              L next = cur;
              bool good;
              ++c.transitions;
              if (rep) {
                good = valid(u, *rep) && rep->size() == cur.size();
                for (std::size_t k = 0; good && k < cur.size(); ++k)
                  good = u.v[(*rep)[k]]->size() == u.v[cur[k]]->size();
                bool t = throws([&] { g.replaceVariables(soup(u, *rep)); });
                VF_REQUIRE(t == !good, show(u, cur), " replaced with ",
                           show(u, *rep),
                           t ? " rejected" : " accepted");
                if (good)
                  next = *rep;
              } else {
                next.push_back(add);
                good = valid(u, next);
                bool t = throws([&] { g.add(u.v[add]); });
                VF_REQUIRE(t == !good, show(u, cur), " plus ", u.n[add],
                           t ? " rejected" : " accepted");
                if (!good)
                  next = cur;
              }
              same(c, u, g, next, rep ? "replacement" : "addition");
              return {good, next};
            };
            auto second = [&](const cat::Group &g, const L &cur, bool wide) {
              ++c.traces;
              for (int a = 0; a < n; ++a) {
                cat::Group h = g;
                change(h, cur, a, nullptr);
              }
              if (wide)
                for (auto &r : later)
                  if (r.size() == cur.size() || r.size() <= 1) {
                    cat::Group h = g;
                    change(h, cur, 0, &r);
                  }
              same(c, u, g, cur, "changes of a copy");
            };
            for (int a = 0; a < n; ++a) {
              cat::Group g = *first;
              auto [good, next] = change(g, init, a, nullptr);
              second(g, next, good && c.thorough());
            }
            for (auto &r : later) {
              cat::Group g = *first;
              auto [good, next] = change(g, init, 0, &r);
              if (good)
                second(g, next, true);
            }
            same(c, u, *first, init, "untouched original");
            std::vector<std::size_t> sz;
            for (int k : init)
              sz.push_back(u.v[k]->size());
            sameDomain(c, sz, cat::GroupRange(*first));
          });
    }
}

void domains(Ctx &c) {
  std::vector<std::vector<std::size_t>> all;
  std::size_t maxS = c.pick<std::size_t>(4, 5);
  int maxL = c.pick(4, 5);
  std::vector<std::vector<std::size_t>> cur{{}};
  for (int len = 1; len <= maxL; ++len) {
    std::vector<std::vector<std::size_t>> nx;
    for (auto &x : cur)
      for (std::size_t s = 1; s <= maxS; ++s) {
        auto y = x;
        y.push_back(s);
        nx.push_back(y);
        all.push_back(y);
      }
    cur = nx;
  }
  for (auto &x : std::vector<std::vector<std::size_t>>{
           {97}, {1000}, {13, 7}, {7, 13}, {1, 1, 1, 1, 1, 1, 1},
           {2, 2, 2, 2, 2, 2, 2, 2, 2, 2}, {1, 31, 1, 17, 1}, {11, 3, 5, 2}})
    all.push_back(x);
  for (auto &sz : all)
    c.run([&] { return "domain " + showv(sz); },
          [&] {
            ++c.traces;
            sameDomain(c, sz, cat::GroupRange(sz));
            cat::VariablesSoup s;
            for (std::size_t k = 0; k < sz.size(); ++k)
              s.push_back(cat::make_variable(sz[k], str("D", k)));
            cat::Group g(s);
            VF_REQUIRE(g.size() == prod(sz), "joint size");
            sameDomain(c, sz, cat::GroupRange(g));
          });
}
} // namespace

namespace {
// names that differ little, in groups of two and in bigger ones
void closeNames(Ctx &c) {
  std::vector<std::string> names = {"A", "a", "A ", " A", "A1", "A01", "1", "01", "1.0", "+1", "A_", "_A", "AB", "BA", "A\n", "A\t", "A,B", "\xc3\xa9", "e\xcc\x81"};
  names.push_back(std::string("A\0", 2));
  names.push_back(std::string("A\0b", 3));
  names.push_back(std::string("A\0c", 3));
  for (int len : {15, 16, 31, 32, 63, 64, 255, 256, 1000, 70000})
    for (char last : {'x', 'y'})
      names.push_back(std::string(len, 'n') + last);
  for (auto &a : names)
    for (auto &b : names)
      c.run([&] { return str("names <", a.substr(0, 80), "> (", a.size(), ") and <", b.substr(0, 80), "> (", b.size(), ") in a group"); },
            [&] {
              auto va = cat::make_variable(2, a), vb = cat::make_variable(3, b), vo = cat::make_variable(2, "other"), vp = cat::make_variable(3, "another");
              bool same = a == b;
              c.state(mix(mix(21, a), b));
              c.transitions += 4;
              ++c.traces;
              auto in = [&](const cat::Group &g, std::size_t n, std::size_t size) {
                VF_REQUIRE(g.getVariables().size() == n && g.getVariablesSet().size() == n && g.size() == size, "the group has ", g.getVariables().size(),
                           " variables, ", g.getVariablesSet().size(), " in the set, joint size ", g.size());
                ++c.comparisons;
              };
              VF_REQUIRE(throws([&] { in(cat::Group{va, vb}, 2, 6); }) == same, "pair of ", same ? "equal names accepted" : "different names refused");
              VF_REQUIRE(throws([&] { in(cat::Group{cat::VariablesSoup{va, vo, vb}}, 3, 12); }) == same, "list with ", same ? "equal names accepted" : "different names refused");
              cat::Group g{va, vo};
              VF_REQUIRE(throws([&] { g.add(vb); }) == same, "addition of ", same ? "an equal name accepted" : "a different name refused");
              in(g, same ? 2 : 3, same ? 4 : 12);
              cat::Group h{vo, vp};
              VF_REQUIRE(throws([&] { h.replaceVariables({va, vb}); }) == same, "replacement with ", same ? "equal names accepted" : "different names refused");
              in(h, 2, 6);
              VF_REQUIRE(h.getVariables()[0].get() == (same ? vo : va).get(), "first variable");
              c.outcome(mix(22, (std::uint64_t)same));
            });
  // many variables, one name twice at every pair of places
  for (int n : {5, 8, 9, 17, 33})
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        c.run([&] { return str(n, " variables, the name of number ", i, " used by number ", j); },
              [&] {
                c.state(mix(mix(mix(23, (std::uint64_t)n), (std::uint64_t)i), (std::uint64_t)j));
                ++c.traces;
                cat::VariablesSoup s, fresh;
                for (int k = 0; k < n; ++k) {
                  s.push_back(cat::make_variable(1 + (k % 7 == 3), str("N", k == j ? i : k)));
                  fresh.push_back(cat::make_variable(1 + (k % 7 == 3), str("M", k)));
                }
                bool bad = i != j;
                VF_REQUIRE(throws([&] { cat::Group g(s); }) == bad, bad ? "repeated name accepted" : "refused");
                cat::Group g(fresh);
                VF_REQUIRE(throws([&] { g.replaceVariables(s); }) == bad, bad ? "replacement with a repeated name accepted" : "replacement refused");
                auto &now = g.getVariables();
                for (int k = 0; k < n; ++k)
                  VF_REQUIRE(now[k].get() == (bad ? fresh : s)[k].get(), "variable ", k, " after the replacement");
                VF_REQUIRE(g.getVariablesSet().size() == (std::size_t)n, "set view");
                // a different size at one place only
                if (i == j && n > 1) {
                  auto wrong = fresh;
                  wrong[i] = cat::make_variable(fresh[i]->size() + 1, fresh[i]->name());
                  VF_REQUIRE(throws([&] { g.replaceVariables(wrong); }), "replacement with another size at ", i, " accepted");
                  auto shorter = fresh;
                  shorter.erase(shorter.begin() + i);
                  VF_REQUIRE(throws([&] { g.replaceVariables(shorter); }), "shorter replacement accepted");
                  for (int k = 0; k < n; ++k)
                    VF_REQUIRE(g.getVariables()[k].get() == s[k].get(), "variable ", k, " after a refused replacement");
                }
                c.transitions += 3;
                ++c.comparisons;
              });
}
} // namespace
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    variables(c);
    domains(c);
    histories(c);
    closeNames(c);
  });
}
