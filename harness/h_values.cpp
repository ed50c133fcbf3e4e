// P25: values of a factor read from a text file.
#include "core.hpp"
#include <EasyFactorGraph/factor/Factor.h>
#include <filesystem>

namespace EFG::io {
void import_values(factor::Factor &recipient, const std::filesystem::path &file_name);
}
using namespace vf;
namespace {
using Comb = std::vector<std::size_t>;
struct Row {
  std::string text;
  int kind; // 0 blank, 1 readable, 2 not readable
  Comb comb;
  float val = 0;
};
std::vector<std::size_t> sizes(int shape) {
  return shape == 0 ? std::vector<std::size_t>{3} : shape == 1 ? std::vector<std::size_t>{2, 3} : std::vector<std::size_t>{2, 2, 2};
}
std::unique_ptr<EFG::factor::Factor> make(int shape, bool filled) {
  EFG::categoric::VariablesSoup v;
  int n = 0;
  for (auto s : sizes(shape))
    v.push_back(EFG::categoric::make_variable(s, str("V", n++)));
  auto f = std::make_unique<EFG::factor::Factor>(EFG::categoric::Group{v});
  if (filled) {
    f->set(Comb(v.size(), 0), 9.f);
    f->set(Comb(v.size(), 1), 8.f);
  }
  return f;
}
void each(const std::vector<std::size_t> &s, const std::function<void(const Comb &)> &f) {
  Comb c(s.size(), 0);
  while (true) {
    f(c);
    std::size_t k = s.size();
    while (k > 0 && ++c[k - 1] == s[k - 1])
      c[--k] = 0;
    if (k == 0)
      return;
  }
}
void judge(Ctx &c, int shape, bool filled, const std::string &text, const std::vector<const Row *> &rows, const std::string &path) {
  auto sz = sizes(shape);
  bool ok = true;
  std::map<Comb, float> exp;
  for (auto *r : rows) {
    if (r->kind == 0)
      continue;
    ok = ok && r->kind == 1 && r->comb.size() == sz.size() && r->val >= 0;
    for (std::size_t k = 0; ok && k < sz.size(); ++k)
      ok = r->comb[k] < sz[k];
    if (ok)
      exp[r->comb] = r->val;
  }
  {
    std::ofstream o(path, std::ios::binary);
    o << text;
  }
  auto f = make(shape, filled);
  bool thrown = false;
  std::string why;
  try {
    EFG::io::import_values(*f, path);
  } catch (const std::exception &e) {
    thrown = true;
    why = e.what();
  }
  std::filesystem::remove(path);
  ++c.comparisons;
  if (!ok) {
    VF_REQUIRE(thrown, "accepted");
    c.outcome(0);
    return;
  }
  VF_REQUIRE(!thrown, "rejected: ", why);
  each(sz, [&](const Comb &x) {
    auto it = exp.find(x);
    float e = it == exp.end() ? 0.f : it->second, g = f->function().findImage(x);
    std::string s;
    for (auto k : x)
      s += str(k, " ");
    VF_REQUIRE(g == e, "value at ", s, "is ", g, " expected ", e);
  });
  c.outcome(exp.size());
}
void files(Ctx &c, int shape) {
  std::vector<Row> menu;
  auto add = [&](std::string t, int kind, Comb x = {}, float v = 0) { menu.push_back({t, kind, x, v}); };
  // a few readable rows of every length, at the borders of the domain, with all kinds of separators
  if (shape == 0) {
    add("0 2.5", 1, {0}, 2.5f), add("2 0.1", 1, {2}, 0.1f), add("1\t3\r", 1, {1}, 3.f), add("3 1", 1, {3}, 1.f);
    add("0 1 2", 1, {0, 1}, 2.f), add(" 2  7 ", 1, {2}, 7.f), add("0 -1", 1, {0}, -1.f), add("5", 1, {}, 5.f);
    add("4294967296 1", 1, {4294967296ull}, 1.f), add("-1 1", 2), add("x 1", 2), add("1 x", 2), add("1.5 1", 2), add("1 2x", 2);
  } else if (shape == 1) {
    add("0 0 2.5", 1, {0, 0}, 2.5f), add("1 2 0.1", 1, {1, 2}, 0.1f), add("0\t1 3\r", 1, {0, 1}, 3.f), add("2 0 1", 1, {2, 0}, 1.f);
    add("1 1", 1, {1}, 1.f), add(" 1  0 1e-3 ", 1, {1, 0}, 1e-3f), add("0 2 0", 1, {0, 2}, 0.f), add("0 0 0 1", 1, {0, 0, 0}, 1.f);
    add("4294967296 1 1", 1, {4294967296ull, 1}, 1.f), add("0 -1 1", 2), add("x 1 1", 2), add("1 1 x", 2), add("0 1.5 1", 2), add("1 2 2x", 2), add("0 0 4", 1, {0, 0}, 4.f);
  } else {
    add("0 0 0 2.5", 1, {0, 0, 0}, 2.5f), add("1 1 0 0.1", 1, {1, 1, 0}, 0.1f), add("0\t1 1\t3\r", 1, {0, 1, 1}, 3.f), add("0 0 2 1", 1, {0, 0, 2}, 1.f);
    add("1 0 1", 1, {1, 0}, 1.f), add("1 0 1 7", 1, {1, 0, 1}, 7.f), add("0 0 x 1", 2), add("0 0 0 0 1", 1, {0, 0, 0, 0}, 1.f), add("0 0 0 y", 2);
  }
  add("", 0), add(" \t", 0), add("\r", 0);
  int maxLen = c.pick(3, 4), counter = 0;
  std::vector<int> seq;
  std::function<void()> rec = [&] {
    for (int tail = 0; tail < (seq.empty() ? 1 : 2); ++tail)
      for (bool filled : {false, true})
        c.run(
            [&] {
              std::string s = str("shape ", shape, " file <");
              for (int i : seq)
                s += menu[i].text + "|";
              return s + (tail ? "> no final newline" : ">") + (filled ? " over values" : "");
            },
            [&] {
              std::string text;
              std::vector<const Row *> rows;
              for (std::size_t k = 0; k < seq.size(); ++k) {
                rows.push_back(&menu[seq[k]]);
                text += rows.back()->text;
                if (!tail || k + 1 < seq.size())
                  text += "\n";
              }
              c.state(mix(mix(shape, filled), text));
              ++c.traces;
              c.transitions += seq.size();
              judge(c, shape, filled, text, rows, str(c.scratch, "/v", shape, "_", counter++, ".txt"));
            });
    if ((int)seq.size() == maxLen)
      return;
    for (int i = 0; i < (int)menu.size(); ++i) {
      seq.push_back(i);
      rec();
      seq.pop_back();
    }
  };
  rec();
  // every subset of the domain, written in lexicographic or in reverse order
  auto sz = sizes(shape);
  std::vector<Comb> dom;
  each(sz, [&](const Comb &x) { dom.push_back(x); });
  for (unsigned m = 0; m < (1u << dom.size()); ++m)
    for (bool rev : {false, true})
      c.run([&] { return str("shape ", shape, " subset ", m, rev ? " reversed" : ""); },
            [&] {
              std::vector<Row> rs;
              for (std::size_t k = 0; k < dom.size(); ++k)
                if (m >> k & 1) {
                  std::string t;
                  for (auto x : dom[k])
                    t += str(x, " ");
                  float v = 0.1f + 1.7f * k;
                  char b[32];
                  snprintf(b, sizeof b, "%.9g", v);
                  rs.push_back({t + b, 1, dom[k], v});
                }
              if (rev)
                std::reverse(rs.begin(), rs.end());
              std::string text;
              std::vector<const Row *> rows;
              for (auto &r : rs)
                rows.push_back(&r), text += r.text + "\n";
              c.state(mix(mix(77 + shape, m), rev));
              ++c.traces;
              c.transitions += rs.size();
              judge(c, shape, true, text, rows, str(c.scratch, "/s", shape, "_", m, rev, ".txt"));
            });
  c.run([&] { return str("shape ", shape, " missing files"); },
        [&] {
          ++c.traces;
          for (std::string p : {c.scratch + "/missing.txt", std::string(), c.scratch + "/no/such/dir/x"}) {
            auto f = make(shape, true);
            bool thrown = false;
            try {
              EFG::io::import_values(*f, p);
            } catch (const std::exception &) {
              thrown = true;
            }
            VF_REQUIRE(thrown, "<", p, "> accepted");
            ++c.comparisons;
          }
        });
}
} // namespace
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    for (int shape = 0; shape < 3; ++shape)
      files(c, shape);
  });
}
