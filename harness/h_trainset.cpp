// P20: training sets, their iterators and their import from text files.
#include "core.hpp"
#include <EasyFactorGraph/io/TrainSetImport.h>
#include <EasyFactorGraph/trainable/TrainSet.h>
#include <algorithm>
#include <filesystem>
#include <optional>

using namespace vf;
using EFG::train::TrainSet;
namespace {
using Comb = std::vector<std::size_t>;
template <typename F> bool throws(F &&f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
std::string showc(const std::vector<Comb> &s) {
  std::string r = "{";
  for (auto &c : s) {
    r += "[";
    for (auto x : c)
      r += str(x, " ");
    r += "]";
  }
  return r + "}";
}
std::vector<Comb> visit(const TrainSet::Iterator &it) {
  std::vector<Comb> r;
  it.forEachSample([&](const Comb &c) { r.push_back(c); });
  return r;
}
void sameSet(Ctx &c, const TrainSet &s, const std::vector<Comb> &exp) {
  VF_REQUIRE(s.getCombinations() == exp, "the set holds ",
             showc(s.getCombinations()), " expected ", showc(exp));
  for (int how = 0; how < 3; ++how) {
    auto it = how == 0   ? s.makeIterator()
              : how == 1 ? TrainSet::Iterator(s, 1.f)
                         : s.makeSubSetIterator(1.f);
    auto got = visit(it);
    VF_REQUIRE(it.size() == exp.size(), "iterator size ", it.size());
    auto a = got, b = exp;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    VF_REQUIRE(a == b, "full iterator visits ", showc(got), " expected ", showc(exp));
    VF_REQUIRE(visit(it) == got, "second visit differs");
    ++c.comparisons;
  }
}
void collections(Ctx &c) {
  std::vector<Comb> menu = {{}, {0}, {1}, {7}, {0, 1}, {1, 0}, {5, 5}, {0, 0, 0}, {1, 2, 3}};
  int maxLen = c.pick(4, 5);
  std::vector<int> seq;
  std::function<void()> rec = [&] {
    std::vector<Comb> in;
    for (int i : seq)
      in.push_back(menu[i]);
    c.run([&] { return "collection " + showc(in); },
          [&] {
            c.state(mix(1, showc(in)));
            ++c.traces;
            ++c.transitions;
            bool ok = !in.empty();
            for (auto &x : in)
              ok = ok && !x.empty() && x.size() == in[0].size();
            if (!ok) {
              VF_REQUIRE(throws([&] { TrainSet s(in); }), "accepted");
              c.outcome(0);
              return;
            }
            auto copy = std::make_unique<std::vector<Comb>>(in);
            TrainSet s(*copy);
            copy.reset();
            sameSet(c, s, in);
            TrainSet t = s;
            sameSet(c, t, in);
            c.outcome(in.size());
          });
    if ((int)seq.size() == maxLen)
      return;
    for (int i = 0; i < (int)menu.size(); ++i) {
      seq.push_back(i);
      rec();
      seq.pop_back();
    }
  };
  rec();
}
void bigger(Ctx &c) {
  for (std::size_t n : {1, 2, 63, 64, 65, 255, 256, 257, 1000, 66000})
    for (std::size_t len : {1, 2, 16, 17, 33, 65, 300})
      if (n * len <= 150000)
        c.run([&] { return str("collection of ", n, " samples of ", len); },
              [&] {
                c.state(mix(mix(6, (std::uint64_t)n), (std::uint64_t)len));
                ++c.traces;
                ++c.transitions;
                std::vector<Comb> in;
                for (std::size_t i = 0; i < n; ++i) {
                  Comb x;
                  for (std::size_t k = 0; k < len; ++k)
                    x.push_back((i * 31 + k * 7) % 5 == 4 ? std::size_t(1) << ((i + k) % 64) : (i * 37 + k * 11) % 1000);
                  in.push_back(x);
                }
                TrainSet s(in);
                sameSet(c, s, in);
                // the last one is of another length
                for (int d : {-1, 1}) {
                  auto bad = in;
                  if (d > 0)
                    bad.back().push_back(0);
                  else
                    bad.back().pop_back();
                  VF_REQUIRE(n == 1 && bad[0].size() ? true : throws([&] { TrainSet q(bad); }), "accepted with a last sample of length ", bad.back().size());
                }
                ++c.comparisons;
              });
}
void partial(Ctx &c) {
  std::vector<float> prc;
  for (int k = 1; k <= 100; ++k)
    prc.push_back(k / 100.f);
  for (float p : {1e-6f, 0.001f, 1.f / 3, 2.f / 3, 0.125f, 0.999f, 0.9999999f})
    prc.push_back(p);
  for (std::size_t n : {1, 2, 3, 4, 5, 7, 8, 10, 13, 50, 100, 1000})
    for (float p : prc)
      c.run([&] { return str("partial ", p, " of ", n); },
            [&] {
              c.state(mix(mix(2, (std::uint64_t)n), str(p)));
              ++c.traces;
              std::vector<Comb> in;
              for (std::size_t i = 0; i < n; ++i)
                in.push_back({i, i * 3 + 1});
              std::set<Comb> all(in.begin(), in.end());
              std::size_t e1 = (std::size_t)std::floor(p * (float)n),
                          e2 = (std::size_t)std::floor((double)p * (double)n);
              if (p == 1.f)
                e1 = e2 = n;
              for (int how = 0; how < 2; ++how) {
                std::optional<TrainSet> s;
                s.emplace(in);
                auto it = how ? s->makeSubSetIterator(p) : TrainSet::Iterator(*s, p);
                s.reset(); // the iterator must stay valid
                auto got = visit(it);
                VF_REQUIRE(got.size() == it.size(), "size() ", it.size(),
                           " but visits ", got.size());
                VF_REQUIRE(got.size() == e1 || got.size() == e2, "visits ",
                           got.size(), " samples, expected ", e1);
                for (auto &x : got)
                  VF_REQUIRE(all.count(x), "a sample not in the set");
                auto copy = it;
                VF_REQUIRE(visit(copy).size() == got.size(), "copied iterator");
                if (p == 1.f) {
                  std::set<Comb> g(got.begin(), got.end());
                  VF_REQUIRE(g == all, "not all the samples");
                }
                ++c.comparisons;
                ++c.transitions;
                c.outcome(mix(4, (std::uint64_t)got.size()));
              }
            });
  for (float p : {0.f, -0.f, -1e-6f, -0.5f, -1.f, -100.f, 1.0000001192f, 1.001f, 1.5f, 2.f, 100.f, 1e30f})
    for (std::size_t n : {1, 4, 100})
      c.run([&] { return str("invalid fraction ", p, " of ", n); },
            [&] {
              ++c.traces;
              TrainSet s(std::vector<Comb>(n, Comb{1, 2}));
              VF_REQUIRE(throws([&] { s.makeSubSetIterator(p); }), "accepted");
              VF_REQUIRE(throws([&] { TrainSet::Iterator it(s, p); }), "accepted");
              ++c.comparisons;
            });
  // every sample is reachable by partial iterators: the chance of a false alarm is below 1e-15
  for (std::size_t n : {2, 3, 5, 8, 64, 65, 257, 1000, 70000})
    for (float p : {0.3f, 0.5f, 0.6f, 0.9f}) {
      if (n == 70000 && p != 0.9f)
        continue;
      double frac = std::floor(p * n) / (double)n;
      if (frac == 0)
        continue;
      c.run([&] { return str("partial iterators of ", p, " of ", n, " reach every sample"); },
            [&] {
              ++c.traces;
              std::vector<Comb> in;
              for (std::size_t i = 0; i < n; ++i)
                in.push_back({i});
              TrainSet s(in);
              int draws = 1 + (int)std::ceil(std::log(1e-16 / n) / std::log(1 - frac));
              std::set<Comb> seen;
              for (int k = 0; k < draws * 8; ++k)
                for (auto &x : visit(s.makeSubSetIterator(p)))
                  seen.insert(x);
              VF_REQUIRE(seen.size() == n, "only ", seen.size(), " of ", n, " samples ever drawn");
              ++c.comparisons;
            });
    }
}
void files(Ctx &c) {
  struct Row {
    std::string text;
    int kind; // 0 blank, 1 valid, 2 invalid token
    Comb comb;
  };
  std::vector<Row> menu = {{"0 1", 1, {0, 1}},   {"1 0", 1, {1, 0}},  {"2\t3", 1, {2, 3}},
                           {" 4  5 ", 1, {4, 5}}, {"12 345", 1, {12, 345}},
                           {"7", 1, {7}},         {"0 1 2", 1, {0, 1, 2}},
                           {"", 0, {}},           {"  ", 0, {}},
                           {"1 0\r", 1, {1, 0}},  {"4294967296 007", 1, {4294967296ull, 7}},
                           {"a 1", 2, {}},        {"0 -1", 2, {}},     {"1 2x", 2, {}},
                           {"1 2.5", 2, {}},      {"1,2", 2, {}}};
  int maxLen = c.pick(3, 4);
  std::vector<int> seq;
  int counter = 0;
  std::function<void()> rec = [&] {
    for (int tail = 0; tail < 2; ++tail) {
      if (seq.empty() && tail)
        continue;
      c.run(
          [&] {
            std::string s = "file <";
            for (int i : seq)
              s += menu[i].text + "|";
            return s + (tail ? "> no final newline" : ">");
          },
          [&] {
            std::string path = str(c.scratch, "/set", counter++, ".txt"), text;
            std::vector<Comb> exp;
            bool ok = true;
            for (std::size_t k = 0; k < seq.size(); ++k) {
              auto &r = menu[seq[k]];
              text += r.text;
              if (!tail || k + 1 < seq.size())
                text += "\n";
              if (r.kind == 2)
                ok = false;
              if (r.kind == 1) {
                ok = ok && (exp.empty() || exp[0].size() == r.comb.size());
                exp.push_back(r.comb);
              }
            }
            ok = ok && !exp.empty();
            c.state(mix(3, text));
            ++c.traces;
            ++c.transitions;
            {
              std::ofstream o(path, std::ios::binary);
              o << text;
            }
            try {
              auto s = EFG::io::import_train_set(path);
              VF_REQUIRE(ok, "accepted as ", showc(s.getCombinations()));
              sameSet(c, s, exp);
              c.outcome(mix(5, (std::uint64_t)exp.size()));
            } catch (const Violation &) {
              std::filesystem::remove(path);
              throw;
            } catch (const std::exception &e) {
              VF_REQUIRE(!ok, "rejected: ", e.what());
              ++c.comparisons;
            }
            std::filesystem::remove(path);
          });
    }
    if ((int)seq.size() == maxLen)
      return;
    for (int i = 0; i < (int)menu.size(); ++i) {
      seq.push_back(i);
      rec();
      seq.pop_back();
    }
  };
  rec();
  c.run([&] { return std::string("missing files"); },
        [&] {
          ++c.traces;
          for (std::string p : {c.scratch + "/missing.txt", std::string(), c.scratch, c.scratch + "/no/such/dir/x"})
            VF_REQUIRE(throws([&] { EFG::io::import_train_set(p); }), "<", p, "> accepted");
          ++c.comparisons;
        });
  // bigger files
  for (std::size_t n : {1, 2, 17, 300, 5000})
    for (std::size_t len : {1, 2, 9, 70, 300})
      if (n * len > 100000)
        continue;
      else
        c.run([&] { return str("file of ", n, " rows of ", len); },
            [&] {
              ++c.traces;
              std::string path = str(c.scratch, "/big", n, "_", len, ".txt");
              std::vector<Comb> exp;
              {
                std::ofstream o(path);
                for (std::size_t i = 0; i < n; ++i) {
                  Comb x;
                  for (std::size_t k = 0; k < len; ++k) {
                    x.push_back(len == 70 ? (i * 7919 + k * 104729) % 100003 : (i * 31 + k * 7) % (n == 17 ? 1000 : 23));
                    o << (k ? " " : "") << x.back();
                  }
                  exp.push_back(x);
                  o << "\n";
                }
              }
              sameSet(c, EFG::io::import_train_set(path), exp);
              std::filesystem::remove(path);
            });
}
} // namespace
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    collections(c);
    bigger(c);
    partial(c);
    files(c);
  });
}
