// P15, P16, P17: gradients of random fields and conditional random fields
// against their definition (brute force), and the conditional field itself.
#include "tmodel.hpp"
#include <EasyFactorGraph/structure/GibbsSampler.h>

using namespace vf;
namespace {
const std::vector<std::size_t> SIZES{2, 3, 2, 4};

template <typename M>
std::vector<float> grad(M &m, std::optional<TrainSet::Iterator> &slot,
                        const std::vector<Comb> &inModelOrder,
                        std::size_t threads) {
  // iterators always live in the same storage, as local variables of a loop do
  slot.reset();
  slot.emplace(TrainSet{inModelOrder}.makeIterator());
  return m.getWeightsGradient(*slot, threads);
}

// ------------------------------------------------------------------------ P15
void checkRf(Ctx &c, TModel &x, std::optional<TrainSet::Iterator> &slot,
             const std::vector<Comb> &samples, std::size_t threads) {
  auto got = grad(x.m, slot, toModelOrder(x.m, x.u, samples), threads);
  auto exp = x.t.gradient(samples, {});
  VF_REQUIRE(closeG(got, exp), "gradient is ", showv(got), " expected ",
             show(exp));
  for (float g : got)
    c.outcome(mix(3, (std::uint64_t)(std::int64_t)(g * 1000)));
  ++c.comparisons;
  ++c.transitions;
}
void p15Models(Ctx &c) {
  std::vector<Role> er, ur{R_NONE, R_CONST, R_TUN, R_SHARED};
  for (int n = 1; n <= 3; ++n)
    for (auto &e : allGraphs(n)) {
      if (!isForest(n, e))
        continue;
      for (int variant = 0; variant < (c.thorough() ? 8 : 4); ++variant) {
        er = {R_CONST, R_EXPC, R_TUN, R_SHARED};
        std::vector<std::size_t> sizes(SIZES.begin(), SIZES.begin() + n);
        int cnt = 0;
        forEachModel(n, e, er, ur, variant ^ (n & 1 ? 4 : 0), [&](const std::vector<FSpec> &fs) {
          ++cnt;
          if (!c.thorough() && n == 3 && (cnt + variant) % 2)
            return;
          c.run([&] { return "model " + show(fs); },
                [&] {
                  c.state(mix(1, show(fs)));
                  ++c.traces;
                  TModel x(sizes, fs);
                  std::optional<TrainSet::Iterator> slot;
                  std::size_t k = 0;
                  for (auto &set : sampleSets(sizes, n < 3))
                    checkRf(c, x, slot, set, k++ % 5 == 4 ? 2 : 1);
                  std::vector<double> w;
                  std::vector<float> wf;
                  for (std::size_t i = 0; i < x.t.weights.size(); ++i) {
                    w.push_back(-0.7 + 0.9 * i);
                    wf.push_back((float)w.back());
                  }
                  x.m.setWeights(wf);
                  x.t.setWeights(w);
                  auto sets = sampleSets(sizes, false);
                  for (std::size_t q = 0; q < sets.size(); q += 3)
                    checkRf(c, x, slot, sets[q], 1);
                });
        });
      }
    }
}
enum class G { W0, W1, W2, QSUM, QMAP, EV, EV2, REM, GA, GB, GPART, GTH, ADD };
const char *gname[] = {"w0",  "w1", "w2", "qsum", "qmap",  "ev", "ev2",
                       "rem", "ga", "gb", "gpart", "gth", "add"};
void p15History(Ctx &c) {
  struct W {
    std::string name;
    std::vector<std::size_t> sizes;
    std::vector<FSpec> fs;
    FSpec late;
  };
  std::vector<W> worlds = {
      {"chain", {2, 3, 2, 2},
       {{{0, 1}, TUN, 1, 0.5}, {{2, 1}, TUN, 2, -0.4}, {{0}, TUN, 3, 0.8}, {{1}, TAB, 4}},
       {{3, 2}, TUN, 9, 0.7}},
      {"shared", {2, 2, 3, 2},
       {{{0, 1}, TUN, 1, 0.5}, {{1, 2}, TUN, 2, -0.4, {0, 1}}, {{2}, TUN, 3, 0.8}, {{0}, TUN, 5, 0.1, {2}}},
       {{2, 3}, TUN, 9, 0.2, {2}}},
      {"const and components", {2, 3, 2, 2},
       {{{1, 0}, EXPC, 1, 0.5}, {{0}, TUN, 2, -0.4}, {{2}, TUN, 3, 0.8, {0}}, {{1}, TUN, 5, 1.1}},
       {{3}, TUN, 9, 0.9}},
      {"loner", {3, 2, 2, 2}, {{{0}, TUN, 1, 0.5}, {{0}, TUN, 6, 0.2}}, {{0, 1}, TUN, 9, 0.6}},
  };
  int depth = c.pick(3, 4);
  for (auto &w : worlds) {
    std::vector<int> seq;
    std::function<void()> rec = [&] {
      if (!seq.empty()) {
        G last = (G)seq.back();
        if (last == G::GA || last == G::GB || last == G::GPART || last == G::GTH)
          c.run(
              [&] {
                std::string s = w.name + ":";
                for (int o : seq)
                  s += str(" ", gname[o]);
                return s;
              },
              [&] {
                ++c.traces;
                TModel x(w.sizes, w.fs);
                std::optional<TrainSet::Iterator> slot;
                bool added = false;
                std::uint64_t h = mix(5, w.name);
                for (int o : seq) {
                  h = mix(h, (std::uint64_t)o);
                  c.state(h);
                  ++c.transitions;
                  auto setw = [&](int p) {
                    std::vector<double> ws;
                    std::vector<float> wf;
                    for (std::size_t i = 0; i < x.t.weights.size(); ++i) {
                      ws.push_back(0.3 * p - 0.5 * ((i + p) % 3));
                      wf.push_back((float)ws.back());
                    }
                    x.m.setWeights(wf);
                    x.t.setWeights(ws);
                  };
                  std::vector<Comb> all, some;
                  std::vector<std::size_t> sz = w.sizes;
                  for (std::size_t i = 0; i < prod(sz); ++i) {
                    all.push_back(unflat(i, sz));
                    if (hash32((unsigned)i) % 3 == 0)
                      some.push_back(all.back());
                  }
                  some.push_back(all.back());
                  switch ((G)o) {
                  case G::W0:
                  case G::W1:
                  case G::W2:
                    setw(o);
                    break;
                  case G::QSUM:
                    x.m.getMarginalDistribution(x.u.ptr[0]);
                    break;
                  case G::QMAP:
                    x.m.getHiddenSetMAP(2);
                    break;
                  case G::EV:
                    x.m.setEvidence(x.u.ptr[0], 1);
                    break;
                  case G::EV2:
                    x.m.setEvidence(x.u.ptr[x.t.r.vars.back()], 1);
                    break;
                  case G::REM:
                    x.m.removeAllEvidences();
                    break;
                  case G::ADD:
                    if (!added) {
                      x.t.add(w.late);
                      addReal(x.m, w.late, x.u);
                    }
                    added = true;
                    break;
                  case G::GA:
                    checkRf(c, x, slot, all, 1);
                    break;
                  case G::GB:
                    checkRf(c, x, slot, some, 1);
                    break;
                  case G::GTH:
                    checkRf(c, x, slot, some, 3);
                    break;
                  case G::GPART: {
                    slot.reset();
                    slot.emplace(TrainSet{toModelOrder(x.m, x.u, all)}.makeSubSetIterator(0.4f));
                    std::vector<Comb> drawn;
                    slot->forEachSample([&](const Comb &s) {
                      drawn.push_back(fromModelOrder(x.m, x.u, s));
                    });
                    auto got = x.m.getWeightsGradient(*slot, 1);
                    auto exp = x.t.gradient(drawn, {});
                    VF_REQUIRE(closeG(got, exp), "gradient for a part of the set is ",
                               showv(got), " expected ", show(exp));
                    ++c.comparisons;
                  } break;
                  }
                }
              });
      }
      if ((int)seq.size() == depth)
        return;
      for (int o = 0; o <= (int)G::ADD; ++o) {
        seq.push_back(o);
        rec();
        seq.pop_back();
      }
    };
    rec();
  }
}

// ------------------------------------------------------------------------ P16
bool acceptable(const std::vector<FSpec> &fs, const std::set<int> &obs) {
  for (auto &f : fs) {
    if (f.k != TUN)
      continue;
    bool all = true;
    for (int v : f.v)
      all = all && obs.count(v);
    if (all)
      return false;
  }
  return true;
}
struct Field {
  TModel src;
  std::unique_ptr<ConditionalRandomField> mid, f;
  std::set<int> obs;
  // how: 0 shallow, 1 deep, 2 copy of a shallow one, 3 copy of a deep one
  Field(const std::vector<std::size_t> &sizes, const std::vector<FSpec> &fs,
        const std::set<int> &obs, int how)
      : src(sizes, fs), obs(obs) {
    for (int v : obs) {
      src.m.setEvidence(src.u.ptr[v], (v + 1) % sizes[v]);
      src.t.r.ev[v] = (v + 1) % sizes[v];
    }
    auto x = std::make_unique<ConditionalRandomField>(src.m, how % 2 == 1);
    if (how >= 2) {
      mid = std::move(x);
      f = std::make_unique<ConditionalRandomField>(*mid);
    } else
      f = std::move(x);
  }
};
// weights of the field in its own order: clusters are matched by their groups
std::vector<int> clusterOrder(const ConditionalRandomField &f, const TRef &t,
                              const Vars &u) {
  std::vector<int> r;
  for (auto &c : f.getTunableClusters()) {
    EFG::train::FactorExponentialPtr p;
    if (auto *one = std::get_if<EFG::train::FactorExponentialPtr>(&c))
      p = *one;
    else
      p = std::get<EFG::train::TunableClusters>(c).front();
    std::set<int> g;
    for (auto &v : p->function().vars().getVariables())
      g.insert(u.idOf(v));
    r.push_back(t.clusterOf(g));
  }
  return r;
}
void checkCrf(Ctx &c, Field &x, std::optional<TrainSet::Iterator> &slot,
              const std::vector<Comb> &samples, std::size_t threads) {
  auto got = grad(*x.f, slot, toModelOrder(*x.f, x.src.u, samples), threads);
  auto exp = x.src.t.gradient(samples, x.obs);
  VF_REQUIRE(closeG(got, exp), "gradient is ", showv(got), " expected ",
             show(exp));
  for (float g : got)
    c.outcome(mix(3, (std::uint64_t)(std::int64_t)(g * 1000)));
  ++c.comparisons;
  ++c.transitions;
}
std::string setName(const std::set<int> &s) {
  std::string r = "{";
  for (int v : s)
    r += str(v);
  return r + "}";
}
// forests of 5 variables with bigger clusters
template <typename F> void wideModels(F &&fn) {
  std::vector<std::vector<std::pair<int, int>>> shapes = {
      {{0, 1}, {1, 2}, {2, 3}, {3, 4}}, {{0, 1}, {0, 2}, {0, 3}, {0, 4}}, {{4, 2}, {2, 0}, {2, 3}, {3, 1}}, {{3, 1}, {1, 4}, {0, 2}}};
  std::vector<std::size_t> sizes{2, 3, 2, 2, 2};
  for (auto &e : shapes)
    for (int pat = 0; pat < 6; ++pat)
      for (int un = 0; un < 4; ++un) {
        std::vector<FSpec> fs;
        std::vector<std::vector<int>> heads; // groups of the tunable factors
        auto put = [&](std::vector<int> v, Kind k, int share) {
          FSpec f{v, k, 3 + (int)fs.size(), 0.7 - 0.4 * (fs.size() % 4)};
          if (k == TUN && share >= 0 && !heads.empty())
            f.share = heads[share % heads.size()];
          if (k == TUN)
            heads.push_back(v);
          fs.push_back(f);
        };
        if (un == 1)
          for (int v = 0; v < 5; v += 2)
            put({v}, TUN, v ? 0 : -1); // unaries in one cluster, before the binaries
        for (std::size_t i = 0; i < e.size(); ++i) {
          auto [x, y] = e[i];
          if ((i + pat) % 2)
            std::swap(x, y);
          bool tun = !(pat == 4 && i % 2) && !(pat == 5 && i == 0);
          // all apart, one cluster, two clusters, chained requests
          int share = pat == 0 ? -1 : pat == 1 ? 0 : pat == 2 ? (i < 2 ? -1 : (int)i) : pat == 3 ? (int)heads.size() - 1 : i ? 0 : -1;
          put({x, y}, tun ? TUN : EXPC, share);
        }
        if (un >= 2)
          for (int v = 0; v < 5; ++v)
            put({v}, v == 3 ? TAB : TUN, un == 2 ? -1 : (int)heads.size() - 1);
        bool tun = false;
        std::set<int> touched;
        for (auto &f : fs) {
          tun = tun || f.k == TUN;
          touched.insert(f.v.begin(), f.v.end());
        }
        if (tun && touched.size() == 5)
          fn(sizes, e, fs);
      }
}
std::vector<std::vector<Comb>> wideSets(const std::vector<std::size_t> &sizes) {
  std::vector<std::vector<Comb>> r(4);
  for (std::size_t i = 0; i < prod(sizes); ++i) {
    auto x = unflat(i, sizes);
    r[0].push_back(x);
    if (hash32((unsigned)i) % 5 == 0)
      r[1].push_back(x);
    if (i % 7 == 3)
      r[2].push_back(x);
  }
  r[3] = {unflat(prod(sizes) - 2, sizes)};
  return r;
}
void p15Wide(Ctx &c) {
  wideModels([&](auto &sizes, auto &, auto &fs) {
    c.run([&] { return "wide model " + show(fs); },
          [&] {
            c.state(mix(11, show(fs)));
            ++c.traces;
            TModel x(sizes, fs);
            std::optional<TrainSet::Iterator> slot;
            std::size_t th = 0;
            for (int round = 0; round < 2; ++round) {
              for (auto &set : wideSets(sizes))
                checkRf(c, x, slot, set, 1 + th++ % 3);
              std::vector<double> w;
              std::vector<float> wf;
              for (std::size_t i = 0; i < x.t.weights.size(); ++i) {
                w.push_back(-0.7 + 0.45 * i);
                wf.push_back((float)w.back());
              }
              x.m.setWeights(wf);
              x.t.setWeights(w);
            }
          });
  });
}
// weights of any magnitude, variables with many values, training sets of any size
void extra(Ctx &c, bool conditional) {
  std::vector<std::vector<std::size_t>> sizeSets = {{2, 3, 2}, {40, 2, 3}, {2, 33, 2}, {2, 3, 70}, {300, 2, 1}};
  std::vector<std::vector<FSpec>> models = {
      {{{0, 1}, TUN, 1, 0.5}, {{2, 1}, TUN, 2, -0.4}, {{0}, TUN, 3, 0.8}, {{1}, TAB, 4}},
      {{{1, 0}, TUN, 1, 0.5}, {{1, 2}, TUN, 2, -0.4, {0, 1}}, {{1}, TUN, 3, 0.8}, {{0}, TUN, 5, 0.1, {1}}},
      {{{0, 1}, TAB, 1}, {{2, 1}, TUN, 2, 0.6}, {{1}, TUN, 3, 0.3, {1, 2}}, {{2}, EXPC, 6, 0.5}}};
  std::optional<TrainSet::Iterator> slot;
  for (std::size_t z = 0; z < sizeSets.size(); ++z)
    for (std::size_t k = 0; k < models.size(); ++k)
      for (unsigned m = conditional ? 1 : 0; m < (conditional ? 7u : 1u); ++m) {
        std::set<int> obs;
        for (int v = 0; v < 3; ++v)
          if (m >> v & 1)
            obs.insert(v);
        auto sizes = sizeSets[z];
        auto &fs = models[k];
        if (conditional && !acceptable(fs, obs))
          continue;
        for (int wm = 0; wm < 6; ++wm)
          c.run([&] { return str("sizes ", showv(sizes), " model ", k, conditional ? " observed " + setName(obs) : std::string{}, " weights ", wm); },
                [&] {
                  c.state(mix(mix(mix(mix(21, z), k), m), (std::uint64_t)wm));
                  ++c.traces;
                  TModel plain(sizes, fs);
                  std::unique_ptr<Field> field;
                  if (conditional)
                    field = std::make_unique<Field>(sizes, fs, obs, wm % 4);
                  TModel &x = conditional ? field->src : plain;
                  std::vector<double> w;
                  std::vector<float> wf;
                  for (std::size_t i = 0; i < x.t.weights.size(); ++i) {
                    w.push_back(wm == 0 ? 0. : wm == 1 ? (i % 2 ? -6. : 6.) : wm == 2 ? 15. : wm == 3 ? 1e-4 * (i + 1.) : wm == 4 ? -15. : (i ? 0. : 20.));
                    wf.push_back((float)w.back());
                  }
                  if (conditional)
                    field->f->setWeights(wf);
                  else
                    x.m.setWeights(wf);
                  x.t.setWeights(w);
                  std::size_t th = wm;
                  for (std::size_t n : {1, 2, 255, 256, 257, 1000}) {
                    if (n == 1000 && conditional && !c.thorough())
                      n = 300;
                    if (n > 256 && sizes[0] > 100)
                      n = 20;
                    std::vector<Comb> set;
                    for (std::size_t i = 0; i < n; ++i)
                      set.push_back(unflat(hash32((unsigned)(i + 7 * wm)) % prod(sizes), sizes));
                    if (conditional)
                      checkCrf(c, *field, slot, set, 1 + th++ % 3);
                    else
                      checkRf(c, x, slot, set, 1 + th++ % 3);
                  }
                });
      }
}
void p16Wide(Ctx &c) {
  std::optional<TrainSet::Iterator> slot;
  int cnt = 0;
  wideModels([&](auto &sizes, auto &, auto &fs) {
    for (unsigned m = 1; m < 31; ++m) {
      std::set<int> obs;
      for (int v = 0; v < 5; ++v)
        if (m >> v & 1)
          obs.insert(v);
      if (!acceptable(fs, obs))
        continue;
      int how = cnt++ % 4;
      c.run([&] { return "wide field " + show(fs) + " observed " + setName(obs) + " how " + str(how); },
            [&] {
              c.state(mix(mix(12, show(fs)), (std::uint64_t)m));
              ++c.traces;
              Field x(sizes, fs, obs, how);
              std::size_t th = m;
              for (auto &set : wideSets(sizes))
                checkCrf(c, x, slot, set, 1 + th++ % 3);
            });
    }
  });
}
void p16(Ctx &c) {
  std::vector<Role> er{R_CONST, R_TUN, R_SHARED};
  std::optional<TrainSet::Iterator> slot;
  for (int n = 2; n <= 4; ++n) {
    std::vector<std::size_t> sizes(SIZES.begin(), SIZES.begin() + n);
    if (n == 4)
      sizes = {2, 3, 2, 2};
    int cnt = 0;
    for (auto &e : allGraphs(n)) {
      if (e.empty() || (n == 4 && !c.thorough() && (e.size() < 3 || e.size() > 4)))
        continue;
      std::vector<Role> ur = n < 4 ? std::vector<Role>{R_NONE, R_TUN, R_SHARED}
                                   : std::vector<Role>{R_NONE, R_TUN};
      for (int variant = 0; variant < 8; ++variant)
        forEachModel(n, e, er, ur, variant, [&](const std::vector<FSpec> &fs) {
          bool anyTun = false;
          for (auto &f : fs)
            anyTun = anyTun || f.k == TUN;
          if (!anyTun)
            return;
          for (unsigned m = 1; m + 1 < (1u << n); ++m) {
            std::set<int> obs;
            for (int v = 0; v < n; ++v)
              if (m >> v & 1)
                obs.insert(v);
            if (!acceptable(fs, obs) || !isForest(n, e, obs))
              continue;
            ++cnt;
            // 3 variables: every graph, roles and evidences; the order of insertion and the way the field is built rotate
            unsigned sel = 0;
            if (n == 3 && !c.thorough()) {
              auto sorted = fs;
              std::sort(sorted.begin(), sorted.end(), [](auto &l, auto &r) { return l.id < r.id; });
              std::uint64_t h = mix(m, (std::uint64_t)e.size());
              for (auto &f : sorted)
                h = mix(h, (std::uint64_t)(f.id * 16 + (int)f.k * 2 + f.share.empty()));
              sel = (unsigned)(h >> 20);
              if ((sel % 8) / 2 != (unsigned)variant / 2)
                continue;
            }
            if (n == 4 && hash32((unsigned)cnt) % (c.thorough() ? 24 : 500))
              continue;
            for (int how = 0; how < 4; ++how) {
              if (n == 3 && !c.thorough() && (int)(sel / 8 % 4) != how)
                continue;
              c.run([&] { return "field " + show(fs) + " observed " + setName(obs) + " how " + str(how); },
                    [&] {
                      c.state(mix(mix(2, show(fs)), (std::uint64_t)(m * 4 + how)));
                      ++c.traces;
                      Field x(sizes, fs, obs, how);
                      auto order = clusterOrder(*x.f, x.src.t, x.src.u);
                      for (std::size_t k = 0; k < order.size(); ++k)
                        VF_REQUIRE(order[k] == (int)k, "clusters in another order");
                      auto sets = sampleSets(sizes, n == 2);
                      for (std::size_t q = 0; q < sets.size(); ++q)
                        checkCrf(c, x, slot, sets[q], q % 7 == 6 ? 2 : 1);
                      std::vector<double> w;
                      std::vector<float> wf;
                      for (std::size_t i = 0; i < x.src.t.weights.size(); ++i) {
                        w.push_back(-0.7 + 0.9 * i);
                        wf.push_back((float)w.back());
                      }
                      x.f->setWeights(wf);
                      x.src.t.setWeights(w);
                      for (std::size_t q = sets.size() - 2; q < sets.size(); ++q)
                        checkCrf(c, x, slot, sets[q], 1);
                      // after evidences were set by hand and a query
                      std::vector<std::size_t> zeros(obs.size(), 0);
                      x.f->setEvidences(zeros);
                      x.f->getHiddenSetMAP();
                      checkCrf(c, x, slot, sets.back(), 1);
                    });
            }
          }
        });
    }
  }
}

// ------------------------------------------------------------------------ P17
std::map<int, std::size_t> evidencesOf(const ConditionalRandomField &f,
                                       const Vars &u) {
  std::map<int, std::size_t> r;
  for (auto &[v, x] : f.getEvidences())
    r[u.idOf(v)] = x;
  return r;
}
void checkField(Ctx &c, Field &x, const RModel &r) {
  VF_REQUIRE(evidencesOf(*x.f, x.src.u) == r.ev, "evidences of the field");
  auto a = r.solve();
  auto obs = x.f->getObservedVariables();
  VF_REQUIRE(obs.size() == r.ev.size(), "observed variables");
  for (auto &v : obs)
    VF_REQUIRE(r.ev.count(x.src.u.idOf(v)), "observed ", v->name());
  VF_REQUIRE(x.f->getHiddenVariables().size() + obs.size() == r.vars.size(),
             "hidden variables");
  VF_REQUIRE(x.f->getAllVariables().size() == r.vars.size(), "variables");
  VF_REQUIRE(x.f->getAllFactors().size() == r.f.size(), "field holds ",
             x.f->getAllFactors().size(), " factors, expected ", r.f.size());
  auto ws = x.f->getWeights();
  VF_REQUIRE(ws.size() == x.src.t.weights.size(), "weights");
  for (std::size_t k = 0; k < ws.size(); ++k)
    VF_REQUIRE(std::fabs(ws[k] - x.src.t.weights[k]) < 1e-5, "weight ", k);
  VF_REQUIRE(x.f->getTunableClusters().size() == ws.size(), "clusters");
  checkMarginals(c, *x.f, r, x.src.u, a);
  ++c.comparisons;
}
void p17(Ctx &c) {
  struct W {
    std::string name;
    std::vector<std::size_t> sizes;
    std::vector<FSpec> fs;
    std::set<unsigned> masks; // all of them when empty
  };
  std::vector<W> worlds = {
      {"many values", {2, 300, 3}, {{{0, 1}, TUN, 1, 0.5}, {{1, 2}, TUN, 2, 0.2}, {{0}, TAB, 4}}, {2u, 6u}},
      {"many evidences", {2, 2, 2, 2, 2, 2, 2, 3},
       {{{0, 1}, TUN, 1, 0.5}, {{2, 0}, TUN, 2, 0.2, {0, 1}}, {{0, 3}, TAB, 4}, {{0, 4}, TUN, 5, 0.1}, {{5, 0}, TAB, 6}, {{6, 0}, TUN, 7, 0.4}, {{0, 7}, TAB, 8}},
       {254u}},
      {"star", {3, 2, 4, 3, 2},
       {{{0, 1}, TUN, 1, 0.5}, {{2, 0}, TUN, 2, -0.4}, {{0, 3}, TAB, 3}, {{0, 4}, TUN, 4, 0.3, {0, 1}}, {{0}, TUN, 5, 0.2}}},
      {"chain", {2, 3, 4, 2}, {{{0, 1}, TUN, 1, 0.5}, {{1, 2}, TAB, 2}, {{3, 2}, EXPC, 3, 0.7}, {{3}, TAB, 4}}},
      {"const cycle", {2, 3, 2, 3}, {{{0, 1}, TAB, 1}, {{1, 2}, TAB, 2}, {{2, 3}, TAB, 3}, {{3, 0}, TAB, 4}, {{2}, TAB, 6}}},
      {"triangle", {3, 2, 2}, {{{0, 1}, TUN, 1, 0.5}, {{1, 2}, TUN, 2, 0.2}, {{2, 0}, TUN, 3, 0.9}}},
      {"loners", {2, 3, 4}, {{{0}, TAB, 1}, {{1}, TAB, 2}, {{2}, TUN, 3, 0.5}}},
      {"pairs", {2, 3, 4, 2, 2, 3}, {{{0, 1}, TUN, 1, 0.6}, {{3, 2}, TUN, 2, 0.4, {0, 1}}, {{4, 5}, TAB, 3}, {{5}, TAB, 4}}},
  };
  for (auto &w : worlds) {
    int n = (int)w.sizes.size();
    std::vector<std::pair<int, int>> e;
    for (auto &f : w.fs)
      if (f.v.size() == 2)
        e.push_back({f.v[0], f.v[1]});
    for (unsigned m = 0; m < (1u << n); ++m) {
      if (!w.masks.empty() && !w.masks.count(m))
        continue;
      std::set<int> obs;
      for (int v = 0; v < n; ++v)
        if (m >> v & 1)
          obs.insert(v);
      if (obs.empty()) {
        for (bool deep : {false, true})
          c.run([&] { return w.name + " no evidence" + (deep ? " deep" : ""); },
                [&] {
                  TModel s(w.sizes, w.fs);
                  VF_REQUIRE(throws([&] { ConditionalRandomField f(s.m, deep); }),
                             "field without evidences accepted");
                  s.m.setEvidence(s.u.ptr[0], 0);
                  s.m.removeEvidence(s.u.ptr[0]);
                  VF_REQUIRE(throws([&] { ConditionalRandomField f(s.m, deep); }),
                             "field without evidences accepted");
                  ++c.traces;
                  ++c.comparisons;
                });
        continue;
      }
      if (!acceptable(w.fs, obs) || !isForest(n, e, obs))
        continue;
      for (int how = 0; how < 4; ++how) {
        c.run([&] { return w.name + " observed " + setName(obs) + " how " + str(how) + " evidences"; },
              [&] {
                c.state(mix(mix(6, w.name), (std::uint64_t)(m * 4 + how)));
                ++c.traces;
                Field x(w.sizes, w.fs, obs, how);
                RModel r = x.src.t.r;
                checkField(c, x, r);
                // every assignment of values, and every invalid one
                std::vector<int> listing;
                std::vector<std::size_t> dom, wide;
                for (auto &v : x.f->getObservedVariables()) {
                  listing.push_back(x.src.u.idOf(v));
                  dom.push_back(v->size());
                  wide.push_back(v->size() + 1);
                }
                std::size_t tot = prod(wide);
                for (std::size_t q = 0; q < tot; ++q) {
                  // jump around so that consecutive assignments differ a lot
                  std::size_t k = (q * 7 + 3) % tot;
                  if (tot % 7 == 0)
                    k = q;
                  auto vals = unflat(k, wide);
                  bool ok = true;
                  for (std::size_t i = 0; i < vals.size(); ++i)
                    ok = ok && vals[i] < dom[i];
                  ++c.transitions;
                  if (ok) {
                    x.f->setEvidences(vals);
                    for (std::size_t i = 0; i < vals.size(); ++i)
                      r.ev[listing[i]] = vals[i];
                  } else
                    VF_REQUIRE(throws([&] { x.f->setEvidences(vals); }),
                               "evidences ", showv(vals), " accepted");
                  checkField(c, x, r);
                }
                for (std::size_t len = 0; len <= dom.size() + 2; ++len) {
                  if (len == dom.size())
                    continue;
                  std::vector<std::size_t> vals(len, 0);
                  if (len)
                    vals[0] = dom[0] - 1;
                  VF_REQUIRE(throws([&] { x.f->setEvidences(vals); }), len,
                             " evidences accepted instead of ", dom.size());
                  checkField(c, x, r);
                }
                std::vector<std::size_t> huge(dom.size(), 0);
                huge.back() = ~std::size_t(0);
                VF_REQUIRE(throws([&] { x.f->setEvidences(huge); }), "huge value");
                checkField(c, x, r);
                // the source is not affected
                VF_REQUIRE(x.src.m.getEvidences().size() == obs.size(), "source");
                for (auto &[v, val] : x.src.m.getEvidences())
                  VF_REQUIRE(x.src.t.r.ev.at(x.src.u.idOf(v)) == val,
                             "evidence of the source changed");
              });
        if (how % 2)
          continue;
        std::vector<float> prc{1.f, 0.f, 0.01f, 0.1f, 0.2f, 0.25f, 0.34f, 0.5f, 0.6f, 0.75f, 0.9f, 0.999f};
        for (float p : prc)
          for (std::size_t threads : {1, 2}) {
            if (threads == 2 && p != 1.f && p != 0.5f)
              continue;
            c.run([&] { return w.name + " observed " + setName(obs) + " how " + str(how) + " train set " + str(p, " threads ", threads); },
                  [&] {
                    c.state(mix(mix(mix(7, w.name), (std::uint64_t)(m * 4 + how)), str(p, threads)));
                    ++c.traces;
                    Field x(w.sizes, w.fs, obs, how);
                    RModel r = x.src.t.r;
                    EFG::strct::GibbsSampler::SamplesGenerationContext g;
                    g.samples_number = 3;
                    g.delta_iterations = 1;
                    g.transient = 1;
                    g.seed = 5;
                    auto set = x.f->makeTrainSet(g, p, threads);
                    std::vector<std::size_t> dom;
                    std::vector<std::size_t> pos;
                    auto &all = x.f->getAllVariables();
                    for (auto &v : x.f->getObservedVariables()) {
                      dom.push_back(v->size());
                      for (std::size_t k = 0; k < all.size(); ++k)
                        if (all[k] == v)
                          pos.push_back(k);
                    }
                    std::size_t tot = prod(dom);
                    VF_REQUIRE(set.size() % 3 == 0 && !set.empty(), "train set of ",
                               set.size(), " samples");
                    std::vector<std::size_t> visited;
                    for (std::size_t k = 0; k < set.size(); ++k) {
                      auto &s = set[k];
                      VF_REQUIRE(s.size() == all.size(), "sample size");
                      for (std::size_t i = 0; i < s.size(); ++i)
                        VF_REQUIRE(s[i] < all[i]->size(), "sample value out of domain");
                      std::size_t key = 0;
                      for (std::size_t i = 0; i < pos.size(); ++i)
                        key = key * dom[i] + s[pos[i]];
                      if (k % 3 == 0)
                        visited.push_back(key);
                      else
                        VF_REQUIRE(visited.back() == key, "sample ", k,
                                   " doesn't carry the evidences it was drawn for");
                    }
                    std::set<std::size_t> distinct(visited.begin(), visited.end());
                    VF_REQUIRE(distinct.size() == visited.size(),
                               "some evidences are visited many times");
                    if (p == 1.f)
                      VF_REQUIRE(distinct.size() == tot, distinct.size(),
                                 " evidences visited out of ", tot);
                    VF_REQUIRE((float)distinct.size() >= std::floor(p * tot),
                               distinct.size(), " evidences visited out of ", tot,
                               " for a range of ", p);
                    // spread over the range: the biggest hole is not bigger
                    // than what a regular spacing needs
                    std::size_t want = std::max<std::size_t>(1, (std::size_t)std::floor(p * tot));
                    // no more of them than the spacing that gives at least the fraction asked
                    std::size_t step = tot / want;
                    VF_REQUIRE(distinct.size() <= (tot + step - 1) / step, distinct.size(), " evidences visited out of ", tot,
                               " for a range of ", p);
                    std::size_t prev = 0, hole = 0;
                    for (std::size_t k : distinct) {
                      hole = std::max(hole, k - prev);
                      prev = k;
                    }
                    VF_REQUIRE(hole <= tot / want, "evidences not spread: hole of ",
                               hole, " expected at most ", tot / want);
                    c.comparisons += 3;
                    ++c.transitions;
                    // only the values of the evidences may have changed
                    for (auto &[v, val] : x.f->getEvidences()) {
                      VF_REQUIRE(r.ev.count(x.src.u.idOf(v)), "evidence set changed");
                      r.ev[x.src.u.idOf(v)] = val;
                    }
                    checkField(c, x, r);
                  });
          }
        c.run([&] { return w.name + " observed " + setName(obs) + " how " + str(how) + " invalid range"; },
              [&] {
                ++c.traces;
                Field x(w.sizes, w.fs, obs, how);
                EFG::strct::GibbsSampler::SamplesGenerationContext g;
                g.samples_number = 1;
                g.delta_iterations = 1;
                g.transient = 0;
                for (float p : {-0.1f, 1.01f, 5.f, -1.f})
                  VF_REQUIRE(throws([&] { x.f->makeTrainSet(g, p); }), "range ", p, " accepted");
                checkField(c, x, x.src.t.r);
              });
      }
    }
  }
}
} // namespace
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    if (c.prop == "P15") {
      p15Models(c);
      p15History(c);
      p15Wide(c);
      extra(c, false);
    } else if (c.prop == "P16") {
      p16(c);
      p16Wide(c);
      extra(c, true);
    } else
      p17(c);
  });
}
