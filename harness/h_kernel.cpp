// P13: the Gibbs chain, with the answers of the random engines enumerated.
#include "tmodel.hpp"
#include <mutex>
#include <thread>

using namespace vf;
using SC = EFG::strct::GibbsSampler::SamplesGenerationContext;
namespace {
// ------------------------------------------------------------ scripted engines
using Slot = std::pair<std::uint64_t, std::uint64_t>; // engine (seed), call
struct Oracle {
  std::mutex m;
  std::map<std::uint64_t, std::uint64_t> calls;                // per seed
  std::map<std::uint64_t, std::set<std::thread::id>> threads;  // per seed
  std::function<std::uint32_t(std::uint64_t, std::uint64_t)> answer;
  void reset() {
    calls.clear();
    threads.clear();
  }
};
Oracle &oracle() {
  static Oracle o;
  return o;
}
constexpr std::uint32_t U(double u) { return (std::uint32_t)(u * 4294967296.0); }
} // namespace
std::uint32_t vf_rng(std::uint64_t seed, std::uint64_t call) {
  auto &o = oracle();
  std::lock_guard<std::mutex> g(o.m);
  ++o.calls[seed];
  o.threads[seed].insert(std::this_thread::get_id());
  return o.answer ? o.answer(seed, call) : U(0.5);
}
namespace {
struct Case {
  std::string name;
  std::vector<std::size_t> sizes;
  std::vector<FSpec> f;
  std::map<int, std::size_t> ev;
};
FSpec mk(Kind k, std::vector<int> v, int id, double w = 0.7) {
  FSpec s;
  s.k = k;
  s.v = v;
  s.id = id;
  s.w = w;
  return s;
}
double value(const RModel &r, const Comb &x) {
  double p = 1;
  for (auto &f : r.f)
    p *= r.value(f, x);
  return p;
}
// conditional of v given the other values of x
std::vector<double> conditional(const RModel &r, int v, Comb x) {
  std::vector<double> d;
  double t = 0;
  for (std::size_t k = 0; k < r.size[v]; ++k) {
    x[v] = k;
    d.push_back(value(r, x));
    t += d.back();
  }
  for (auto &y : d)
    y /= t;
  return d;
}

struct Chain {
  Ctx &c;
  TModel &t;
  std::size_t threads;
  std::vector<int> hidden;
  // random answers used by one iteration: (engine, position of the first call, number of calls)
  struct S {
    std::uint64_t seed, first, n;
  };
  std::vector<S> slots;
  std::map<std::uint64_t, std::uint64_t> perIter; // calls of an engine in an iteration

  std::vector<Comb> draw(std::size_t n, std::size_t delta, std::size_t transient,
                         const std::function<double(std::size_t iter, std::size_t slot)> &u,
                         std::optional<std::size_t> seed = 5) {
    auto &o = oracle();
    o.reset();
    o.answer = [&](std::uint64_t s, std::uint64_t call) -> std::uint32_t {
      auto it = perIter.find(s);
      if (it == perIter.end() || it->second == 0)
        return U(0.5);
      std::size_t iter = call / it->second, pos = call % it->second;
      for (std::size_t k = 0; k < slots.size(); ++k)
        if (slots[k].seed == s && pos >= slots[k].first && pos < slots[k].first + slots[k].n) {
          double x = u(iter, k);
          return x >= 1 ? 0xffffffffu : U(x);
        }
      return U(0.5);
    };
    SC ctx;
    ctx.samples_number = n;
    ctx.delta_iterations = delta;
    ctx.transient = transient;
    ctx.seed = seed;
    std::vector<Comb> r;
    for (auto &s : t.m.makeSamples(ctx, threads)) {
      VF_REQUIRE(s.size() == t.m.getAllVariables().size(), "sample of the wrong length");
      r.push_back(fromModelOrder(t.m, t.u, s));
    }
    VF_REQUIRE(r.size() == n, r.size(), " samples instead of ", n);
    o.answer = nullptr;
    ++c.transitions;
    return r;
  }
  // false when nothing is drawn at random
  bool discover() {
    hidden = t.t.r.hidden();
    perIter.clear();
    slots.clear();
    draw(2, 1, 0, [](auto, auto) { return 0.5; });
    auto two = oracle().calls;
    draw(5, 1, 0, [](auto, auto) { return 0.5; });
    auto five = oracle().calls;
    std::size_t tot = 0;
    for (auto &[s, n] : five) {
      // calls made by 3 more iterations
      std::uint64_t more = n - two[s];
      VF_REQUIRE(more % 3 == 0, "the number of random draws is not the same in every iteration");
      perIter[s] = more / 3;
      tot += perIter[s];
    }
    if (hidden.empty()) {
      VF_REQUIRE(tot == 0, "random draws although nothing is hidden");
      return false;
    }
    VF_REQUIRE(tot >= hidden.size() && tot % hidden.size() == 0, tot, " random draws per iteration for ", hidden.size(), " hidden variables");
    std::uint64_t k = tot / hidden.size();
    for (auto &[s, n] : perIter) {
      VF_REQUIRE(n % k == 0, "the draws of an iteration are not the same for every variable");
      for (std::uint64_t a = 0; a < n; a += k)
        slots.push_back({s, a, k});
    }
    return true;
  }
};

// a candidate explanation: update order and which slot feeds which variable
struct Explain {
  std::vector<int> order;         // hidden variables
  std::vector<std::size_t> slot;  // slot of order[k]
};
std::vector<Explain> explanations(const std::vector<int> &hidden) {
  std::vector<Explain> r;
  auto o = hidden;
  std::sort(o.begin(), o.end());
  do {
    std::vector<std::size_t> s(o.size());
    for (std::size_t k = 0; k < s.size(); ++k)
      s[k] = k;
    do
      r.push_back({o, s});
    while (std::next_permutation(s.begin(), s.end()));
  } while (std::next_permutation(o.begin(), o.end()));
  return r;
}

void kernel(Ctx &c, const Case &k, std::size_t threads, bool warm) {
  TModel t(k.sizes, k.f);
  for (auto &[v, x] : k.ev) {
    t.m.setEvidence(t.u.ptr[v], x);
    t.t.r.ev[v] = x;
  }
  if (warm) {
    t.m.getMarginalDistribution(t.u.ptr[0]);
    if (!t.t.weights.empty()) {
      std::vector<float> w;
      std::vector<double> wd;
      for (auto x : t.t.weights) {
        w.push_back((float)x + 0.25f);
        wd.push_back((double)w.back());
      }
      t.m.setWeights(w);
      t.t.setWeights(wd);
    }
  }
  const RModel &r = t.t.r;
  Chain ch{c, t, threads};
  if (!ch.discover())
    return;
  const std::size_t n = ch.hidden.size();
  const std::size_t K = threads == 1 ? c.pick(96, 512) : c.pick(32, 64);
  std::vector<double> grid;
  for (std::size_t i = 0; i < K; ++i)
    grid.push_back((i + 0.5) / K);
  std::vector<double> coarse = n >= 4 ? std::vector<double>{0.17, 0.83} : std::vector<double>{0.03, 0.5, 0.97};
  // states reachable with one iteration, and the answers leading there
  std::map<Comb, std::vector<double>> reach;
  std::vector<double> menu{0.02, 0.21, 0.4, 0.6, 0.79, 0.98};
  if (n >= 3)
    menu = {0.02, 0.35, 0.65, 0.98};
  std::vector<std::size_t> pick(n, 0);
  while (true) {
    std::vector<double> u;
    for (auto p : pick)
      u.push_back(menu[p]);
    auto s = ch.draw(2, 1, 0, [&](std::size_t it, std::size_t sl) { return it == 0 ? u[sl] : 0.5; });
    reach.emplace(s[1], u);
    std::size_t d = 0;
    for (; d < n; ++d) {
      if (++pick[d] < menu.size())
        break;
      pick[d] = 0;
    }
    if (d == n)
      break;
  }
  auto cand = explanations(ch.hidden);
  std::string lastBad;
  const double tol = 2.0 / K + 2e-3;
  std::size_t starts = 0;
  for (auto &[x, how] : reach) {
    if (value(r, x) == 0)
      continue; // the chain is still leaving an impossible initial state
    if (++starts > (std::size_t)c.pick(n >= 3 ? 5 : 8, 1000))
      break;
    c.state(mix(mix(1, k.name), showv(x)));
    // the answer of one slot varies, the other ones are fixed
    for (std::size_t sl = 0; sl < n; ++sl) {
      std::vector<std::size_t> fixedPick(n, 0);
      while (true) {
        std::map<Comb, std::size_t> seen; // outcome -> how many answers
        auto step = [&](double g) {
          auto s = ch.draw(3, 1, 0, [&, &how = how](std::size_t it, std::size_t q) { return it == 0 ? how[q] : it > 1 ? 0.5 : q == sl ? g : coarse[fixedPick[q]]; });
          VF_REQUIRE(s[1] == x, "the same answers lead to another state");
          return s[2];
        };
        for (double g : grid)
          ++seen[step(g)];
        // extreme answers never give impossible values
        for (double g : {0.0, 1.0}) {
          auto y = step(g);
          VF_REQUIRE(value(r, y) > 0, "state ", showv(y), " of null probability drawn from ", showv(x), " with the random answer ", g);
          c.outcome(mix(3, showv(y)));
        }
        for (auto &[y, m] : seen) {
          VF_REQUIRE(value(r, y) > 0, "state ", showv(y), " of null probability drawn from ", showv(x));
          for (auto &[v, e] : k.ev)
            VF_REQUIRE(y[v] == e, "an observed variable changed");
        }
        // keep the explanations that fit
        std::vector<Explain> left;
        for (auto &e : cand) {
          std::size_t j = 0;
          while (e.slot[j] != sl)
            ++j;
          int v = e.order[j];
          bool ok = true;
          // variables updated before are not influenced by this answer
          Comb given = x;
          for (std::size_t q = 0; q < j && ok; ++q) {
            for (auto &[y, m] : seen)
              ok = ok && y[e.order[q]] == seen.begin()->first[e.order[q]];
            given[e.order[q]] = seen.begin()->first[e.order[q]];
          }
          if (!ok) {
            lastBad = str("a variable updated before ", v, " depends on its draw, from ", showv(x));
            continue;
          }
          auto d = conditional(r, v, given);
          std::vector<double> freq(d.size(), 0.);
          for (auto &[y, m] : seen)
            freq[y[v]] += (double)m / K;
          for (std::size_t q = 0; q < d.size(); ++q)
            ok = ok && std::fabs(freq[q] - d[q]) <= tol && !(d[q] == 0 && freq[q] > 0);
          if (!ok)
            lastBad = str("from ", showv(x), " variable ", v, " takes its values with frequencies ", showv(freq), " instead of ", showv(d));
          if (ok)
            left.push_back(e);
        }
        cand = left;
        VF_REQUIRE(!cand.empty(), "no update order explains the transitions: ", lastBad);
        ++c.comparisons;
        std::size_t d = 0;
        for (; d < n; ++d) {
          if (d == sl)
            continue;
          if (++fixedPick[d] < coarse.size())
            break;
          fixedPick[d] = 0;
        }
        if (d == n)
          break;
      }
    }
  }
  VF_REQUIRE(starts > 0, "no state of positive probability reached");
  c.extra["start_states"] += starts;
}

// thinning and transient
void counting(Ctx &c, const Case &k, std::size_t threads, int script) {
  TModel t(k.sizes, k.f);
  for (auto &[v, x] : k.ev) {
    t.m.setEvidence(t.u.ptr[v], x);
    t.t.r.ev[v] = x;
  }
  Chain ch{c, t, threads};
  if (!ch.discover())
    return;
  auto u = [&](std::size_t it, std::size_t sl) { return (hash32((unsigned)(it * 31 + sl * 7 + script * 1001)) % 1000 + 0.5) / 1000.; };
  const std::size_t L = 64;
  auto X = ch.draw(L, 1, 0, u);
  for (std::size_t tr = 0; tr <= 5; ++tr)
    for (std::size_t d = 1; d <= 4; ++d)
      for (std::size_t n = 0; n <= 4; ++n) {
        auto Y = ch.draw(n, d, tr, u);
        for (std::size_t q = 0; q < n; ++q)
          VF_REQUIRE(Y[q] == X[tr + q * d], "sample ", q, " with transient ", tr, " and ", d, " iterations between samples is not the state after ",
                     tr + q * d, " iterations");
        ++c.comparisons;
      }
  // long ones
  if (script == 0) {
    auto W = ch.draw(1400, 1, 0, u);
    for (std::size_t tr : {7, 63, 64, 65, 255, 256, 257, 600})
      for (std::size_t d : {1, 17, 255, 256, 257})
        for (std::size_t n : {1, 2, 3, 65, 257}) {
          if (tr + (n - 1) * d >= W.size())
            continue;
          auto Y = ch.draw(n, d, tr, u);
          VF_REQUIRE(Y.size() == n, Y.size(), " samples instead of ", n);
          for (std::size_t q = 0; q < n; ++q)
            VF_REQUIRE(Y[q] == W[tr + q * d], "sample ", q, " with transient ", tr, " and ", d,
                       " iterations between samples is not the state after ", tr + q * d, " iterations");
          ++c.comparisons;
        }
  }
  // documented default of the transient
  for (std::size_t d = 1; d <= 4; ++d) {
    auto &o = oracle();
    auto Y = ch.draw(1, d, 10 * d, u);
    o.reset();
    std::vector<Comb> Z;
    {
      SC ctx;
      ctx.samples_number = 1;
      ctx.delta_iterations = d;
      ctx.seed = 5;
      auto answer = [&](std::uint64_t s, std::uint64_t call) -> std::uint32_t {
        auto it = ch.perIter.find(s);
        if (it == ch.perIter.end() || it->second == 0)
          return U(0.5);
        std::size_t iter = call / it->second, pos = call % it->second;
        for (std::size_t q = 0; q < ch.slots.size(); ++q)
          if (ch.slots[q].seed == s && pos >= ch.slots[q].first && pos < ch.slots[q].first + ch.slots[q].n)
            return U(u(iter, q));
        return U(0.5);
      };
      o.answer = answer;
      for (auto &s : t.m.makeSamples(ctx, threads))
        Z.push_back(fromModelOrder(t.m, t.u, s));
      o.answer = nullptr;
    }
    VF_REQUIRE(Z.size() == 1 && Z[0] == Y[0] && Z[0] == X[10 * d], "the default transient is not 10 times the iterations between samples");
  }
  ++c.traces;
}

// streams of different threads
void streams(Ctx &c, const Case &k, std::size_t threads, std::optional<std::size_t> seed) {
  TModel t(k.sizes, k.f);
  for (auto &[v, x] : k.ev)
    t.m.setEvidence(t.u.ptr[v], x);
  auto &o = oracle();
  o.reset();
  SC ctx;
  ctx.samples_number = 3;
  ctx.delta_iterations = 1;
  ctx.transient = 2;
  ctx.seed = seed;
  t.m.makeSamples(ctx, threads);
  std::map<std::uint64_t, std::uint64_t> state; // of a minimal standard engine
  for (auto &[s, th] : o.threads) {
    VF_REQUIRE(th.size() == 1, "two threads use the stream with seed ", s);
    std::uint64_t st = s % 2147483647u;
    if (st == 0)
      st = 1;
    VF_REQUIRE(state.emplace(st, s).second, "two threads use equivalent seeds: ", s, " and ", state[st]);
  }
  c.extra["max_streams"] = std::max<std::uint64_t>(c.extra["max_streams"], o.threads.size());
  ++c.comparisons;
  ++c.transitions;
}

// draws from explicit distributions: zero entries are never drawn
void discrete(Ctx &c) {
  std::vector<float> menu{0.f, 1e-7f, 0.25f, 0.5f, 1.f};
  for (std::size_t len = 1; len <= 4; ++len) {
    std::vector<std::size_t> p(len, 0);
    while (true) {
      std::vector<float> d;
      double s = 0;
      for (auto q : p) {
        d.push_back(menu[q]);
        s += menu[q];
      }
      if (s > 0) {
        for (auto &x : d)
          x = (float)(x / s);
        EFG::strct::UniformSampler sampler;
        for (double u : {0., 1e-9, 1e-7, 0.2, 0.25, 0.3333333, 0.5, 0.75, 0.9999999, 1.}) {
          oracle().answer = [&](auto, auto) { return u >= 1 ? 0xffffffffu : U(u); };
          auto got = sampler.sampleFromDiscrete(d);
          VF_REQUIRE(got < d.size() && d[got] > 0, "value ", got, " drawn from ", showv(d), " with the random answer ", u);
          ++c.comparisons;
          ++c.transitions;
        }
      }
      std::size_t k = 0;
      for (; k < len; ++k) {
        if (++p[k] < menu.size())
          break;
        p[k] = 0;
      }
      if (k == len)
        break;
    }
  }
  oracle().answer = nullptr;
}

std::vector<Case> cases(bool deep) {
  std::vector<Case> r;
  // one hidden variable among observed ones
  for (std::size_t sz : {1, 2, 3, 4})
    for (Kind k : {TAB, SPARSE, TUN, EXPS})
      for (std::size_t e = 0; e < 2; ++e)
        r.push_back({str("variable of size ", sz, " with two observed neighbours at ", e, " and ", 1 - e, ", ", kindName(k)), {sz, 2, 2},
                     {mk(k, {0, 1}, 3), mk(k == SPARSE ? TAB : k, {2, 0}, 4), mk(TAB, {0}, 8)}, {{1, e}, {2, 1 - e}}});
  r.push_back({"single variable", {3}, {mk(TAB, {0}, 1)}, {}});
  r.push_back({"single sparse variable", {4}, {mk(SPARSE, {0}, 2)}, {}});
  r.push_back({"three unary factors", {3}, {mk(TAB, {0}, 1), mk(TUN, {0}, 2), mk(EXPC, {0}, 3)}, {}});
  for (Kind k : {TAB, SPARSE, EXPC, TUN}) {
    r.push_back({str("pair, ", kindName(k)), {2, 3}, {mk(k, {0, 1}, 3), mk(TAB, {1}, 8)}, {}});
    r.push_back({str("reversed pair, ", kindName(k)), {2, 3}, {mk(TAB, {1}, 8), mk(k, {1, 0}, 5)}, {}});
  }
  r.push_back({"two separate variables", {2, 3}, {mk(TAB, {1}, 8), mk(TAB, {0}, 9)}, {}});
  for (Kind k : {TAB, TUN}) {
    r.push_back({str("chain, ", kindName(k)), {2, 2, 2}, {mk(k, {0, 1}, 3), mk(TAB, {2, 1}, 5), mk(TAB, {0}, 6)}, {}});
    r.push_back({str("triangle, ", kindName(k)), {2, 2, 2}, {mk(k, {0, 1}, 3), mk(TAB, {2, 1}, 5), mk(TAB, {0, 2}, 6)}, {}});
    r.push_back({str("triangle with an observed corner, ", kindName(k)), {2, 3, 2}, {mk(k, {0, 1}, 3), mk(TAB, {2, 1}, 5), mk(TAB, {0, 2}, 6)}, {{0, 1}}});
    r.push_back({str("observed centre, ", kindName(k)), {3, 2, 2, 2}, {mk(k, {0, 1}, 3), mk(TAB, {2, 0}, 5), mk(TAB, {0, 3}, 6)}, {{0, 2}}});
  }
  r.push_back({"chain of 4 with an observed end", {2, 2, 2, 2}, {mk(TAB, {0, 1}, 3), mk(TAB, {2, 1}, 5), mk(TUN, {2, 3}, 6)}, {{3, 1}}});
  r.push_back({"all observed", {2, 2}, {mk(TAB, {0, 1}, 3)}, {{0, 1}, {1, 0}}});
  // many values, the most probable ones being the last ones
  {
    auto last = [](std::size_t n, std::size_t over) {
      for (int id = 1;; ++id) {
        std::size_t best = 0;
        for (std::size_t k = 1; k < n; ++k)
          if (genValue(id, k) > genValue(id, best))
            best = k;
        if (best >= over)
          return id;
      }
    };
    int id = last(300, 260);
    r.push_back({"single variable of 300 values", {300}, {mk(EXPC, {0}, id, 20)}, {}});
    r.push_back({"300 values, observed neighbour of 270", {300, 270}, {mk(EXPC, {0}, id, 20), mk(TUN, {1, 0}, 9)}, {{1, 265}}});
    r.push_back({"2 values, observed neighbour of 300", {2, 300}, {mk(TAB, {1, 0}, 5)}, {{1, 281}}});
    r.push_back({"pair of 300 and 2 values", {300, 2}, {mk(EXPC, {0}, id, 20), mk(TUN, {0, 1}, 9)}, {}});
    r.push_back({"variable of 140 values", {140}, {mk(TUN, {0}, last(140, 130), 20)}, {}});
  }
  if (deep) {
    r.push_back({"star of 4", {2, 2, 2, 2}, {mk(TAB, {0, 1}, 3), mk(TAB, {2, 0}, 5), mk(TUN, {0, 3}, 6)}, {}});
    r.push_back({"square", {2, 2, 2, 2}, {mk(TAB, {0, 1}, 3), mk(TAB, {2, 1}, 5), mk(TUN, {2, 3}, 6), mk(TAB, {3, 0}, 7)}, {}});
    r.push_back({"chain 3,2,3", {3, 2, 3}, {mk(SPARSE, {0, 1}, 3), mk(TAB, {2, 1}, 5), mk(TAB, {0}, 6)}, {}});
  }
  return r;
}
} // namespace
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    auto all = cases(c.thorough());
    c.run([&] { return std::string("draws from explicit distributions"); }, [&] { discrete(c); });
    for (auto &k : all)
      for (std::size_t th : {1, 2, 3})
        for (bool warm : {false, true}) {
          if (th > 1 && (warm || k.sizes.size() - k.ev.size() < 2))
            continue;
          if (th > 2 && !c.thorough() && k.sizes.size() - k.ev.size() < 3)
            continue;
          c.run([&] { return str("transitions: ", k.name, ", ", th, " threads", warm ? ", after a query and a weight change" : ""); },
                [&] {
                  kernel(c, k, th, warm);
                  ++c.traces;
                });
        }
    for (auto &k : all)
      for (std::size_t th : {1, 2, 3})
        for (int script = 0; script < c.pick(th > 1 ? 1 : 3, 12); ++script)
          c.run([&] { return str("counting: ", k.name, ", ", th, " threads, answers ", script); }, [&] { counting(c, k, th, script); });
    Case many{"six separate variables", {2, 2, 2, 2, 2, 2}, {}, {}};
    for (int v = 0; v < 6; ++v)
      many.f.push_back(mk(TAB, {v}, 20 + v));
    Case star{"star of 6", {2, 2, 2, 2, 2, 2}, {}, {}};
    for (int v = 1; v < 6; ++v)
      star.f.push_back(mk(TAB, {0, v}, 20 + v));
    for (auto &k : {many, star})
      for (std::size_t th = 1; th <= 6; ++th)
        for (long seed : {-1L, 0L, 1L, 5L, 77L, 2147483642L, 2147483646L, 4294967290L, 4294967295L})
          c.run([&] { return str("streams: ", k.name, ", ", th, " threads, seed ", seed); },
                [&] {
                  streams(c, k, th, seed < 0 ? std::nullopt : std::optional<std::size_t>((std::size_t)seed));
                  ++c.traces;
                });
  });
}
