// P19: every single-point mutation of valid descriptions (pairs in the thorough
// tier), judged by an independent reader of the format.
#include "tmodel.hpp"
#include <EasyFactorGraph/io/json/Importer.h>
#include <filesystem>
#include <optional>

using namespace vf;
using EFG::io::json::Importer;
using EFG::train::FactorExponentialPtr;
using nlohmann::json;
namespace {
struct Bad : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Unspecified : std::runtime_error { // both verdicts are fine
  using std::runtime_error::runtime_error;
};
std::string text(const json &j) {
  if (!j.is_string())
    throw Bad("not a string");
  return j.get<std::string>();
}
std::size_t natural(const json &j) {
  auto s = text(j);
  if (!s.empty() && (isspace((unsigned char)s[0]) || s[0] == '+'))
    throw Unspecified("number with leading blanks or sign");
  if (s.empty() || s.size() > 15)
    throw Bad("not a number");
  std::size_t r = 0;
  for (char x : s) {
    if (x < '0' || x > '9')
      throw Bad("not a number");
    r = r * 10 + (x - '0');
  }
  return r;
}
double real(const json &j) {
  auto s = text(j);
  if (!s.empty() && isspace((unsigned char)s[0]))
    throw Unspecified("number with leading blanks");
  // sign, digits, optional fraction and exponent
  std::size_t i = 0, digits = 0;
  if (i < s.size() && (s[i] == '-' || s[i] == '+'))
    ++i;
  while (i < s.size() && isdigit((unsigned char)s[i]))
    ++i, ++digits;
  if (i < s.size() && s[i] == '.') {
    ++i;
    while (i < s.size() && isdigit((unsigned char)s[i]))
      ++i, ++digits;
  }
  if (!digits)
    throw Bad("not a number");
  if (i < s.size() && (s[i] == 'x' || s[i] == 'X'))
    throw Unspecified("hexadecimal number");
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    ++i;
    if (i < s.size() && (s[i] == '-' || s[i] == '+'))
      ++i;
    std::size_t d = 0;
    while (i < s.size() && isdigit((unsigned char)s[i]))
      ++i, ++d;
    if (!d)
      throw Bad("not a number");
  }
  if (i != s.size())
    throw Bad("not a number");
  return std::stod(s);
}
const json *find(const json &j, const char *k) {
  if (!j.is_object())
    return nullptr;
  auto it = j.find(k);
  return it == j.end() ? nullptr : &*it;
}
const json &need(const json &j, const char *k) {
  if (auto *p = find(j, k))
    return *p;
  throw Bad(std::string("missing ") + k);
}
std::vector<json> array(const json &j) {
  if (j.is_null())
    return {};
  if (!j.is_array())
    throw Bad("not an array");
  return j.get<std::vector<json>>();
}
struct RF {
  std::vector<std::string> vars;
  std::map<Comb, double> table;
  bool exponential = false, tunable = false;
  double w = 0;
  std::vector<std::string> share;
};
struct RDoc {
  std::map<std::string, std::size_t> vars, ev;
  std::vector<RF> f;
};
std::vector<std::string> group(const json &j, const RDoc &d) {
  std::vector<std::string> r;
  for (auto &x : array(j)) {
    auto n = text(x);
    if (!d.vars.count(n))
      throw Bad("undefined variable");
    if (std::find(r.begin(), r.end(), n) != r.end())
      throw Bad("variable twice in a group");
    r.push_back(n);
  }
  if (r.empty() || r.size() > 2)
    throw Bad("wrong number of variables");
  return r;
}
RDoc read(const json &j) {
  RDoc d;
  for (auto &v : array(need(j, "Variables"))) {
    auto n = text(need(v, "name"));
    auto s = natural(need(v, "Size"));
    if (d.vars.count(n))
      throw Bad("repeated variable");
    if (n.empty() || s == 0)
      throw Bad("invalid variable");
    d.vars[n] = s;
    if (auto *e = find(v, "evidence")) {
      auto x = natural(*e);
      if (x >= s)
        throw Bad("evidence out of range");
      d.ev[n] = x;
    }
  }
  std::set<std::set<std::string>> pairs;
  bool unspecified = false;
  for (auto &p : array(need(j, "Potentials"))) {
    RF f;
    f.vars = group(need(p, "Variables"), d);
    if (f.vars.size() == 2 && !pairs.insert({f.vars.begin(), f.vars.end()}).second)
      throw Bad("second factor between the same variables");
    std::vector<std::size_t> sz;
    for (auto &n : f.vars)
      sz.push_back(d.vars[n]);
    if (auto *c = find(p, "Correlation")) {
      auto o = text(*c);
      if (o != "T" && o != "F")
        throw Bad("invalid correlation");
      for (auto s : sz)
        if (s != sz[0])
          throw Bad("correlation over different sizes");
      if (sz.size() < 2)
        unspecified = true;
      for (std::size_t k = 0; k < prod(sz); ++k) {
        auto comb = unflat(k, sz);
        bool eq = comb.front() == comb.back();
        if (eq == (o == "T"))
          f.table[comb] = 1;
      }
    } else
      for (auto &x : array(need(p, "Distr_val"))) {
        Comb comb;
        for (auto &v : array(need(x, "v")))
          comb.push_back(natural(v));
        double img = real(need(x, "D"));
        if (comb.size() != sz.size())
          throw Bad("combination of another size");
        for (std::size_t k = 0; k < sz.size(); ++k)
          if (comb[k] >= sz[k])
            throw Bad("combination out of the domain");
        if (img < 0)
          throw Bad("negative image");
        if (f.table.count(comb))
          unspecified = true; // described twice
        f.table[comb] = img;
      }
    if (auto *w = find(p, "weight")) {
      f.exponential = true;
      f.w = real(*w);
      if (auto *t = find(p, "tunability")) {
        auto o = text(*t);
        if (o != "Y" && o != "N")
          throw Bad("invalid tunability");
        f.tunable = o == "Y";
      }
      if (f.tunable)
        if (auto *s = find(p, "Share"))
          f.share = group(*s, d);
    } else if (find(p, "tunability") || find(p, "Share"))
      unspecified = true;
    if (!f.tunable && find(p, "Share"))
      unspecified = true;
    d.f.push_back(f);
  }
  for (auto &f : d.f)
    if (!f.share.empty()) {
      bool ok = false, chained = false;
      for (auto &g : d.f)
        if (&g != &f && g.tunable && std::set<std::string>(g.vars.begin(), g.vars.end()) == std::set<std::string>(f.share.begin(), f.share.end()))
          (g.share.empty() ? ok : chained) = true;
      if (!ok && chained)
        unspecified = true;
      else if (!ok)
        throw Bad("sharing group does not exist");
    }
  for (auto &[n, x] : d.ev) {
    bool used = false;
    for (auto &f : d.f)
      used = used || std::find(f.vars.begin(), f.vars.end(), n) != f.vars.end();
    if (!used)
      unspecified = true;
  }
  if (unspecified)
    throw Unspecified("");
  return d;
}
void compare(const RandomField &m, const RDoc &d) {
  std::map<std::string, std::size_t> vars, ev;
  for (auto &v : m.getAllVariables())
    vars[v->name()] = v->size();
  for (auto &[v, x] : m.getEvidences())
    ev[v->name()] = x;
  std::map<std::string, std::size_t> used;
  for (auto &f : d.f)
    for (auto &n : f.vars)
      used[n] = d.vars.at(n);
  VF_REQUIRE(vars == used, "accepted with other variables");
  VF_REQUIRE(ev == d.ev, "accepted with other evidences");
  VF_REQUIRE(m.getAllFactors().size() == d.f.size(), "accepted with ", m.getAllFactors().size(), " factors");
  std::size_t tun = 0, clusters = 0;
  std::multiset<std::string> got, exp;
  auto put = [](std::string s, const std::vector<float> &t) {
    for (float x : t)
      s += str(" ", x);
    return s;
  };
  for (auto &f : d.f) {
    std::vector<std::size_t> sz;
    std::string s;
    for (auto &n : f.vars) {
      sz.push_back(d.vars.at(n));
      s += n + ",";
    }
    std::vector<float> t;
    for (std::size_t k = 0; k < prod(sz); ++k) {
      auto it = f.table.find(unflat(k, sz));
      t.push_back(it == f.table.end() ? 0.f : (float)it->second);
    }
    if (f.exponential)
      s += f.share.empty() ? str("w", (float)f.w) : "shared";
    if (f.tunable) {
      s += "T";
      ++tun;
      clusters += f.share.empty();
    }
    exp.insert(put(s, t));
  }
  std::map<const fac::Immutable *, bool> shared;
  for (auto &c : m.getTunableClusters()) {
    if (auto *cl = std::get_if<EFG::train::TunableClusters>(&c))
      for (std::size_t k = 1; k < cl->size(); ++k)
        shared[(*cl)[k].get()] = true;
  }
  for (auto &f : m.getAllFactors()) {
    std::string s;
    for (auto &v : f->function().vars().getVariables())
      s += v->name() + ",";
    if (auto *e = dynamic_cast<const fac::FactorExponential *>(f.get()))
      s += shared.count(f.get()) ? "shared" : str("w", e->getWeight());
    bool t = false;
    for (auto &x : m.getTunableFactors())
      t = t || x.get() == f.get();
    if (t)
      s += "T";
    std::vector<float> tab;
    f->function().forEachCombination<false>([&](const auto &, float x) { tab.push_back(x); });
    got.insert(put(s, tab));
  }
  if (got != exp) {
    std::string s = "accepted with altered factors:";
    for (auto &x : got)
      s += " <" + x + ">";
    s += " expected";
    for (auto &x : exp)
      s += " <" + x + ">";
    fail(s);
  }
  VF_REQUIRE(m.getTunableFactors().size() == tun && m.getWeights().size() == clusters, "accepted with other clusters");
}

std::vector<json> docs() {
  std::vector<json> r;
  r.push_back(json::parse(R"({
    "Variables":[{"name":"A","Size":"2"},{"name":"B","Size":"2","evidence":"1"},{"name":"C","Size":"3"}],
    "Potentials":[
      {"Variables":["A","B"],"Distr_val":[{"D":"1.5","v":["0","0"]},{"D":"2","v":["1","1"]}]},
      {"Variables":["A"],"Distr_val":[{"D":"1","v":["1"]}],"weight":"0.5","tunability":"Y"},
      {"Variables":["C"],"Distr_val":[{"D":"3","v":["2"]}],"weight":"0.5","tunability":"Y","Share":["A"]},
      {"Variables":["C","A"],"Distr_val":[{"D":"0.25","v":["2","0"]}],"weight":"-1.5","tunability":"N"}]})"));
  r.push_back(json::parse(R"({
    "Variables":[{"name":"X","Size":"3","evidence":"2"},{"name":"Y","Size":"3"}],
    "Potentials":[{"Variables":["X","Y"],"Correlation":"T","weight":"2","tunability":"Y"},
                  {"Variables":["Y"],"Distr_val":null}]})"));
  r.push_back(json::parse(R"({
    "Variables":[{"name":"X","Size":"2"},{"name":"Y","Size":"2"},{"name":"Z","Size":"2"}],
    "Potentials":[{"Variables":["X","Y"],"Correlation":"F"},
                  {"Variables":["Y","Z"],"Distr_val":[{"D":"1e-3","v":["0","1"]},{"D":"7","v":["1","0"]}],"weight":"1","tunability":"Y"},
                  {"Variables":["X"],"Distr_val":[{"D":"7","v":["1"]}],"weight":"1","tunability":"Y","Share":["Z","Y"]}]})"));
  return r;
}
std::vector<json> menu() {
  std::vector<json> m;
  for (auto *s : {"null", "true", "0", "-1", "1.5", "[]", "{}", "\"\"", "\"x\"", "\"0\"", "\"1\"", "\"2\"", "\"3\"", "\"-1\"",
                  "\"1.5\"", "\"1x\"", "\"99\"", "\"A\"", "\"B\"", "\"X\"", "\"Y\"", "\"N\"", "\"T\"", "\"F\"", "[\"A\"]", "[\"A\",\"B\"]", "[\"A\",\"A\"]",
                  "[\"B\"]", "[\"A\",\"B\",\"C\"]", "[\"X\",\"Y\"]", "[\"Q\"]", "[\"0\"]", "[\"0\",\"0\"]", "[\"0\",\"0\",\"0\"]", "[0]", "[null]", "[[]]", "[{}]",
                  "{\"name\":\"A\"}", "{\"v\":[\"0\"]}", "{\"D\":\"1\"}", "{\"D\":\"1\",\"v\":[\"0\"]}", "{\"D\":\"1\",\"v\":[\"0\",\"0\"]}", "\"1e2\"", "\"18446744073709551616\"",
                  "\" 1\"", "\"A \"", "\"yes\""})
    m.push_back(json::parse(s));
  return m;
}
void paths(const json &j, json::json_pointer p, std::vector<json::json_pointer> &out) {
  out.push_back(p);
  if (j.is_object())
    for (auto &[k, v] : j.items())
      paths(v, p / k, out);
  if (j.is_array())
    for (std::size_t i = 0; i < j.size(); ++i)
      paths(j[i], p / i, out);
}
struct Mut {
  json::json_pointer p;
  int kind = 0; // 0 replace, 1 delete, 2 duplicate the element, 3 add a field, 4 rename key
  json v;
  std::string key;
  std::string show() const {
    static const char *n[] = {"replace", "delete", "duplicate", "add", "rename"};
    return str(n[kind], " ", p.to_string(), " ", key, kind == 1 || kind == 2 ? "" : v.dump());
  }
  // false when it can't be applied
  bool apply(json &j) const {
    try {
      if (kind == 0) {
        if (p.empty())
          j = v;
        else
          j.at(p) = v;
        return true;
      }
      if (kind == 3) {
        auto &o = j.at(p);
        if (!o.is_object())
          return false;
        o[key] = v;
        return true;
      }
      if (p.empty())
        return false;
      auto &parent = j.at(p.parent_pointer());
      if (kind == 2) {
        if (!parent.is_array())
          return false;
        parent.push_back(j.at(p));
        return true;
      }
      if (parent.is_array())
        parent.erase(std::stoul(p.back()));
      else {
        if (kind == 4)
          parent[v.get<std::string>()] = parent[p.back()];
        parent.erase(p.back());
      }
      return true;
    } catch (const json::exception &) {
      return false;
    }
  }
};
std::vector<Mut> mutations(const json &j, const std::vector<json> &values) {
  std::vector<Mut> r;
  std::vector<json::json_pointer> ps;
  paths(j, json::json_pointer(), ps);
  for (auto &p : ps) {
    r.push_back({p, 1, {}, ""});
    r.push_back({p, 2, {}, ""});
    r.push_back({p, 4, "zzz", ""});
    for (auto &v : values)
      r.push_back({p, 0, v, ""});
    if (j.at(p).is_object())
      for (auto &[k, v] : std::vector<std::pair<std::string, json>>{
               {"evidence", "0"}, {"evidence", "7"}, {"evidence", nullptr}, {"weight", "1"}, {"weight", "w"}, {"weight", 1.0}, {"Correlation", "T"}, {"Correlation", "X"}, {"Correlation", true},
               {"tunability", "Y"}, {"tunability", "Z"}, {"tunability", true}, {"Share", json::array({"A"})}, {"Share", json::array()}, {"Share", "A"}, {"Share", nullptr}, {"extra", 1}})
        r.push_back({p, 3, v, k});
  }
  return r;
}
void judge(Ctx &c, const json &doc) {
  ++c.transitions;
  std::optional<RDoc> exp;
  bool unspecified = false;
  std::string why;
  try {
    exp = read(doc);
  } catch (const Bad &e) {
    why = e.what();
  } catch (const Unspecified &) {
    unspecified = true;
  }
  RandomField m;
  bool accepted = true;
  std::string msg;
  try {
    Importer::importFromJson(m, doc);
  } catch (const std::exception &e) {
    accepted = false;
    msg = e.what();
  }
  c.outcome(mix(accepted, why));
  ++c.comparisons;
  c.extra[unspecified ? "unspecified" : exp ? "valid" : "malformed"]++;
  if (unspecified) {
    if (accepted && !m.getAllVariables().empty())
      m.getMarginalDistribution(m.getAllVariables().front());
    return;
  }
  if (exp) {
    VF_REQUIRE(accepted, "a valid description is rejected: ", msg, " ", doc.dump());
    compare(m, *exp);
  } else
    VF_REQUIRE(!accepted, "accepted although ", why, ": ", doc.dump());
  // a graph judges in the same way (sharing groups are not looked up there)
  Graph g;
  bool acceptedG = !throws([&] { Importer::importFromJson(g, doc); });
  if (exp)
    VF_REQUIRE(acceptedG, "a valid description is rejected by a graph");
  else if (why != "sharing group does not exist")
    VF_REQUIRE(!acceptedG, "accepted by a graph although ", why, ": ", doc.dump());
}
} // namespace
int main(int argc, char **argv) {
  return harness_main(argc, argv, [](Ctx &c) {
    auto ds = docs();
    auto values = menu();
    for (std::size_t k = 0; k < ds.size(); ++k) {
      c.run([&] { return str("document ", k, " as is"); },
            [&] {
              ++c.traces;
              read(ds[k]);
              judge(c, ds[k]);
            });
      auto ms = mutations(ds[k], values);
      for (auto &m : ms)
        c.run([&] { return str("document ", k, ": ", m.show()); },
              [&] {
                json d = ds[k];
                if (!m.apply(d)) {
                  ++c.skipped;
                  return;
                }
                c.state(mix(1, d.dump()));
                ++c.traces;
                judge(c, d);
              });
      // pairs: a smaller menu
      std::vector<json> few;
      for (auto *s : {"null", "[]", "\"\"", "\"1\"", "\"9\"", "\"A\"", "\"Y\""})
        few.push_back(json::parse(s));
      if (!c.thorough())
        few.resize(1);
      auto m2 = mutations(ds[k], few);
      for (std::size_t a = 0; a < m2.size(); ++a)
        c.run([&] { return str("document ", k, ": ", m2[a].show(), " and every other one"); },
              [&] {
                ++c.traces;
                for (std::size_t b = 0; b < m2.size(); ++b) {
                  if (!c.thorough() && (m2[b].kind == 3 || m2[b].kind == 2))
                    continue;
                  json d = ds[k];
                  if (!m2[a].apply(d) || !m2[b].apply(d))
                    continue;
                  c.state(mix(1, d.dump()));
                  judge(c, d);
                }
              });
    }
    // files
    auto good = ds[0].dump();
    c.run([&] { return std::string("missing files"); },
          [&] {
            ++c.traces;
            for (std::string p : {c.scratch + "/missing.json", std::string(), c.scratch, c.scratch + "/no/dir/x.json"}) {
              RandomField m;
              VF_REQUIRE(throws([&] { Importer::importFromFile(m, p); }), "<", p, "> accepted");
            }
          });
    for (std::size_t cut = 0; cut <= good.size(); ++cut)
      c.run([&] { return str("file truncated at ", cut); },
            [&] {
              ++c.traces;
              ++c.transitions;
              std::string p = str(c.scratch, "/cut.json");
              {
                std::ofstream o(p);
                o << good.substr(0, cut);
              }
              RandomField m;
              bool t = throws([&] { Importer::importFromFile(m, p); });
              VF_REQUIRE(t == (cut != good.size()), cut, " characters of ", good.size(), t ? " rejected" : " accepted");
              std::filesystem::remove(p);
              ++c.comparisons;
            });
    for (std::size_t at = 0; at < good.size(); ++at)
      for (char x : {'x', '"', '}', '\0', '\n', ','})
        c.run([&] { return str("file with character ", (int)x, " at ", at); },
              [&] {
                ++c.traces;
                ++c.transitions;
                std::string p = str(c.scratch, "/chr.json"), s = good;
                s[at] = x;
                {
                  std::ofstream o(p, std::ios::binary);
                  o << s;
                }
                json d = json::parse(s, nullptr, false);
                RandomField m;
                bool t = throws([&] { Importer::importFromFile(m, p); });
                if (d.is_discarded())
                  VF_REQUIRE(t, "unparsable file accepted");
                else
                  judge(c, d);
                std::filesystem::remove(p);
              });
  });
}
