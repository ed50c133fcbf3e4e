#pragma once
#include <XML-Parser/Tag.h>
#include <cctype>
#include <fstream>
#include <sstream>
#include <variant>
namespace xmlPrs {
struct Reader {
  const std::string &s;
  std::size_t p = 0;
  [[noreturn]] void bad(const std::string &w) { throw Error(w); }
  void blanks() {
    while (p < s.size() && std::isspace((unsigned char)s[p]))
      ++p;
  }
  bool eat(const std::string &t) {
    if (s.compare(p, t.size(), t) != 0)
      return false;
    p += t.size();
    return true;
  }
  std::string word() {
    std::size_t a = p;
    while (p < s.size() && !std::isspace((unsigned char)s[p]) && s[p] != '=' && s[p] != '>' && s[p] != '/')
      ++p;
    if (a == p)
      bad("name expected");
    return s.substr(a, p - a);
  }
  // after '<name'; fills the tag up to its end
  void body(Tag &t, const std::string &name) {
    while (true) {
      blanks();
      if (eat("/>"))
        return;
      if (eat(">"))
        break;
      std::string k = word();
      blanks();
      if (!eat("="))
        bad("= expected");
      blanks();
      if (!eat("\""))
        bad("value expected");
      std::size_t e = s.find('"', p);
      if (e == std::string::npos)
        bad("open value");
      t.getAttributes().emplace(k, s.substr(p, e - p));
      p = e + 1;
    }
    while (true) {
      blanks();
      if (eat("</")) {
        if (word() != name)
          bad("mismatched closing tag");
        blanks();
        if (!eat(">"))
          bad("> expected");
        return;
      }
      if (!eat("<"))
        bad("tag expected");
      std::string n = word();
      body(t.addNested(n), n);
    }
  }
};
inline std::variant<Root, Error> parse_xml(const std::string &path) {
  std::ifstream f(path);
  if (!f.is_open())
    return Error("can't open " + path);
  std::stringstream b;
  b << f.rdbuf();
  std::string text = b.str();
  try {
    Reader r{text};
    r.blanks();
    if (!r.eat("<"))
      r.bad("tag expected");
    std::string n = r.word();
    Root root(n);
    r.body(root, n);
    return std::variant<Root, Error>(std::move(root));
  } catch (const Error &e) {
    return e;
  }
}
} // namespace xmlPrs
