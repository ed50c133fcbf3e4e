// Stand-in for the xml library (XML-Parser), which is not installed here: the
// interface the exporter and the importer rely on (multimaps of attributes and
// of nested tags, as their code requires), with a plain text format.
#pragma once
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <unordered_map>
namespace xmlPrs {
using Name = std::string;
class Error : public std::runtime_error {
public:
  using std::runtime_error::runtime_error;
};
class Tag;
using TagPtr = std::unique_ptr<Tag>;
class Tag {
public:
  using Attributes = std::unordered_multimap<Name, std::string>;
  using Nested = std::unordered_multimap<Name, TagPtr>;
  Attributes &getAttributes() { return attributes; }
  const Attributes &getAttributes() const { return attributes; }
  Nested &getNested() { return nested; }
  const Nested &getNested() const { return nested; }
  Tag &addNested(const Name &n) { return *nested.emplace(n, std::make_unique<Tag>())->second; }
  Tag &operator[](const Name &n) {
    auto it = nested.find(n);
    return it == nested.end() ? addNested(n) : *it->second;
  }
  void print(std::ostream &o, const Name &name, const std::string &indent) const {
    o << indent << '<' << name;
    for (auto &[k, v] : attributes)
      o << ' ' << k << "=\"" << v << '"';
    if (nested.empty()) {
      o << "/>\n";
      return;
    }
    o << ">\n";
    for (auto &[k, t] : nested)
      t->print(o, k, indent + "  ");
    o << indent << "</" << name << ">\n";
  }

private:
  Attributes attributes;
  Nested nested;
};
class Root : public Tag {
public:
  explicit Root(const Name &n) : name(n) {}
  Root(Root &&) = default;
  void print(std::ostream &o) const { Tag::print(o, name, ""); }
  const Name &getName() const { return name; }

private:
  Name name;
};
} // namespace xmlPrs
