// Stands in for the third-party XML parser, of which this sandbox has no sources: a document tree
// that the harness builds (sx_xml_root), with the part of the interface the IVS encoder uses.
#pragma once
#include <string>
#include <vector>
struct SxXml {
  const char *tag;
  struct Attr { const char *name; const char *text; int number; };
  std::vector<Attr> attrs;
  std::vector<SxXml *> kids;
};
extern SxXml *sx_xml_root;
namespace pugi {
inline bool sx_same(const char *a, const char *b) {
  while (*a && *a == *b) a++, b++;
  return *a == *b;
}
class xml_attribute {
public:
  const SxXml::Attr *a = nullptr;
  const char *name() const { return a ? a->name : ""; }
  const char *value() const { return a && a->text ? a->text : ""; }
  const char *as_string(const char *d = "") const { return a ? value() : d; }
  int as_int(int d = 0) const { return a ? a->number : d; }
  explicit operator bool() const { return a != nullptr; }
  bool empty() const { return a == nullptr; }
};
template <class It> class xml_object_range {
public:
  typedef It const_iterator;
  typedef It iterator;
  xml_object_range(It b, It e) : b(b), e(e) {}
  It begin() const { return b; }
  It end() const { return e; }
  bool empty() const { return b == e; }

private:
  It b, e;
};
class xml_named_node_iterator;
class xml_node {
public:
  SxXml *n = nullptr;
  xml_node() = default;
  explicit xml_node(SxXml *n) : n(n) {}
  const char *name() const { return n ? n->tag : ""; }
  bool empty() const { return n == nullptr; }
  explicit operator bool() const { return n != nullptr; }
  bool operator==(const xml_node &o) const { return n == o.n; }
  bool operator!=(const xml_node &o) const { return n != o.n; }
  xml_attribute attribute(const char *name) const {
    xml_attribute r;
    if (n)
      for (auto &a : n->attrs)
        if (sx_same(a.name, name)) {
          r.a = &a;
          break;
        }
    return r;
  }
  xml_node child(const char *name) const {
    if (n)
      for (SxXml *k : n->kids)
        if (sx_same(k->tag, name)) return xml_node(k);
    return xml_node();
  }
  inline xml_object_range<xml_named_node_iterator> children(const char *name) const;
};
class xml_named_node_iterator {
public:
  xml_named_node_iterator() = default;
  xml_named_node_iterator(SxXml *p, size_t i, const char *name) : parent(p), i(i), name(name) { settle(); }
  bool operator==(const xml_named_node_iterator &o) const { return parent == o.parent && i == o.i; }
  bool operator!=(const xml_named_node_iterator &o) const { return !(*this == o); }
  xml_node &operator*() const { return const_cast<xml_node &>(at); }
  xml_node *operator->() const { return const_cast<xml_node *>(&at); }
  xml_named_node_iterator &operator++() {
    i++;
    settle();
    return *this;
  }
  xml_named_node_iterator operator++(int) {
    xml_named_node_iterator r = *this;
    ++*this;
    return r;
  }

private:
  SxXml *parent = nullptr;
  size_t i = 0;
  const char *name = "";
  xml_node at;
  void settle() {
    while (parent && i < parent->kids.size() && !sx_same(parent->kids[i]->tag, name)) i++;
    at = xml_node(parent && i < parent->kids.size() ? parent->kids[i] : nullptr);
  }
};
inline xml_object_range<xml_named_node_iterator> xml_node::children(const char *name) const {
  return {xml_named_node_iterator(n, 0, name), xml_named_node_iterator(n, n ? n->kids.size() : 0, name)};
}
struct xml_parse_result {
  bool ok;
  explicit operator bool() const { return ok; }
};
class xml_document : public xml_node {
public:
  xml_parse_result load_file(const char *) {
    n = sx_xml_root;
    return {n != nullptr};
  }
};
} // namespace pugi
