// Persistent symbolic byte memory and the global object table.
#pragma once
#include "expr.h"
#include <cstring>
#include <string>
#include <vector>

namespace sx {
constexpr uint64_t ADDR_BASE = 0x700000000ull;   // first object address
constexpr uint64_t SHADOW = 0x3000000000ull;     // freed-flag bytes, one per object
constexpr unsigned PG = 8;                       // page bits

struct SymByte { E e; uint32_t idx; };
struct Page {
  uint32_t rc = 1;
  uint8_t data[256];
  uint64_t init[4] = {0, 0, 0, 0};
  uint64_t wide[4] = {0, 0, 0, 0};   // byte belongs to a value stored as 8 bytes (a size, a pointer)
  SymByte *sym = nullptr;
  Page() { memset(data, 0, sizeof data); }
  Page(const Page &o) : rc(1) {
    memcpy(data, o.data, sizeof data);
    memcpy(init, o.init, sizeof init);
    memcpy(wide, o.wide, sizeof wide);
    if (o.sym) {
      sym = new SymByte[256];
      memcpy(sym, o.sym, sizeof(SymByte) * 256);
    }
  }
  ~Page() { delete[] sym; }
  bool isWide(unsigned i) const { return wide[i >> 6] >> (i & 63) & 1; }
  void setWide(unsigned i, bool w) { if (w) wide[i >> 6] |= 1ull << (i & 63); else wide[i >> 6] &= ~(1ull << (i & 63)); }
  bool isInit(unsigned i) const { return init[i >> 6] >> (i & 63) & 1; }
  void setInit(unsigned i) { init[i >> 6] |= 1ull << (i & 63); }
  void clrInit(unsigned i) { init[i >> 6] &= ~(1ull << (i & 63)); }
  E symAt(unsigned i) const { return sym ? sym[i].e : nullptr; }
};
struct Node {
  uint32_t rc = 1;
  void *ch[128];
  Node() { memset(ch, 0, sizeof ch); }
};
constexpr int LEVELS = 5;  // 5*7 + 8 = 43 address bits

class Mem {
public:
  Node *root = nullptr;
  Mem() {}
  Mem(const Mem &o) : root(o.root) { if (root) root->rc++; }
  Mem &operator=(const Mem &o) {
    if (o.root) o.root->rc++;
    drop(root, 0);
    root = o.root;
    return *this;
  }
  ~Mem() { drop(root, 0); }
  const Page *rd(uint64_t addr) const {
    const Node *n = root;
    for (int l = 0; l < LEVELS; l++) {
      if (!n) return nullptr;
      void *c = n->ch[idx(addr, l)];
      if (l == LEVELS - 1) return (const Page *)c;
      n = (const Node *)c;
    }
    return nullptr;
  }
  Page *wr(uint64_t addr) {
    Node **pn = &root;
    for (int l = 0; l < LEVELS; l++) {
      if (!*pn) *pn = new Node();
      else if ((*pn)->rc > 1) *pn = clone(*pn, l);
      void *&c = (*pn)->ch[idx(addr, l)];
      if (l == LEVELS - 1) {
        Page *p = (Page *)c;
        if (!p) c = p = new Page();
        else if (p->rc > 1) {
          p->rc--;
          c = p = new Page(*p);
        }
        return p;
      }
      pn = (Node **)&c;
    }
    return nullptr;
  }
  void erasePage(uint64_t addr) {
    if (!rd(addr)) return;
    Node **pn = &root;
    for (int l = 0; l < LEVELS; l++) {
      if ((*pn)->rc > 1) *pn = clone(*pn, l);
      void *&c = (*pn)->ch[idx(addr, l)];
      if (l == LEVELS - 1) {
        dropPage((Page *)c);
        c = nullptr;
        return;
      }
      pn = (Node **)&c;
    }
  }
  // visit differing pages of two memories: f(addr, pageA, pageB) -> false aborts
  template <class F> static bool diff(const Mem &a, const Mem &b, F f) { return diffN(a.root, b.root, 0, 0, f); }

private:
  static unsigned idx(uint64_t a, int l) { return (a >> (PG + 7 * (LEVELS - 1 - l))) & 127; }
  static Node *clone(Node *n, int l) {
    Node *m = new Node(*n);
    m->rc = 1;
    n->rc--;
    for (void *c : m->ch)
      if (c) {
        if (l == LEVELS - 1) ((Page *)c)->rc++;
        else ((Node *)c)->rc++;
      }
    return m;
  }
  static void dropPage(Page *p) {
    if (p && --p->rc == 0) delete p;
  }
  static void drop(Node *n, int l) {
    if (!n || --n->rc) return;
    for (void *c : n->ch)
      if (c) {
        if (l == LEVELS - 1) dropPage((Page *)c);
        else drop((Node *)c, l + 1);
      }
    delete n;
  }
  template <class F> static bool diffN(const Node *a, const Node *b, int l, uint64_t base, F &f) {
    if (a == b) return true;
    for (unsigned i = 0; i < 128; i++) {
      void *x = a ? a->ch[i] : nullptr, *y = b ? b->ch[i] : nullptr;
      if (x == y) continue;
      uint64_t ad = base | ((uint64_t)i << (PG + 7 * (LEVELS - 1 - l)));
      if (l == LEVELS - 1) {
        if (!f(ad, (const Page *)x, (const Page *)y)) return false;
      } else if (!diffN((const Node *)x, (const Node *)y, l + 1, ad, f))
        return false;
    }
    return true;
  }
};

enum ObjKind { OBJ_GLOBAL, OBJ_CONST, OBJ_STACK, OBJ_HEAP, OBJ_FUNC };
struct Obj {
  uint64_t base, size;
  ObjKind kind;
  std::string name;
  void *fn = nullptr;
};
}  // namespace sx
