#include "expr.h"
#include <llvm/ADT/APSInt.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/Support/Allocator.h>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstring>
#include <unordered_set>

namespace sx {
std::vector<std::string> names;
bool realMode = false, linearMode = false;
static std::unordered_map<std::string, uint32_t> nameIdx;
static llvm::BumpPtrAllocator arena;
static std::vector<APInt *> bigs;
static uint32_t nextId = 1;

struct Key {
  static bool same(E a, E b) {
    if (a->op != b->op || a->sort != b->sort || a->width != b->width || a->aux != b->aux ||
        a->nk != b->nk)
      return false;
    if (a->op == CONST) return a->big ? (b->big && *a->big == *b->big) : (!b->big && a->cw == b->cw);
    for (unsigned i = 0; i < a->nk; i++)
      if (a->kid[i] != b->kid[i]) return false;
    return true;
  }
};
struct H { size_t operator()(E e) const { return e->hash; } };
struct Q { bool operator()(E a, E b) const { return Key::same(a, b); } };
static std::unordered_set<E, H, Q> table;
size_t numExprs() { return table.size(); }

static uint32_t mix(uint32_t h, uint64_t v) {
  uint64_t x = (h ^ v) * 0x9E3779B97F4A7C15ull;
  return (uint32_t)(x ^ (x >> 32));
}
static E intern(Expr &t, const E *kids, unsigned nk) {
  t.nk = nk;
  t.kid = const_cast<const Expr **>(kids);
  uint32_t h = mix(t.op * 131 + t.sort * 7 + t.aux, t.width);
  if (t.op == CONST) h = mix(h, t.big ? (uint64_t)llvm::hash_value(*t.big) : t.cw);
  for (unsigned i = 0; i < nk; i++) h = mix(h, kids[i]->id);
  t.hash = h;
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  Expr *n = new (arena.Allocate(sizeof(Expr), alignof(Expr))) Expr(t);
  if (nk) {
    n->kid = (const Expr **)arena.Allocate(sizeof(E) * nk, 8);
    memcpy(n->kid, kids, sizeof(E) * nk);
  } else
    n->kid = nullptr;
  n->id = nextId++;
  n->hasFP = t.sort == FP || (t.op >= FADD && t.op != UF);
  n->hasVar = t.op == VAR;
  n->hasUF = t.op == UF;
  for (unsigned i = 0; i < nk; i++) {
    n->hasFP |= kids[i]->hasFP;
    n->hasVar |= kids[i]->hasVar;
    n->hasUF |= kids[i]->hasUF;
  }
  table.insert(n);
  return n;
}
static E raw(Op op, Sort s, unsigned w, std::initializer_list<E> k, unsigned aux = 0) {
  Expr t;
  t.op = op; t.sort = s; t.width = w; t.aux = aux;
  return intern(t, k.begin(), (unsigned)k.size());
}
static E rawv(Op op, Sort s, unsigned w, const std::vector<E> &k, unsigned aux = 0) {
  Expr t;
  t.op = op; t.sort = s; t.width = w; t.aux = aux;
  return intern(t, k.data(), (unsigned)k.size());
}
static E smallc[65][260];
E mkU(unsigned w, uint64_t v) {
  if (w > 64) return mkConst(APInt(w, v));
  if (w < 64) v &= (1ull << w) - 1;
  if (v < 256 && smallc[w][v]) return smallc[w][v];
  Expr t;
  t.op = CONST; t.sort = BV; t.width = w; t.cw = v;
  E e = intern(t, nullptr, 0);
  if (v < 256) smallc[w][v] = e;
  return e;
}
E mkConst(const APInt &v) {
  if (v.getBitWidth() <= 64) return mkU(v.getBitWidth(), v.getZExtValue());
  Expr t;
  t.op = CONST; t.sort = BV; t.width = v.getBitWidth();
  APInt *p = new APInt(v);
  t.big = p;
  return intern(t, nullptr, 0);
}
E mkFPBits(unsigned w, uint64_t bits) {
  Expr t;
  t.op = CONST; t.sort = FP; t.width = w; t.cw = bits;
  return intern(t, nullptr, 0);
}
E mkFP(const APFloat &f) {
  APInt b = f.bitcastToAPInt();
  return mkFPBits(b.getBitWidth(), b.getZExtValue());
}
static uint32_t nameId(const std::string &n) {
  auto it = nameIdx.find(n);
  if (it != nameIdx.end()) return it->second;
  uint32_t i = (uint32_t)names.size();
  names.push_back(n);
  nameIdx[n] = i;
  return i;
}
E mkVar(const std::string &n, Sort s, unsigned w) {
  Expr t;
  t.op = VAR; t.sort = s; t.width = w; t.aux = nameId(n);
  return intern(t, nullptr, 0);
}
E mkVarUnique(const std::string &n, Sort s, unsigned w) {
  std::string m = n;
  int k = 0;
  while (nameIdx.count(m)) m = n + "#" + std::to_string(++k);
  return mkVar(m, s, w);
}
APFloat bitsToAPF(const APInt &b) {
  return APFloat(b.getBitWidth() == 32 ? APFloat::IEEEsingle() : APFloat::IEEEdouble(), b);
}
APFloat toAPF(E e) { return bitsToAPF(APInt(e->width, e->cw)); }

// ---- structure helpers -------------------------------------------------------------------
static bool isZero(E e) { return e->op == CONST && (e->big ? e->big->isZero() : e->cw == 0); }
static bool isAllOnes(E e) { return e->op == CONST && e->ap().isAllOnes(); }

// pieces from low to high
static void pieces(E e, std::vector<E> &out) {
  if (e->op == CONCAT)
    for (int i = e->nk - 1; i >= 0; i--) out.push_back(e->kid[i]);
  else
    out.push_back(e);
}
// bits of `e` known to be zero (only for constants and concats)
static APInt knownZero(E e) {
  if (e->op == CONST) return ~e->ap();
  APInt z(e->width, 0);
  if (e->op == CONCAT) {
    unsigned lo = 0;
    for (int i = e->nk - 1; i >= 0; i--) {
      E k = e->kid[i];
      if (k->op == CONST) {
        APInt kz = (~k->ap()).zext(e->width).shl(lo);
        z |= kz;
      } else if (k->op == ITE) {
        APInt kz = knownZero(k).zext(e->width).shl(lo);
        z |= kz;
      }
      lo += k->width;
    }
  } else if (e->op == ITE) {
    // shallow
    if ((e->kid[1]->op == CONST || e->kid[1]->op == CONCAT) &&
        (e->kid[2]->op == CONST || e->kid[2]->op == CONCAT))
      z = knownZero(e->kid[1]) & knownZero(e->kid[2]);
  }
  return z;
}
bool upperBound(E e, uint64_t &ub) {
  if (e->width > 64 || e->sort != BV) return false;
  APInt z = knownZero(e);
  ub = (~z).getZExtValue();
  return true;
}

E mkConcat(std::vector<E> k) {
  // flatten
  std::vector<E> f;
  for (E e : k) {
    if (e->width == 0) continue;
    if (e->op == CONCAT)
      f.insert(f.end(), e->kid, e->kid + e->nk);
    else
      f.push_back(e);
  }
  std::vector<E> r;
  for (E e : f) {
    if (!r.empty()) {
      E p = r.back();
      if (p->op == CONST && e->op == CONST) {
        r.back() = mkConst(p->ap().concat(e->ap()));
        continue;
      }
      if (p->op == EXTRACT && e->op == EXTRACT && p->kid[0] == e->kid[0] &&
          p->aux == e->aux + e->width) {
        r.back() = mkExtract(p->kid[0], e->aux, p->width + e->width);
        continue;
      }
      // hi sign bit replication is kept as is
      if (p->op == ITE && e->op == ITE && p->kid[0] == e->kid[0] && p->width + e->width <= 64 &&
          !(p->width == 1 && e->width == 1)) {
        // rejoin byte-wise merges (whole bytes only)
        if (p->width % 8 == 0 && e->width % 8 == 0) {
          E j = mkIte(p->kid[0], mkConcat({p->kid[1], e->kid[1]}), mkConcat({p->kid[2], e->kid[2]}));
          r.pop_back();
          if (j->op == CONCAT)
            r.insert(r.end(), j->kid, j->kid + j->nk);
          else
            r.push_back(j);
          continue;
        }
      }
    }
    r.push_back(e);
  }
  if (r.size() == 1) return r[0];
  unsigned w = 0;
  for (E e : r) w += e->width;
  return rawv(CONCAT, BV, w, r);
}

E mkExtract(E a, unsigned lo, unsigned w) {
  assert(a->sort == BV && lo + w <= a->width);
  if (w == a->width) return a;
  if (a->op == CONST) return mkConst(a->ap().extractBits(w, lo));
  if (a->op == EXTRACT) return mkExtract(a->kid[0], a->aux + lo, w);
  if (a->op == CONCAT) {
    std::vector<E> r;
    unsigned pos = a->width;
    for (unsigned i = 0; i < a->nk; i++) {
      E k = a->kid[i];
      unsigned khi = pos, klo = pos - k->width;
      pos = klo;
      unsigned s = std::max(klo, lo), t = std::min(khi, lo + w);
      if (s < t) r.push_back(mkExtract(k, s - klo, t - s));
    }
    return mkConcat(r);
  }
  if (a->op == SEXT) {
    E k = a->kid[0];
    if (lo + w <= k->width) return mkExtract(k, lo, w);
    if (lo < k->width) return mkSExt(mkExtract(k, lo, k->width - lo), w);
    return mkSExt(mkExtract(k, k->width - 1, 1), w);
  }
  if (a->op == ITE) {
    E t = a->kid[1], f = a->kid[2];
    if (t->op == CONST || f->op == CONST || t->op == CONCAT || f->op == CONCAT)
      return mkIte(a->kid[0], mkExtract(t, lo, w), mkExtract(f, lo, w));
  }
  if (a->op == AND || a->op == OR || a->op == XOR) {
    E x = mkExtract(a->kid[0], lo, w), y = mkExtract(a->kid[1], lo, w);
    return a->op == AND ? mkAnd(x, y) : a->op == OR ? mkOr(x, y) : mkXor(x, y);
  }
  if (a->op == NOT) return mkNot(mkExtract(a->kid[0], lo, w));
  if (lo == 0 && (a->op == ADD || a->op == MUL)) {
    // low bits depend on low bits only
    E x = mkExtract(a->kid[0], 0, w), y = mkExtract(a->kid[1], 0, w);
    if (a->op == ADD) return mkAdd(x, y);
    if (w <= 64) return mkMul(x, y);
  }
  return raw(EXTRACT, BV, w, {a}, lo);
}
E mkZExt(E a, unsigned w) {
  if (w == a->width) return a;
  assert(w > a->width);
  return mkConcat({mkConst(APInt(w - a->width, 0)), a});
}
E mkSExt(E a, unsigned w) {
  if (w == a->width) return a;
  if (a->op == CONST) return mkConst(a->ap().sext(w));
  if (a->op == SEXT) return mkSExt(a->kid[0], w);
  if (a->op == CONCAT && a->kid[0]->op == CONST) {
    APInt hi = a->kid[0]->ap();
    bool neg = hi.isNegative();
    APInt ext(w - a->width, 0);
    if (neg) ext.setAllBits();
    return mkConcat({mkConst(ext), a});
  }
  if (a->op == ITE && a->kid[1]->isConst() && a->kid[2]->isConst())
    return mkIte(a->kid[0], mkSExt(a->kid[1], w), mkSExt(a->kid[2], w));
  return raw(SEXT, BV, w, {a});
}

// split two equal-width values at the union of their piece boundaries, low to high
static void zipPieces(E a, E b, std::vector<std::pair<E, E>> &out) {
  std::vector<E> pa, pb;
  pieces(a, pa);
  pieces(b, pb);
  size_t i = 0, j = 0;
  unsigned oa = 0, ob = 0;
  while (i < pa.size()) {
    unsigned w = std::min(pa[i]->width - oa, pb[j]->width - ob);
    out.push_back({mkExtract(pa[i], oa, w), mkExtract(pb[j], ob, w)});
    oa += w;
    ob += w;
    if (oa == pa[i]->width) i++, oa = 0;
    if (ob == pb[j]->width) j++, ob = 0;
  }
}
static E joinLoHi(const std::vector<E> &v) { return mkConcat(std::vector<E>(v.rbegin(), v.rend())); }

static E order2(Op op, E a, E b, unsigned w) {
  if (a->id > b->id) std::swap(a, b);
  if (b->isConst()) std::swap(a, b);  // constant first
  return raw(op, BV, w, {a, b});
}

// bitwise with a constant: split constant into runs
template <class F> static E runs(E a, const APInt &m, F f) {
  std::vector<E> out;
  unsigned w = a->width, i = 0;
  while (i < w) {
    bool b = m[i];
    unsigned j = i;
    while (j < w && m[j] == b) j++;
    out.push_back(f(mkExtract(a, i, j - i), b));
    i = j;
  }
  return joinLoHi(out);
}
static unsigned numRuns(const APInt &m) {
  unsigned n = 1;
  for (unsigned i = 1; i < m.getBitWidth(); i++) n += m[i] != m[i - 1];
  return n;
}
E mkAnd(E a, E b) {
  if (a == b) return a;
  if (a->isConst()) std::swap(a, b);
  if (b->isConst()) {
    if (a->isConst()) return mkConst(a->ap() & b->ap());
    if (isZero(b)) return b;
    if (isAllOnes(b)) return a;
    return runs(a, b->ap(), [](E x, bool one) { return one ? x : mkU(x->width, 0); });
  }
  if (a->width == 1) {
    if ((a->op == NOT && a->kid[0] == b) || (b->op == NOT && b->kid[0] == a)) return mkBool(false);
    // absorption: a & (a & c), a & (a | c), a & (!a | c)
    for (int s = 0; s < 2; s++) {
      E x = s ? b : a, y = s ? a : b;
      if (y->op == AND && (y->kid[0] == x || y->kid[1] == x)) return y;
      if (y->op == OR) {
        if (y->kid[0] == x || y->kid[1] == x) return x;
        if (mkNot(y->kid[0]) == x) return mkAnd(x, y->kid[1]);
        if (mkNot(y->kid[1]) == x) return mkAnd(x, y->kid[0]);
      }
      if (y->op == AND) {
        E nx = mkNot(x);
        if (y->kid[0] == nx || y->kid[1] == nx) return mkBool(false);
      }
    }
  } else if (a->op == CONCAT || b->op == CONCAT) {
    std::vector<std::pair<E, E>> z;
    zipPieces(a, b, z);
    if (z.size() > 1) {
      std::vector<E> o;
      for (auto &p : z) o.push_back(mkAnd(p.first, p.second));
      return joinLoHi(o);
    }
  }
  return order2(AND, a, b, a->width);
}
E mkOr(E a, E b) {
  if (a == b) return a;
  if (a->isConst()) std::swap(a, b);
  if (b->isConst()) {
    if (a->isConst()) return mkConst(a->ap() | b->ap());
    if (isZero(b)) return a;
    if (isAllOnes(b)) return b;
    return runs(a, b->ap(), [](E x, bool one) {
      APInt o(x->width, 0);
      o.setAllBits();
      return one ? mkConst(o) : x;
    });
  }
  if (a->width == 1) {
    if ((a->op == NOT && a->kid[0] == b) || (b->op == NOT && b->kid[0] == a)) return mkBool(true);
    for (int s = 0; s < 2; s++) {
      E x = s ? b : a, y = s ? a : b;
      if (y->op == OR && (y->kid[0] == x || y->kid[1] == x)) return y;
      if (y->op == AND) {
        if (y->kid[0] == x || y->kid[1] == x) return x;
        if (mkNot(y->kid[0]) == x) return mkOr(x, y->kid[1]);
        if (mkNot(y->kid[1]) == x) return mkOr(x, y->kid[0]);
      }
      if (y->op == OR) {
        E nx = mkNot(x);
        if (y->kid[0] == nx || y->kid[1] == nx) return mkBool(true);
      }
    }
    if (a->op == AND && b->op == AND) {
      // (x & y) | (x & !y) = x
      for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++)
          if (a->kid[i] == b->kid[j]) {
            E ra = a->kid[1 - i], rb = b->kid[1 - j];
            if (mkNot(ra) == rb) return a->kid[i];
            return mkAnd(a->kid[i], mkOr(ra, rb));
          }
    }
  } else if (a->op == CONCAT || b->op == CONCAT) {
    std::vector<std::pair<E, E>> z;
    zipPieces(a, b, z);
    if (z.size() > 1) {
      std::vector<E> o;
      for (auto &p : z) o.push_back(mkOr(p.first, p.second));
      return joinLoHi(o);
    }
  }
  return order2(OR, a, b, a->width);
}
E mkXor(E a, E b) {
  if (a == b) return mkConst(APInt(a->width, 0));
  if (a->isConst()) std::swap(a, b);
  if (b->isConst()) {
    if (a->isConst()) return mkConst(a->ap() ^ b->ap());
    if (isZero(b)) return a;
    if (isAllOnes(b)) return mkNot(a);
    return runs(a, b->ap(), [](E x, bool one) { return one ? mkNot(x) : x; });
  }
  if (a->op == NOT && b->op == NOT) return mkXor(a->kid[0], b->kid[0]);
  if (a->op == NOT) return mkNot(mkXor(a->kid[0], b));
  if (b->op == NOT) return mkNot(mkXor(a, b->kid[0]));
  if (a->op == XOR && (a->kid[0] == b || a->kid[1] == b)) return a->kid[0] == b ? a->kid[1] : a->kid[0];
  if (b->op == XOR && (b->kid[0] == a || b->kid[1] == a)) return b->kid[0] == a ? b->kid[1] : b->kid[0];
  if (a->op == CONCAT || b->op == CONCAT) {
    std::vector<std::pair<E, E>> z;
    zipPieces(a, b, z);
    if (z.size() > 1) {
      std::vector<E> o;
      for (auto &p : z) o.push_back(mkXor(p.first, p.second));
      return joinLoHi(o);
    }
  }
  if (a->width == 1 && (a->op == XOR || b->op == XOR)) {
    // sums modulo two as sorted chains, so that equal terms cancel
    auto atoms = [](E x, std::vector<E> &v) {
      while (x->op == XOR && x->width == 1 && v.size() < 300) v.push_back(x->kid[1]), x = x->kid[0];
      v.push_back(x);
    };
    std::vector<E> x, y, z;
    atoms(a, x);
    atoms(b, y);
    if (x.size() + y.size() < 300) {
      x.insert(x.end(), y.begin(), y.end());
      std::sort(x.begin(), x.end(), [](E p, E q) { return p->id < q->id; });
      for (E e : x)
        if (!z.empty() && z.back() == e) z.pop_back();
        else z.push_back(e);
      if (z.empty()) return mkBool(false);
      E r = z[0];
      for (size_t i = 1; i < z.size(); i++) r = raw(XOR, BV, 1, {r, z[i]});
      return r;
    }
  }
  return order2(XOR, a, b, a->width);
}
E mkNot(E a) {
  if (a->isConst()) return mkConst(~a->ap());
  if (a->op == NOT) return a->kid[0];
  if (a->op == CONCAT) {
    std::vector<E> o;
    for (unsigned i = 0; i < a->nk; i++) o.push_back(mkNot(a->kid[i]));
    return mkConcat(o);
  }
  if (a->width == 1) {
    if (a->op == ULT) return mkUle(a->kid[1], a->kid[0]);
    if (a->op == ULE) return mkUlt(a->kid[1], a->kid[0]);
    if (a->op == SLT) return mkSle(a->kid[1], a->kid[0]);
    if (a->op == SLE) return mkSlt(a->kid[1], a->kid[0]);
  }
  if (a->op == ITE && (a->kid[1]->isConst() || a->kid[2]->isConst()))
    return mkIte(a->kid[0], mkNot(a->kid[1]), mkNot(a->kid[2]));
  return raw(NOT, BV, a->width, {a});
}
E mkIte(E c, E a, E b) {
  if (a == b) return a;
  if (c->isConst()) return c->cw ? a : b;
  if (c->op == NOT) return mkIte(c->kid[0], b, a);
  if (a->op == ITE && a->kid[0] == c) return mkIte(c, a->kid[1], b);
  if (b->op == ITE && b->kid[0] == c) return mkIte(c, a, b->kid[2]);
  if (a->sort == BV) {
    if (a->width == 1) {
      if (a->isConst()) return a->cw ? mkOr(c, b) : mkAnd(mkNot(c), b);
      if (b->isConst()) return b->cw ? mkOr(mkNot(c), a) : mkAnd(c, a);
      if (a == c) return mkOr(c, b);
      if (b == c) return mkAnd(c, a);
      if (mkNot(a) == b) return mkXor(mkNot(c), a);
    } else if (a->width == 64 && a->isConst() && b->isConst() && a->cw >= 0x700000000ull && a->cw < 0xf00000000ull &&
               b->cw >= 0x700000000ull && b->cw < 0xf00000000ull) {
      // two addresses: keep the choice visible for memory accesses
    } else if (a->op == CONCAT || b->op == CONCAT || (a->isConst() && b->isConst())) {
      if (a->isConst() && b->isConst()) {
        APInt d = a->ap() ^ b->ap();
        unsigned lo = d.countr_zero(), hi = d.getActiveBits();
        if (hi - lo < a->width) {
          APInt run = d.extractBits(hi - lo, lo);
          if (run.isAllOnes() || true) {
            unsigned w = a->width;
            E mid = mkIte(c, mkExtract(a, lo, hi - lo), mkExtract(b, lo, hi - lo));
            std::vector<E> v;
            if (hi < w) v.push_back(mkExtract(a, hi, w - hi));
            v.push_back(mid);
            if (lo) v.push_back(mkExtract(a, 0, lo));
            return mkConcat(v);
          }
        }
      } else {
        std::vector<std::pair<E, E>> z;
        zipPieces(a, b, z);
        unsigned eq = 0;
        for (auto &p : z) eq += p.first == p.second;
        if (eq && z.size() > 1) {
          // group maximal differing runs
          std::vector<E> o;
          size_t i = 0;
          while (i < z.size()) {
            if (z[i].first == z[i].second) {
              o.push_back(z[i].first);
              i++;
              continue;
            }
            std::vector<E> x, y;
            while (i < z.size() && z[i].first != z[i].second) {
              x.push_back(z[i].first);
              y.push_back(z[i].second);
              i++;
            }
            E xx = joinLoHi(x), yy = joinLoHi(y);
            if (xx->width == a->width) return raw(ITE, a->sort, a->width, {c, a, b});
            o.push_back(mkIte(c, xx, yy));
          }
          return joinLoHi(o);
        }
      }
    }
  } else {
    if (a->op == FROMBV && b->op == FROMBV) return mkFromBV(mkIte(c, a->kid[0], b->kid[0]));
  }
  return raw(ITE, a->sort, a->width, {c, a, b});
}

template <class F> static E lift(E a, E b, F f);
// ---- arithmetic ---------------------------------------------------------------------------
E mkAdd(E a, E b) {
  if (a->isConst()) std::swap(a, b);
  unsigned w = a->width;
  if (b->isConst()) {
    if (a->isConst()) return mkConst(a->ap() + b->ap());
    if (isZero(b)) return a;
    if (a->op == ADD && a->kid[0]->isConst()) return mkAdd(a->kid[1], mkConst(a->kid[0]->ap() + b->ap()));
    if (a->op == ITE && a->kid[1]->isConst() && a->kid[2]->isConst())
      return mkIte(a->kid[0], mkAdd(a->kid[1], b), mkAdd(a->kid[2], b));
    // trailing zero bits of the constant: no carry from the low part
    unsigned tz = b->ap().countr_zero();
    if (a->op == CONCAT && tz > 0) {
      unsigned lo = 0;
      for (int i = a->nk - 1; i >= 0 && lo + a->kid[i]->width <= tz; i--) lo += a->kid[i]->width;
      if (lo > 0 && lo < w)
        return mkConcat({mkAdd(mkExtract(a, lo, w - lo), mkExtract(b, lo, w - lo)), mkExtract(a, 0, lo)});
    }
    APInt kz = knownZero(a);
    if ((~kz & b->ap()).isZero()) return mkOr(a, b);
    if (E l = lift(a, b, [](E x, E y) { return mkAdd(x, y); })) return l;
    return raw(ADD, BV, w, {b, a});
  }
  APInt za = knownZero(a), zb = knownZero(b);
  if (!za.isZero() && !zb.isZero() && (za | zb).isAllOnes()) return mkOr(a, b);
  if (a->op == ADD && a->kid[0]->isConst()) return mkAdd(mkAdd(a->kid[1], b), a->kid[0]);
  if (b->op == ADD && b->kid[0]->isConst()) return mkAdd(mkAdd(a, b->kid[1]), b->kid[0]);
  // x + (-x)
  for (int s = 0; s < 2; s++) {
    E x = s ? b : a, y = s ? a : b;
    if (y->op == MUL && y->kid[0]->isConst() && isAllOnes(y->kid[0]) && y->kid[1] == x) return mkConst(APInt(w, 0));
    if (y->op == ADD) {  // (p + -x) + x
      for (int i = 0; i < 2; i++) {
        E z = y->kid[i];
        if (z->op == MUL && isAllOnes(z->kid[0]) && z->kid[1] == x) return y->kid[1 - i];
      }
    }
    if (y->op == MUL && isAllOnes(y->kid[0]) && x->op == ADD) {  // (p + x) - x
      for (int i = 0; i < 2; i++)
        if (x->kid[i] == y->kid[1]) return x->kid[1 - i];
    }
  }
  if (E l = lift(a, b, [](E x, E y) { return mkAdd(x, y); })) return l;
  if (a->id > b->id) std::swap(a, b);
  return raw(ADD, BV, w, {a, b});
}
E mkNeg(E a) { return mkMul(mkConst(APInt::getAllOnes(a->width)), a); }
E mkSub(E a, E b) {
  if (a == b) return mkConst(APInt(a->width, 0));
  if (b->isConst()) return mkAdd(a, mkConst(-b->ap()));
  if (isZero(b)) return a;
  return mkAdd(a, mkNeg(b));
}
E mkMul(E a, E b) {
  if (b->isConst()) std::swap(a, b);
  unsigned w = a->width;
  if (a->isConst()) {
    if (b->isConst()) return mkConst(a->ap() * b->ap());
    APInt c = a->ap();
    if (c.isZero()) return a;
    if (c.isOne()) return b;
    if (c.isPowerOf2()) return mkShl(b, mkConst(APInt(w, c.logBase2())));
    if (b->op == MUL && b->kid[0]->isConst()) return mkMul(mkConst(c * b->kid[0]->ap()), b->kid[1]);
    if (b->op == ADD && b->kid[0]->isConst())
      return mkAdd(mkMul(a, b->kid[1]), mkConst(c * b->kid[0]->ap()));
    if (c.isAllOnes() && b->op == ADD)  // -(x+y)
      return mkAdd(mkNeg(b->kid[0]), mkNeg(b->kid[1]));
    if (b->op == ITE && b->kid[1]->isConst() && b->kid[2]->isConst())
      return mkIte(b->kid[0], mkMul(a, b->kid[1]), mkMul(a, b->kid[2]));
    if (E l = lift(a, b, [](E x, E y) { return mkMul(x, y); })) return l;
    return raw(MUL, BV, w, {a, b});
  }
  if (a->id > b->id) std::swap(a, b);
  if (E l = lift(a, b, [](E x, E y) { return mkMul(x, y); })) return l;
  return raw(MUL, BV, w, {a, b});
}
E mkUDiv(E a, E b) {
  if (b->isConst() && !isZero(b)) {
    if (a->isConst()) return mkConst(a->ap().udiv(b->ap()));
    if (b->ap().isOne()) return a;
    if (b->ap().isPowerOf2()) return mkLShr(a, mkConst(APInt(a->width, b->ap().logBase2())));
    // shrink by known-zero top bits
    APInt kz = knownZero(a);
    unsigned lz = kz.countl_one();
    if (lz > 0 && lz < a->width) {
      unsigned nw = a->width - lz;
      if (b->ap().getActiveBits() > nw) return mkConst(APInt(a->width, 0));
      return mkZExt(mkUDiv(mkExtract(a, 0, nw), mkExtract(b, 0, nw)), a->width);
    }
  }
  if (!b->isConst() || !isZero(b))
    if (E l = lift(a, b, [](E x, E y) { return mkUDiv(x, y); })) return l;
  return raw(UDIV, BV, a->width, {a, b});
}
E mkURem(E a, E b) {
  if (b->isConst() && !isZero(b)) {
    if (a->isConst()) return mkConst(a->ap().urem(b->ap()));
    if (b->ap().isOne()) return mkConst(APInt(a->width, 0));
    if (b->ap().isPowerOf2()) {
      unsigned k = b->ap().logBase2();
      return mkZExt(mkExtract(a, 0, k), a->width);
    }
    APInt kz = knownZero(a);
    unsigned lz = kz.countl_one();
    if (lz > 0 && lz < a->width) {
      unsigned nw = a->width - lz;
      if (b->ap().getActiveBits() > nw) return a;
      return mkZExt(mkURem(mkExtract(a, 0, nw), mkExtract(b, 0, nw)), a->width);
    }
  }
  if (!b->isConst() || !isZero(b))
    if (E l = lift(a, b, [](E x, E y) { return mkURem(x, y); })) return l;
  return raw(UREM, BV, a->width, {a, b});
}
static bool knownNonNeg(E a) {
  if (a->isConst()) return !a->ap().isNegative();
  APInt kz = knownZero(a);
  return kz.isNegative();
}
E mkSDiv(E a, E b) {
  if (b->isConst() && !isZero(b)) {
    if (a->isConst()) return mkConst(a->ap().sdiv(b->ap()));
    if (b->ap().isOne()) return a;
    if (!b->ap().isNegative() && knownNonNeg(a)) return mkUDiv(a, b);
  } else if (knownNonNeg(a) && knownNonNeg(b))
    return mkUDiv(a, b);
  if (!b->isConst() || !isZero(b))
    if (E l = lift(a, b, [](E x, E y) { return mkSDiv(x, y); })) return l;
  return raw(SDIV, BV, a->width, {a, b});
}
E mkSRem(E a, E b) {
  if (b->isConst() && !isZero(b)) {
    if (a->isConst()) return mkConst(a->ap().srem(b->ap()));
    if (b->ap().isOne()) return mkConst(APInt(a->width, 0));
    if (!b->ap().isNegative() && knownNonNeg(a)) return mkURem(a, b);
  } else if (knownNonNeg(a) && knownNonNeg(b))
    return mkURem(a, b);
  if (!b->isConst() || !isZero(b))
    if (E l = lift(a, b, [](E x, E y) { return mkSRem(x, y); })) return l;
  return raw(SREM, BV, a->width, {a, b});
}
E mkShl(E a, E b) {
  unsigned w = a->width;
  if (b->isConst()) {
    uint64_t s = b->u64();
    if (s >= w) return mkConst(APInt(w, 0));
    if (s == 0) return a;
    return mkConcat({mkExtract(a, 0, w - s), mkConst(APInt(s, 0))});
  }
  if (b->op == ITE && b->kid[1]->isConst() && b->kid[2]->isConst())
    return mkIte(b->kid[0], mkShl(a, b->kid[1]), mkShl(a, b->kid[2]));
  return raw(SHL, BV, w, {a, b});
}
E mkLShr(E a, E b) {
  unsigned w = a->width;
  if (b->isConst()) {
    uint64_t s = b->u64();
    if (s >= w) return mkConst(APInt(w, 0));
    if (s == 0) return a;
    return mkConcat({mkConst(APInt(s, 0)), mkExtract(a, s, w - s)});
  }
  if (b->op == ITE && b->kid[1]->isConst() && b->kid[2]->isConst())
    return mkIte(b->kid[0], mkLShr(a, b->kid[1]), mkLShr(a, b->kid[2]));
  return raw(LSHR, BV, w, {a, b});
}
E mkAShr(E a, E b) {
  unsigned w = a->width;
  if (b->isConst()) {
    uint64_t s = b->u64();
    if (s >= w) s = w - 1;
    if (s == 0) return a;
    return mkSExt(mkExtract(a, s, w - s), w);
  }
  if (a->isConst() && isZero(a)) return a;
  return raw(ASHR, BV, w, {a, b});
}
// ---- comparisons --------------------------------------------------------------------------
E mkEq(E a, E b) {
  assert(a->width == b->width && a->sort == BV && b->sort == BV);
  if (a == b) return mkBool(true);
  if (a->isConst() && b->isConst()) return mkBool(false);
  if (a->isConst()) std::swap(a, b);
  if (a->width == 1) {
    if (b->isConst()) return b->cw ? a : mkNot(a);
    return mkNot(mkXor(a, b));
  }
  if (b->isConst()) {
    if (a->op == ITE) {
      E t = a->kid[1], f = a->kid[2];
      if (t->isConst() && f->isConst()) {
        if (t == b) return a->kid[0];
        if (f == b) return mkNot(a->kid[0]);
        return mkBool(false);
      }
      if (t->isConst() || f->isConst())
        return mkIte(a->kid[0], mkEq(t, b), mkEq(f, b));
      if (t->op == ITE || f->op == ITE || t->op == CONCAT || f->op == CONCAT) {
        E x = mkEq(t, b), y = mkEq(f, b);
        if (x->isConst() || y->isConst()) return mkIte(a->kid[0], x, y);
      }
    }
    if (a->op == ADD && a->kid[0]->isConst()) return mkEq(a->kid[1], mkConst(b->ap() - a->kid[0]->ap()));
    if (a->op == NOT) return mkEq(a->kid[0], mkConst(~b->ap()));
    if (a->op == SEXT) {
      E k = a->kid[0];
      APInt lo = b->ap().trunc(k->width);
      if (lo.sext(b->width) != b->ap()) return mkBool(false);
      return mkEq(k, mkConst(lo));
    }
    if (a->op == MUL && a->kid[0]->isConst() && isAllOnes(a->kid[0])) return mkEq(a->kid[1], mkConst(-b->ap()));
  }
  if (a->op == CONCAT || b->op == CONCAT) {
    std::vector<std::pair<E, E>> z;
    zipPieces(a, b, z);
    for (auto &p : z)
      if (p.first->isConst() && p.second->isConst() && p.first != p.second) return mkBool(false);
    if (z.size() > 1) {
      E r = mkBool(true);
      for (auto &p : z) r = mkAnd(r, mkEq(p.first, p.second));
      return r;
    }
  }
  if (a->op == ADD && a->kid[0]->isConst() && b->op == ADD && b->kid[0] == a->kid[0])
    return mkEq(a->kid[1], b->kid[1]);
  if (a->op == ADD && (a->kid[0] == b || a->kid[1] == b))
    return mkEq(a->kid[0] == b ? a->kid[1] : a->kid[0], mkConst(APInt(a->width, 0)));
  if (b->op == ADD && (b->kid[0] == a || b->kid[1] == a))
    return mkEq(b->kid[0] == a ? b->kid[1] : b->kid[0], mkConst(APInt(a->width, 0)));
  if (a->op == SEXT && b->op == SEXT && a->kid[0]->width == b->kid[0]->width)
    return mkEq(a->kid[0], b->kid[0]);
  if (!b->isConst() && a->id > b->id) std::swap(a, b);
  if (E l = lift(a, b, [](E x, E y) { return mkEq(x, y); })) return l;
  return raw(EQ, BV, 1, {a, b});
}
E mkUlt(E a, E b) {
  if (a == b) return mkBool(false);
  if (a->isConst() && b->isConst()) return mkBool(a->ap().ult(b->ap()));
  if (isZero(b)) return mkBool(false);
  if (a->isConst() && isAllOnes(a)) return mkBool(false);
  if (isZero(a)) return mkNot(mkEq(b, a));
  if (b->isConst() && b->ap().isOne()) return mkEq(a, mkConst(APInt(a->width, 0)));
  if (a->width == 1) return mkAnd(mkNot(a), b);
  APInt amax = ~knownZero(a), bmax = ~knownZero(b);
  if (b->isConst() && amax.ult(b->ap())) return mkBool(true);
  if (a->isConst() && bmax.ule(a->ap())) return mkBool(false);
  unsigned lz = std::min(amax.countl_zero(), bmax.countl_zero());
  if (lz > 0 && lz < a->width)
    return mkUlt(mkExtract(a, 0, a->width - lz), mkExtract(b, 0, a->width - lz));
  if (a->op == ITE && b->isConst() && (a->kid[1]->isConst() || a->kid[2]->isConst()))
    return mkIte(a->kid[0], mkUlt(a->kid[1], b), mkUlt(a->kid[2], b));
  if (b->op == ITE && a->isConst() && (b->kid[1]->isConst() || b->kid[2]->isConst()))
    return mkIte(b->kid[0], mkUlt(a, b->kid[1]), mkUlt(a, b->kid[2]));
  if (E l = lift(a, b, [](E x, E y) { return mkUlt(x, y); })) return l;
  return raw(ULT, BV, 1, {a, b});
}
E mkUle(E a, E b) {
  if (a == b) return mkBool(true);
  if (a->isConst() && b->isConst()) return mkBool(a->ap().ule(b->ap()));
  if (isZero(a)) return mkBool(true);
  if (isZero(b)) return mkEq(a, b);
  if (isAllOnes(b)) return mkBool(true);
  if (a->isConst()) {  // c <= b  <=>  c-1 < b
    return mkUlt(mkConst(a->ap() - 1), b);
  }
  if (b->isConst()) return mkUlt(a, mkConst(b->ap() + 1));
  APInt amax = ~knownZero(a), bmax = ~knownZero(b);
  unsigned lz = std::min(amax.countl_zero(), bmax.countl_zero());
  if (lz > 0 && lz < a->width)
    return mkUle(mkExtract(a, 0, a->width - lz), mkExtract(b, 0, a->width - lz));
  if (a->width == 1) return mkOr(mkNot(a), b);
  if (E l = lift(a, b, [](E x, E y) { return mkUle(x, y); })) return l;
  return raw(ULE, BV, 1, {a, b});
}
E mkSlt(E a, E b) {
  if (a == b) return mkBool(false);
  if (a->isConst() && b->isConst()) return mkBool(a->ap().slt(b->ap()));
  if (b->isConst() && b->ap().isMinSignedValue()) return mkBool(false);
  if (a->isConst() && a->ap().isMaxSignedValue()) return mkBool(false);
  if (a->width == 1) return mkAnd(a, mkNot(b));
  bool na = knownNonNeg(a), nb = knownNonNeg(b);
  if (na && nb) return mkUlt(a, b);
  if (isZero(b)) return mkExtract(a, a->width - 1, 1);
  if (b->isConst() && na && b->ap().isNegative()) return mkBool(false);
  if (a->isConst() && nb && a->ap().isNegative()) return mkBool(true);
  if (a->op == SEXT && b->isConst()) {
    E k = a->kid[0];
    APInt lo = b->ap().trunc(k->width);
    if (lo.sext(b->width) == b->ap()) return mkSlt(k, mkConst(lo));
    return mkBool(!b->ap().isNegative());
  }
  if (b->op == SEXT && a->isConst()) {
    E k = b->kid[0];
    APInt lo = a->ap().trunc(k->width);
    if (lo.sext(a->width) == a->ap()) return mkSlt(mkConst(lo), k);
    return mkBool(a->ap().isNegative());
  }
  if (a->op == SEXT && b->op == SEXT && a->kid[0]->width == b->kid[0]->width) return mkSlt(a->kid[0], b->kid[0]);
  if (a->op == ITE && b->isConst() && (a->kid[1]->isConst() || a->kid[2]->isConst()))
    return mkIte(a->kid[0], mkSlt(a->kid[1], b), mkSlt(a->kid[2], b));
  if (b->op == ITE && a->isConst() && (b->kid[1]->isConst() || b->kid[2]->isConst()))
    return mkIte(b->kid[0], mkSlt(a, b->kid[1]), mkSlt(a, b->kid[2]));
  if (E l = lift(a, b, [](E x, E y) { return mkSlt(x, y); })) return l;
  return raw(SLT, BV, 1, {a, b});
}
E mkSle(E a, E b) {
  if (a == b) return mkBool(true);
  if (a->isConst() && b->isConst()) return mkBool(a->ap().sle(b->ap()));
  if (a->isConst()) {
    if (a->ap().isMinSignedValue()) return mkBool(true);
    return mkSlt(mkConst(a->ap() - 1), b);
  }
  if (b->isConst()) {
    if (b->ap().isMaxSignedValue()) return mkBool(true);
    return mkSlt(a, mkConst(b->ap() + 1));
  }
  if (knownNonNeg(a) && knownNonNeg(b)) return mkUle(a, b);
  if (a->width == 1) return mkOr(a, mkNot(b));
  if (E l = lift(a, b, [](E x, E y) { return mkSle(x, y); })) return l;
  return raw(SLE, BV, 1, {a, b});
}
// ---- finite expressions: functions of a few 1-bit atoms ---------------------------------------
// An expression made of constants, ite, concat, extract and boolean connectives over at most MAXATOM
// opaque 1-bit atoms takes at most 2^k values; a costly operation on it is tabulated (every assignment of
// the atoms) and rebuilt as a decision tree, so no arithmetic circuit reaches the solver.
constexpr unsigned MAXATOM = 8;
struct Atoms { bool ok; std::vector<E> v; };
static std::unordered_map<E, Atoms> atomMemo;
static const Atoms &atomsOf(E e) {
  auto it = atomMemo.find(e);
  if (it != atomMemo.end()) return it->second;
  Atoms r{true, {}};
  bool in = e->op == CONST || e->op == ITE || e->op == CONCAT || e->op == FROMBV || e->op == TOBV ||
            (e->op == EXTRACT && (e->kid[0]->op == ITE || e->kid[0]->op == CONCAT)) ||
            (e->width == 1 && (e->op == AND || e->op == OR || e->op == XOR || e->op == NOT));
  if (in) {
    for (unsigned i = 0; i < e->nk && r.ok; i++) {
      const Atoms &k = atomsOf(e->kid[i]);
      if (!k.ok) r.ok = false;
      else {
        std::vector<E> m;
        std::set_union(r.v.begin(), r.v.end(), k.v.begin(), k.v.end(), std::back_inserter(m), [](E x, E y) { return x->id < y->id; });
        r.v.swap(m);
        if (r.v.size() > MAXATOM) r.ok = false;
      }
    }
    if (!r.ok && e->width == 1 && e->sort == BV) r = Atoms{true, {e}};
  } else if (e->width == 1 && e->sort == BV)
    r.v = {e};
  else
    r.ok = false;
  return atomMemo.emplace(e, r).first->second;
}
static E evalAtoms(E e, const std::vector<E> &at, unsigned asg, std::unordered_map<E, E> &memo) {
  if (e->isConst()) return e;
  for (unsigned i = 0; i < at.size(); i++)
    if (at[i] == e) return mkBool(asg >> i & 1);
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  auto K = [&](unsigned i) { return evalAtoms(e->kid[i], at, asg, memo); };
  E r = nullptr;
  switch (e->op) {
  case ITE: r = K(0)->cw ? K(1) : K(2); break;
  case CONCAT: {
    std::vector<E> v;
    for (unsigned i = 0; i < e->nk; i++) v.push_back(K(i));
    r = mkConcat(v);
    break;
  }
  case EXTRACT: r = mkExtract(K(0), e->aux, e->width); break;
  case AND: r = mkAnd(K(0), K(1)); break;
  case OR: r = mkOr(K(0), K(1)); break;
  case XOR: r = mkXor(K(0), K(1)); break;
  case NOT: r = mkNot(K(0)); break;
  case FROMBV: r = mkFromBV(K(0)); break;
  case TOBV: r = mkToBV(K(0)); break;
  default: abort();
  }
  memo[e] = r;
  return r;
}
static E tree(const std::vector<E> &at, const std::vector<E> &t, unsigned lo, unsigned n, int lvl) {
  bool same = true;
  for (unsigned i = 1; i < n && same; i++) same = t[lo + i] == t[lo];
  if (same) return t[lo];
  E x = tree(at, t, lo + n / 2, n / 2, lvl - 1), y = tree(at, t, lo, n / 2, lvl - 1);
  if (x == y) return x;
  if (x->sort == FP) return raw(ITE, FP, x->width, {at[lvl], x, y});
  return mkIte(at[lvl], x, y);
}
template <class F> static E lift(E a, E b, F f) {
  auto shaped = [](E e) { return e->op == ITE || e->op == CONCAT || e->op == CONST || e->op == FROMBV; };
  if (!shaped(a) || (b && !shaped(b))) return nullptr;
  const Atoms A = atomsOf(a);
  if (!A.ok) return nullptr;
  std::vector<E> at = A.v;
  if (b) {
    const Atoms &B = atomsOf(b);
    if (!B.ok) return nullptr;
    std::vector<E> m;
    std::set_union(at.begin(), at.end(), B.v.begin(), B.v.end(), std::back_inserter(m), [](E x, E y) { return x->id < y->id; });
    at.swap(m);
  }
  if (at.size() > MAXATOM || at.empty()) return nullptr;
  std::vector<E> t(1u << at.size());
  for (unsigned g = 0; g < t.size(); g++) {
    std::unordered_map<E, E> memo;
    E x = evalAtoms(a, at, g, memo), y = b ? evalAtoms(b, at, g, memo) : nullptr;
    if (!x->isConst() || (y && !y->isConst())) return nullptr;
    t[g] = f(x, y);
  }
  return tree(at, t, 0, t.size(), (int)at.size() - 1);
}
// ---- floating point ------------------------------------------------------------------------
static APFloat::roundingMode rne = APFloat::rmNearestTiesToEven;
E mkFromBV(E a) {
  if (a->isConst()) return mkFPBits(a->width, a->u64());
  if (a->op == TOBV) return a->kid[0];
  if (a->op == ITE) {
    E t = a->kid[1], f = a->kid[2];
    auto easy = [](E x) { return x->isConst() || x->op == TOBV || x->op == ITE; };
    if (easy(t) && easy(f)) {
      Expr tt;
      E x = mkFromBV(t), y = mkFromBV(f);
      return x == y ? x : raw(ITE, FP, a->width, {a->kid[0], x, y});
    }
  }
  return raw(FROMBV, FP, a->width, {a});
}
E mkToBV(E a) {
  if (a->isConst()) return mkU(a->width, a->cw);
  if (a->op == FROMBV) return a->kid[0];
  if (a->op == ITE && !realMode) return mkIte(a->kid[0], mkToBV(a->kid[1]), mkToBV(a->kid[2]));
  return raw(TOBV, BV, a->width, {a});
}
// the exact integer value of a floating expression built from converted integers, as a signed vector of
// at most maxw bits (nullptr if it is not of that form)
static E asInt(E x, unsigned maxw, int depth = 4) {
  if (x->isConst()) {
    APFloat f = toAPF(x);
    if (!f.isFinite() || !f.isInteger() || (f.isZero() && f.isNegative())) return nullptr;
    llvm::APSInt iv(64, false);
    bool ex;
    if (f.convertToInteger(iv, APFloat::rmTowardZero, &ex) != APFloat::opOK) return nullptr;
    unsigned w = iv.getSignificantBits();
    if (w > maxw) return nullptr;
    return mkConst(iv.trunc(w));
  }
  if (x->op == SITOF) return x->kid[0]->width <= maxw ? x->kid[0] : nullptr;
  if (x->op == UITOF) return x->kid[0]->width < maxw ? mkZExt(x->kid[0], x->kid[0]->width + 1) : nullptr;
  if (x->op == ITE && depth > 0) {
    E a = asInt(x->kid[1], maxw, depth - 1);
    if (!a) return nullptr;
    E b = asInt(x->kid[2], maxw, depth - 1);
    if (!b) return nullptr;
    unsigned w = std::max(a->width, b->width);
    return mkIte(x->kid[0], mkSExt(a, w), mkSExt(b, w));
  }
  return nullptr;
}
static APFloat foldBin(Op op, APFloat x, const APFloat &y) {
  switch (op) {
  case FADD: x.add(y, rne); break;
  case FSUB: x.subtract(y, rne); break;
  case FMUL: x.multiply(y, rne); break;
  case FDIV: x.divide(y, rne); break;
  case FREM: x.mod(y); break;
  case FMIN: return llvm::minnum(x, y);
  case FMAX: return llvm::maxnum(x, y);
  default: abort();
  }
  return x;
}
E mkFBin(Op op, E a, E b) {
  if (a->isConst() && b->isConst()) return mkFP(foldBin(op, toAPF(a), toAPF(b)));
  if (op == FMUL) {
    if (a->isConst()) std::swap(a, b);
    if (b->isConst() && toAPF(b).isExactlyValue(1.0)) return a;
  }
  if (op == FDIV && b->isConst() && toAPF(b).isExactlyValue(1.0)) return a;
  if (realMode && op == FADD && a->isConst()) std::swap(a, b);
  if (realMode && (op == FADD || op == FSUB) && b->isConst() && toAPF(b).isZero()) return a;
  if (realMode && op == FMUL && b->isConst() && toAPF(b).isZero()) return b;
  if (op == FADD || op == FSUB) {
    unsigned mx = (a->width == 64 ? 53 : 24) - 1;
    E x = asInt(a, mx), y = x ? asInt(b, mx) : nullptr;
    if (x && y) {
      unsigned w = std::max(x->width, y->width) + 1;
      x = mkSExt(x, w);
      y = mkSExt(y, w);
      return mkIToF(SITOF, op == FADD ? mkAdd(x, y) : mkSub(x, y), a->width);
    }
  }
  if (E l = lift(a, b, [op](E x, E y) { return mkFBin(op, x, y); })) return l;
  return raw(op, FP, a->width, {a, b});
}
static APFloat::roundingMode rmOf(unsigned m) {
  switch (m) {
  case RM_NE: return APFloat::rmNearestTiesToEven;
  case RM_NA: return APFloat::rmNearestTiesToAway;
  case RM_UP: return APFloat::rmTowardPositive;
  case RM_DN: return APFloat::rmTowardNegative;
  default: return APFloat::rmTowardZero;
  }
}
static APFloat foldUn(Op op, APFloat x, unsigned aux) {
  switch (op) {
  case FNEG: x.changeSign(); return x;
  case FABS: x.clearSign(); return x;
  case FSQRT: {
    if (&x.getSemantics() == &APFloat::IEEEsingle()) return APFloat(std::sqrt(x.convertToFloat()));
    return APFloat(std::sqrt(x.convertToDouble()));
  }
  case FROUND: x.roundToIntegral(rmOf(aux)); return x;
  default: abort();
  }
}
E mkFUn(Op op, E a, unsigned aux) {
  if (a->isConst()) return mkFP(foldUn(op, toAPF(a), aux));
  if (op == FABS && (a->op == FABS || a->op == FSQRT)) return a;
  if (op == FABS && a->op == FNEG) return mkFUn(FABS, a->kid[0]);
  if (op == FNEG && a->op == FNEG) return a->kid[0];
  if (op == FROUND && (a->op == FROUND || a->op == SITOF || a->op == UITOF)) return a;
  if (E l = lift(a, nullptr, [op, aux](E x, E) { return mkFUn(op, x, aux); })) return l;
  return raw(op, FP, a->width, {a}, aux);
}
static E cmpTree(Op op, E a, E b, int depth) {
  unsigned mx = a->width == 64 ? 53 : 24;
  E x = asInt(a, mx), y = asInt(b, mx);
  if (x && y) {
    unsigned w = std::max(x->width, y->width);
    x = mkSExt(x, w);
    y = mkSExt(y, w);
    return op == FEQ ? mkEq(x, y) : op == FLT ? mkSlt(x, y) : mkSle(x, y);
  }
  if (a->isConst() && b->isConst()) return mkFCmp(op, a, b);
  for (int s = 0; s < 2; s++) {
    E i = s ? y : x, c = s ? a : b;
    if (!i || !c->isConst()) continue;
    APFloat f = toAPF(c);
    if (f.isNaN()) return mkBool(false);
    if (f.isInfinity()) {
      if (op == FEQ) return mkBool(false);
      return mkBool(s ? f.isNegative() : !f.isNegative()); // s: c < i, else i < c
    }
    if (f.isInteger()) return nullptr; // -0 or too wide
    if (op == FEQ) return mkBool(false);
    llvm::APSInt iv(80, false);
    bool ex;
    APFloat fl = f;
    fl.roundToIntegral(APFloat::rmTowardNegative);
    if (fl.convertToInteger(iv, APFloat::rmTowardZero, &ex) != APFloat::opOK) return mkBool(s ? f.isNegative() : !f.isNegative());
    unsigned w = std::max<unsigned>(i->width, 80);
    E k = mkConst(iv.sext(w));
    E le = mkSle(mkSExt(i, w), k); // i <= floor(c)
    return s ? mkNot(le) : le;
  }
  if (depth > 0)
    for (int s = 0; s < 2; s++) {
      E t = s ? b : a;
      if (t->op != ITE) continue;
      E p = s ? cmpTree(op, a, t->kid[1], depth - 1) : cmpTree(op, t->kid[1], b, depth - 1);
      if (!p) return nullptr;
      E q = s ? cmpTree(op, a, t->kid[2], depth - 1) : cmpTree(op, t->kid[2], b, depth - 1);
      if (!q) return nullptr;
      return mkIte(t->kid[0], p, q);
    }
  return nullptr;
}
E mkFCmp(Op op, E a, E b) {
  if (op == FISNAN) {
    if (a->isConst()) return mkBool(toAPF(a).isNaN());
    if (realMode) return mkBool(false);
    if (a->op == SITOF || a->op == UITOF) return mkBool(false);
    if (a->op == FPCAST || a->op == FNEG || a->op == FABS || a->op == FROUND) return mkFCmp(FISNAN, a->kid[0], nullptr);
    if (a->op == FROMBV) {
      unsigned m = a->width == 64 ? 52 : 23, e = a->width == 64 ? 11 : 8;
      E v = a->kid[0];
      return mkAnd(mkEq(mkExtract(v, m, e), mkU(e, (1u << e) - 1)), mkNot(mkEq(mkExtract(v, 0, m), mkU(m, 0))));
    }
    return raw(FISNAN, BV, 1, {a});
  }
  if (a->isConst() && b->isConst()) {
    auto r = toAPF(a).compare(toAPF(b));
    switch (op) {
    case FEQ: return mkBool(r == APFloat::cmpEqual);
    case FLT: return mkBool(r == APFloat::cmpLessThan);
    case FLE: return mkBool(r == APFloat::cmpLessThan || r == APFloat::cmpEqual);
    default: abort();
    }
  }
  if (a->isConst() && toAPF(a).isNaN()) return mkBool(false);
  if (b->isConst() && toAPF(b).isNaN()) return mkBool(false);
  if (a == b) {
    if (op == FLT) return mkBool(false);
    return mkNot(mkFCmp(FISNAN, a, nullptr));
  }
  if (op == FEQ && a->id > b->id) std::swap(a, b);
  if (!(a->isConst() && b->isConst())) {
    unsigned mx = a->width == 64 ? 53 : 24;
    E x = asInt(a, mx), y = x ? asInt(b, mx) : nullptr;
    if (x && y) {
      unsigned w = std::max(x->width, y->width);
      x = mkSExt(x, w);
      y = mkSExt(y, w);
      return op == FEQ ? mkEq(x, y) : op == FLT ? mkSlt(x, y) : mkSle(x, y);
    }
  }
  // comparisons of exactly converted integers with trees of constants
  if (E r = cmpTree(op, a, b, 5)) return r;
  // comparisons of exactly converted integers with integral constants
  auto conv = [](E x) { return (x->op == SITOF || x->op == UITOF) && x->kid[0]->width <= (x->width == 64 ? 53u : 24u); };
  for (int s = 0; s < 2; s++) {
    E x = s ? b : a, y = s ? a : b;
    if (conv(x) && y->isConst()) {
      APFloat f = toAPF(y);
      if (f.isFinite() && f.isInteger()) {
        llvm::APSInt iv(128, false);
        bool ex;
        f.convertToInteger(iv, APFloat::rmTowardZero, &ex);
        E k = x->kid[0];
        E kx = x->op == SITOF ? mkSExt(k, 128) : mkZExt(k, 128);
        E c = mkConst(iv);
        if (op == FEQ) return mkEq(kx, c);
        if (op == FLT) return s ? mkSlt(c, kx) : mkSlt(kx, c);
        return s ? mkSle(c, kx) : mkSle(kx, c);
      }
    }
  }
  if (E l = lift(a, b, [op](E x, E y) { return mkFCmp(op, x, y); })) return l;
  return raw(op, BV, 1, {a, b});
}
E mkFToI(Op op, E a, unsigned w) {
  if (a->isConst()) {
    llvm::APSInt r(w, op == FTOUI);
    bool ex;
    auto st = toAPF(a).convertToInteger(r, APFloat::rmTowardZero, &ex);
    if (st == APFloat::opInvalidOp) {
      // x86 behaviour for out-of-range conversions
      if (op == FTOSI && (w == 32 || w == 64)) return mkConst(APInt::getSignedMinValue(w));
      llvm::APSInt r2(64, false);
      toAPF(a).convertToInteger(r2, APFloat::rmTowardZero, &ex);
      return mkConst(r2.sextOrTrunc(w));
    }
    return mkConst(r);
  }
  if (a->op == SITOF || a->op == UITOF) {
    E k = a->kid[0];
    unsigned mant = a->width == 64 ? 53 : 24;
    if (k->width <= mant) {
      if (a->op == SITOF && op == FTOSI && k->width <= w) return mkSExt(k, w);
      if (a->op == UITOF && k->width < w) return mkZExt(k, w);
      if (a->op == UITOF && op == FTOUI && k->width == w) return k;
    }
  }
  if (a->op == ITE && (a->kid[1]->isConst() || a->kid[2]->isConst()))
    return mkIte(a->kid[0], mkFToI(op, a->kid[1], w), mkFToI(op, a->kid[2], w));
  if (E l = lift(a, nullptr, [op, w](E x, E) { return mkFToI(op, x, w); })) return l;
  return raw(op, BV, w, {a});
}
E mkIToF(Op op, E a, unsigned w) {
  if (a->isConst()) {
    APFloat f(w == 32 ? APFloat::IEEEsingle() : APFloat::IEEEdouble());
    f.convertFromAPInt(a->ap(), op == SITOF, rne);
    return mkFP(f);
  }
  if (E l = lift(a, nullptr, [op, w](E x, E) { return mkIToF(op, x, w); })) return l;
  // strip zero extension: narrower conversions are cheaper
  if (a->op == CONCAT && isZero(a->kid[0])) {
    E k = mkExtract(a, 0, a->width - a->kid[0]->width);
    return mkIToF(UITOF, k, w);
  }
  if (a->op == SEXT && op == SITOF) return mkIToF(SITOF, a->kid[0], w);
  if (a->op == ITE && a->kid[1]->isConst() && a->kid[2]->isConst()) {
    E x = mkIToF(op, a->kid[1], w), y = mkIToF(op, a->kid[2], w);
    return raw(ITE, FP, w, {a->kid[0], x, y});
  }
  return raw(op, FP, w, {a});
}
E mkFPCast(E a, unsigned w) {
  if (a->width == w) return a;
  if (a->isConst()) {
    APFloat f = toAPF(a);
    bool li;
    f.convert(w == 32 ? APFloat::IEEEsingle() : APFloat::IEEEdouble(), rne, &li);
    return mkFP(f);
  }
  if (a->op == FPCAST && a->kid[0]->width == w && w == 32) return a->kid[0];  // float->double->float
  if (w == 64 && (a->op == SITOF || a->op == UITOF) && a->kid[0]->width <= 24)
    return mkIToF(a->op, a->kid[0], 64);
  if (realMode && a->op == FPCAST) return mkFPCast(a->kid[0], w);
  if (E l = lift(a, nullptr, [w](E x, E) { return mkFPCast(x, w); })) return l;
  return raw(FPCAST, FP, w, {a});
}
E mkUF(const std::string &fn, std::vector<E> args, Sort s, unsigned w) {
  return rawv(UF, s, w, args, nameId("uf!" + fn));
}

// ---- printing -----------------------------------------------------------------------------
static const char *opn[] = {"const", "var", "add", "mul", "udiv", "sdiv", "urem", "srem", "and", "or",
                            "xor", "not", "shl", "lshr", "ashr", "concat", "extract", "sext", "ite",
                            "eq", "ult", "ule", "slt", "sle", "fadd", "fsub", "fmul", "fdiv", "frem",
                            "fneg", "fabs", "fsqrt", "fround", "feq", "flt", "fle", "fisnan", "ftoui",
                            "ftosi", "uitof", "sitof", "fpcast", "frombv", "tobv", "fmin", "fmax", "uf"};
std::string str(E e, int d) {
  if (e->op == CONST) {
    if (e->sort == FP) {
      llvm::SmallString<32> s;
      toAPF(e).toString(s);
      return std::string(s.str());
    }
    llvm::SmallString<32> s;
    e->ap().toString(s, 16, false);
    return "0x" + std::string(s.str()) + ":" + std::to_string(e->width);
  }
  if (e->op == VAR) return names[e->aux];
  if (d <= 0) return "...";
  std::string r = std::string("(") + (e->op == UF ? names[e->aux] : opn[e->op]);
  if (e->op == EXTRACT) r += "[" + std::to_string(e->aux) + "+" + std::to_string(e->width) + "]";
  for (unsigned i = 0; i < e->nk; i++) r += " " + str(e->kid[i], d - 1);
  return r + ")";
}

// ---- evaluation ---------------------------------------------------------------------------
APInt Evaluator::eval(E root) {
  if (root->isConst()) return root->ap();
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (memo.count(e)) {
      st.pop_back();
      continue;
    }
    bool ready = true;
    for (unsigned i = 0; i < e->nk; i++)
      if (!e->kid[i]->isConst() && !memo.count(e->kid[i])) {
        st.push_back(e->kid[i]);
        ready = false;
      }
    if (!ready) continue;
    st.pop_back();
    auto K = [&](unsigned i) -> APInt {
      E k = e->kid[i];
      return k->isConst() ? k->ap() : memo.find(k)->second;
    };
    auto B = [](bool b) { return APInt(1, b); };
    APInt r(e->width, 0);
    switch (e->op) {
    case CONST: r = e->ap(); break;
    case VAR: {
      auto it = m.v.find(e);
      if (it != m.v.end()) r = it->second;
      break;
    }
    case ADD: r = K(0) + K(1); break;
    case MUL: r = K(0) * K(1); break;
    case UDIV: { APInt d = K(1); r = d.isZero() ? APInt::getAllOnes(e->width) : K(0).udiv(d); break; }
    case UREM: { APInt d = K(1); r = d.isZero() ? K(0) : K(0).urem(d); break; }
    case SDIV: { APInt d = K(1); if (d.isZero()) { ok = false; break; } r = K(0).sdiv(d); break; }
    case SREM: { APInt d = K(1); if (d.isZero()) { ok = false; break; } r = K(0).srem(d); break; }
    case AND: r = K(0) & K(1); break;
    case OR: r = K(0) | K(1); break;
    case XOR: r = K(0) ^ K(1); break;
    case NOT: r = ~K(0); break;
    case SHL: { APInt s = K(1); r = s.uge(e->width) ? APInt(e->width, 0) : K(0).shl(s.getZExtValue()); break; }
    case LSHR: { APInt s = K(1); r = s.uge(e->width) ? APInt(e->width, 0) : K(0).lshr(s.getZExtValue()); break; }
    case ASHR: { APInt s = K(1); r = K(0).ashr(s.uge(e->width) ? e->width - 1 : s.getZExtValue()); break; }
    case CONCAT: {
      APInt a = K(0);
      for (unsigned i = 1; i < e->nk; i++) a = a.concat(K(i));
      r = a;
      break;
    }
    case EXTRACT: r = K(0).extractBits(e->width, e->aux); break;
    case SEXT: r = K(0).sext(e->width); break;
    case ITE: r = K(0).isOne() ? K(1) : K(2); break;
    case EQ: r = B(K(0) == K(1)); break;
    case ULT: r = B(K(0).ult(K(1))); break;
    case ULE: r = B(K(0).ule(K(1))); break;
    case SLT: r = B(K(0).slt(K(1))); break;
    case SLE: r = B(K(0).sle(K(1))); break;
    case FADD: case FSUB: case FMUL: case FDIV: case FREM: case FMIN: case FMAX:
      r = foldBin(e->op, bitsToAPF(K(0)), bitsToAPF(K(1))).bitcastToAPInt();
      break;
    case FNEG: case FABS: case FSQRT: case FROUND:
      r = foldUn(e->op, bitsToAPF(K(0)), e->aux).bitcastToAPInt();
      break;
    case FEQ: r = B(bitsToAPF(K(0)).compare(bitsToAPF(K(1))) == APFloat::cmpEqual); break;
    case FLT: r = B(bitsToAPF(K(0)).compare(bitsToAPF(K(1))) == APFloat::cmpLessThan); break;
    case FLE: {
      auto c = bitsToAPF(K(0)).compare(bitsToAPF(K(1)));
      r = B(c == APFloat::cmpLessThan || c == APFloat::cmpEqual);
      break;
    }
    case FISNAN: r = B(bitsToAPF(K(0)).isNaN()); break;
    case FTOUI: case FTOSI: r = mkFToI(e->op, mkFP(bitsToAPF(K(0))), e->width)->ap(); break;
    case UITOF: case SITOF: r = mkIToF(e->op, mkConst(K(0)), e->width)->ap(); break;
    case FPCAST: r = mkFPCast(mkFP(bitsToAPF(K(0))), e->width)->ap(); break;
    case FROMBV: case TOBV: r = K(0); break;
    case UF: ok = false; break;
    }
    memo.emplace(e, r);
  }
  return memo.find(root)->second;
}

static std::unordered_map<E, std::vector<E>> varCache;
void collectVars(E e, std::vector<E> &out) {
  auto it = varCache.find(e);
  if (it == varCache.end()) {
    std::vector<E> st{e}, vs;
    std::unordered_set<E> seen;
    while (!st.empty()) {
      E x = st.back();
      st.pop_back();
      if (!x->hasVar && !x->hasUF) continue;
      if (!seen.insert(x).second) continue;
      if (x->op == VAR) vs.push_back(x);
      for (unsigned i = 0; i < x->nk; i++) st.push_back(x->kid[i]);
    }
    std::sort(vs.begin(), vs.end(), [](E a, E b) { return a->id < b->id; });
    it = varCache.emplace(e, vs).first;
  }
  out.insert(out.end(), it->second.begin(), it->second.end());
}
}  // namespace sx
