// Symbolic execution of LLVM IR with state merging at immediate post-dominators.
#include "exec.h"
#include <llvm/Analysis/CFG.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/Operator.h>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <pthread.h>
#include <sys/resource.h>
#include <unistd.h>
#include <unordered_set>

using namespace llvm;
namespace sx {
static Module *M;
static const DataLayout *DL;
static std::vector<Obj> objs(1);
static std::vector<uint32_t> pageObj;
static uint64_t nextAddr = ADDR_BASE;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<const Function *, FnInfo *> fns;
static std::map<std::string, Builtin> builtins;
static std::vector<Violation> violations;
static std::vector<Witness> witnesses;
static std::map<std::string, uint64_t> covers;
static std::map<std::string, std::string> unsupported;  // reason -> where
static std::map<std::string, int64_t> policy;
static std::set<std::string> knownFindings;
static std::set<std::string> kfSeen;
static uint64_t nStates = 1, nInst = 0, nMerges = 0, nMergeFail = 0, nForks = 0, nPaths = 0, nThrows = 0, nSpec = 0;
static uint64_t maxSteps = 30000000;
static double deadline = 1e18;
static bool timedOut = false;
static int nShard = 1, shard = 0;
static size_t maxWitness = 48;
static bool verbose = false;
static std::set<std::string> assertSites;

enum { OK = 0, FORKED = 1, DEAD = 2, CONCRETIZE = 3, CALLED = 4 };
static int concSlot;  // operand slot to concretize (CONCRETIZE)
static std::vector<State *> forkOut;

// ---- objects --------------------------------------------------------------------------------
static uint32_t newObj(uint64_t size, ObjKind k, const std::string &name) {
  uint64_t base = nextAddr;
  uint64_t pages = (size >> PG) + 1;  // at least one byte of slack
  nextAddr += pages << PG;
  uint32_t id = objs.size();
  objs.push_back(Obj{base, size, k, name, nullptr});
  pageObj.resize((nextAddr - ADDR_BASE) >> PG, id);
  return id;
}
static uint32_t objAt(uint64_t a) {
  if (a < ADDR_BASE) return 0;
  uint64_t p = (a - ADDR_BASE) >> PG;
  return p < pageObj.size() ? pageObj[p] : 0;
}
static bool looksPtr(uint64_t v) { return v >= ADDR_BASE && v < nextAddr; }
static bool isFreed(const State &s, uint32_t id) {
  const Page *p = s.mem.rd(SHADOW + id);
  return p && p->data[id & 255] == 2;
}
// Allocation history: states that made the same sequence of allocations get the same addresses, so that
// siblings of a fork stay mergeable.  A node identifies a history; merging two histories gives a new one.
struct ANode { std::map<std::pair<uint64_t, int>, std::pair<uint32_t, uint32_t>> ch; };
static std::vector<ANode> anodes(1);
static std::map<std::pair<uint32_t, uint32_t>, uint32_t> anodeMerge;
static uint32_t allocObj(State &s, uint64_t size, ObjKind k, const char *name) {
  auto key = std::make_pair(size, (int)k);
  auto it = anodes[s.allocNode].ch.find(key);
  if (it == anodes[s.allocNode].ch.end()) {
    uint32_t id = newObj(size, k, name), nn = anodes.size();
    anodes.emplace_back();
    it = anodes[s.allocNode].ch.emplace(key, std::make_pair(id, nn)).first;
  }
  s.allocNode = it->second.second;
  uint32_t id = it->second.first;
  s.mem.wr(SHADOW + id)->data[id & 255] = 1;
  return id;
}
static uint32_t mergeNodes(uint32_t a, uint32_t b) {
  if (a == b) return a;
  auto key = std::make_pair(std::min(a, b), std::max(a, b));
  auto it = anodeMerge.find(key);
  if (it == anodeMerge.end()) {
    it = anodeMerge.emplace(key, anodes.size()).first;
    anodes.emplace_back();
  }
  return it->second;
}
static void setFreed(State &s, uint32_t id) {
  s.mem.wr(SHADOW + id)->data[id & 255] = 2;
  const Obj &o = objs[id];
  if (o.size <= (1 << 16))
    for (uint64_t a = o.base; a <= o.base + o.size; a += 256) s.mem.erasePage(a);
}

static uint64_t freshCount = 0;
static E loadBytes(State &s, uint64_t addr, unsigned n) {
  // fast path: all concrete
  E acc = nullptr;
  std::vector<E> parts;  // low to high
  uint64_t cv = 0;
  bool allC = n <= 8;
  if (allC) {
    for (unsigned i = 0; i < n; i++) {
      const Page *p = s.mem.rd(addr + i);
      unsigned o = (addr + i) & 255;
      if (!p || !p->isInit(o) || p->symAt(o)) { allC = false; break; }
      cv |= (uint64_t)p->data[o] << (8 * i);
    }
    if (allC) return mkU(8 * n, cv);
  }
  for (unsigned i = 0; i < n;) {
    const Page *p = s.mem.rd(addr + i);
    unsigned o = (addr + i) & 255;
    if (!p || !p->isInit(o)) {
      E v = mkVarUnique("uninit" + std::to_string(freshCount++), BV, 8);
      Page *w = s.mem.wr(addr + i);
      w->setInit(o);
      if (!w->sym) { w->sym = new SymByte[256]; memset((void *)w->sym, 0, sizeof(SymByte) * 256); }
      w->sym[o] = SymByte{v, 0};
      parts.push_back(v);
      i++;
      continue;
    }
    E e = p->symAt(o);
    if (!e) {
      parts.push_back(mkU(8, p->data[o]));
      i++;
      continue;
    }
    unsigned start = p->sym[o].idx, len = 1;
    while (i + len < n) {
      const Page *q = s.mem.rd(addr + i + len);
      unsigned oo = (addr + i + len) & 255;
      if (!q || !q->isInit(oo) || q->symAt(oo) != e || q->sym[oo].idx != start + len) break;
      len++;
    }
    parts.push_back(mkExtract(e, start * 8, len * 8));
    i += len;
  }
  (void)acc;
  std::reverse(parts.begin(), parts.end());
  return mkConcat(parts);
}
static void storeBytes(State &s, uint64_t addr, E v) {
  if (v->isFP()) v = mkToBV(v);
  unsigned w = v->width;
  if (w & 7) { v = mkZExt(v, (w + 7) & ~7u); w = v->width; }
  unsigned n = w / 8;
  if (v->isConst()) {
    APInt c = v->ap();
    for (unsigned i = 0; i < n; i++) {
      Page *p = s.mem.wr(addr + i);
      unsigned o = (addr + i) & 255;
      p->data[o] = (uint8_t)c.extractBitsAsZExtValue(8, i * 8);
      p->setInit(o);
      p->setWide(o, n == 8);
      if (p->sym) p->sym[o].e = nullptr;
    }
    return;
  }
  // constant pieces are stored concretely so that partially symbolic words keep concrete bytes
  for (unsigned i = 0; i < n; i++) {
    Page *p = s.mem.wr(addr + i);
    unsigned o = (addr + i) & 255;
    p->setInit(o);
    p->setWide(o, n == 8);
    E b = v->op == CONCAT ? mkExtract(v, i * 8, 8) : nullptr;
    if (b && b->isConst()) {
      p->data[o] = (uint8_t)b->cw;
      if (p->sym) p->sym[o].e = nullptr;
      continue;
    }
    if (!p->sym) { p->sym = new SymByte[256]; memset((void *)p->sym, 0, sizeof(SymByte) * 256); }
    p->sym[o] = SymByte{v, i};
  }
}
static void copyBytes(State &s, uint64_t dst, uint64_t src, uint64_t n) {
  struct B { bool init; uint8_t d; E e; uint32_t idx; bool w; };
  std::vector<B> buf(n);
  for (uint64_t i = 0; i < n; i++) {
    const Page *p = s.mem.rd(src + i);
    unsigned o = (src + i) & 255;
    if (!p || !p->isInit(o)) buf[i] = B{false, 0, nullptr, 0, false};
    else if (p->symAt(o)) buf[i] = B{true, 0, p->sym[o].e, p->sym[o].idx, p->isWide(o)};
    else buf[i] = B{true, p->data[o], nullptr, 0, p->isWide(o)};
  }
  for (uint64_t i = 0; i < n; i++) {
    Page *p = s.mem.wr(dst + i);
    unsigned o = (dst + i) & 255;
    if (!buf[i].init) {
      p->clrInit(o);
      if (p->sym) p->sym[o].e = nullptr;
    } else {
      p->setInit(o);
      p->setWide(o, buf[i].w);
      p->data[o] = buf[i].d;
      if (buf[i].e) {
        if (!p->sym) { p->sym = new SymByte[256]; memset((void *)p->sym, 0, sizeof(SymByte) * 256); }
        p->sym[o] = SymByte{buf[i].e, buf[i].idx};
      } else if (p->sym)
        p->sym[o].e = nullptr;
    }
  }
}

// ---- path condition -------------------------------------------------------------------------
static bool inPC(const State &s, E c) {
  for (size_t i = s.pc.size(); i-- > 0;)
    if (s.pc[i] == c) return true;
  return false;
}
static void addPC(State &s, E c) {
  if (c->isTrue()) return;
  if (c->op == AND) {
    addPC(s, c->kid[0]);
    addPC(s, c->kid[1]);
    return;
  }
  if (!inPC(s, c)) s.pc.push_back(c);
}
// 1 = always, 0 = never, 2 = both
static int decide(State &s, E c) {
  if (c->isConst()) return (int)c->cw;
  if (inPC(s, c)) return 1;
  E nc = mkNot(c);
  if (inPC(s, nc)) return 0;
  Sat t = feasible(s.pc, c);
  if (t == Sat::UNSAT) return 0;
  Sat f = feasible(s.pc, nc);
  if (f == Sat::UNSAT) return 1;
  return 2;
}
static std::string fname(const FnInfo *f) { return demangle(f->name); }
static std::string where(const State &s) {
  std::string r;
  for (size_t i = s.st.size(); i-- > 0;) {
    std::string n = fname(s.st[i]->fn);
    auto p = n.find('(');
    if (p != std::string::npos) n = n.substr(0, p);
    if (n.size() > 80) n = n.substr(0, 80);
    r += (r.empty() ? "" : " < ") + n;
    if (r.size() > 300) break;
  }
  return r;
}
static std::string curInst(const State &s) {
  const Frame &f = *s.st.back();
  std::string r;
  raw_string_ostream os(r);
  if (f.block < (int)f.fn->b.size() && f.inst < (int)f.fn->b[f.block].in.size() && f.fn->b[f.block].in[f.inst].I)
    f.fn->b[f.block].in[f.inst].I->print(os);
  return os.str();
}
static void fillInputs(const State &s, const Model &m, std::vector<std::pair<std::string, APInt>> &out) {
  Evaluator ev(m);
  for (auto &in : s.inputs) out.push_back({in.first, ev.eval(in.second)});
}
static void unsup(State &s, const std::string &why) {
  if (!unsupported.count(why)) unsupported[why] = where(s) + " @ " + curInst(s);
  s.dead = true;
}
// The property is violated on the part of this path where `bad` holds. Returns false when the path
// ends (no state with !bad remains).
static bool report(State &s, const std::string &kind, const std::string &msg, E bad) {
  if (bad->isFalse()) return true;
  std::string site = kind + "|" + msg + "|" + where(s);
  bool dup = false;
  for (auto &v : violations)
    if (v.kf.empty() && v.kind == kind && v.msg == msg && v.where == where(s)) dup = true;
  E rest = bad;
  for (auto &k : s.kf) rest = mkAnd(rest, mkNot(k.cond));
  stats.asserts++;
  auto ask = [&](E q, Model &m) {
    // whole path condition so that the model is a complete input
    Sat r = checkSliced(s.pc, q, assertTimeout, &m, true);
    if (r == Sat::SAT) {
      // complete the model over the other slices
      std::vector<E> all = s.pc;
      all.push_back(q);
      Model full;
      if (!realMode && satisfiesCached(s.pc, q, &full)) { m = full; return r; }
      Sat r2 = checkSat(all, assertTimeout, &full, true);
      if (r2 == Sat::SAT) m = full;
      else if (r2 == Sat::UNSAT) return Sat::UNSAT;
    }
    return r;
  };
  if (!dup) {
    Model m;
    Sat r = ask(rest, m);
    if (r == Sat::SAT) {
      Violation v{kind, msg, where(s), "", {}, s.choices};
      fillInputs(s, m, v.inputs);
      violations.push_back(v);
      if (verbose) fprintf(stderr, "VIOLATION %s: %s at %s\n   %s\n", kind.c_str(), msg.c_str(), v.where.c_str(), curInst(s).c_str());
    } else if (r == Sat::UNKNOWN) {
      unsupported["solver gave no answer in time for: " + kind + " " + msg] = where(s);
    }
  }
  for (auto &k : s.kf) {
    if (kfSeen.count(k.id)) continue;
    Model m;
    if (ask(mkAnd(bad, k.cond), m) == Sat::SAT) {
      kfSeen.insert(k.id);
      Violation v{kind, msg, where(s), k.id, {}, s.choices};
      fillInputs(s, m, v.inputs);
      violations.push_back(v);
    }
  }
  E good = mkNot(bad);
  if (good->isFalse() || feasible(s.pc, good) == Sat::UNSAT) { s.dead = true; return false; }
  addPC(s, good);
  return true;
}
// like report, but quickly passes when bad is infeasible
static bool check(State &s, const std::string &kind, const std::string &msg, E bad) {
  if (bad->isFalse()) return true;
  if (inPC(s, mkNot(bad))) return true;
  if (!bad->isTrue()) {
    Sat r = checkSliced(s.pc, bad, feasTimeout, nullptr, false);
    if (r == Sat::UNSAT) { return true; }
  }
  return report(s, kind, msg, bad);
}

// ---- pointers -------------------------------------------------------------------------------
struct Target { E cond; uint64_t addr; };  // cond null = unconditional
static void addTerms(E e, std::vector<E> &t) {
  if (e->op == ADD) {
    addTerms(e->kid[0], t);
    addTerms(e->kid[1], t);
  } else if (e->op == CONCAT && e->kid[1]->isConst() && e->kid[0]->op == ADD && e->width == 64) {
    // scaled index: (a + b) : 000 = a : 000 + b : 000
    std::vector<E> hi;
    addTerms(e->kid[0], hi);
    E z = mkU(e->kid[1]->width, 0);
    for (E h : hi) t.push_back(mkConcat({h, z}));
    if (e->kid[1]->u64()) t.push_back(mkU(64, e->kid[1]->u64()));
  } else
    t.push_back(e);
}
static int64_t maxCand = 2048;
// Resolve an address for an access of n bytes. Returns OK, DEAD or CONCRETIZE.
static int resolve(State &s, E addr, uint64_t n, bool write, E cond, std::vector<Target> &out, int lvl = 0) {
  auto bad = [&](const std::string &m) { return report(s, "memory", m, cond ? cond : mkBool(true)) ? OK : DEAD; };
  if (addr->isConst()) {
    uint64_t a = addr->u64();
    uint32_t id = objAt(a);
    const char *rw = write ? "write" : "read";
    if (!id) return bad(a < 4096 ? std::string("null dereference (") + rw + ")" : std::string("wild pointer ") + rw);
    const Obj &o = objs[id];
    if (o.kind == OBJ_FUNC) return bad("access to code");
    if (a < o.base || n > o.size || a - o.base > o.size - n)
      return bad(std::string("out-of-bounds ") + rw + " of " + (o.kind == OBJ_HEAP ? "heap" : o.kind == OBJ_STACK ? "stack" : "global") + " object");
    if (isFreed(s, id)) return bad(std::string(rw) + " of freed object");
    if (write && o.kind == OBJ_CONST) return bad("write to constant");
    out.push_back({cond, a});
    return OK;
  }
  if (lvl > 60) return CONCRETIZE;
  auto sub = [&](E c, E p) -> int {
    E cc = cond ? mkAnd(cond, c) : c;
    if (cc->isFalse() || feasible(s.pc, cc) == Sat::UNSAT) return OK;
    return resolve(s, p, n, write, cc, out, lvl + 1);
  };
  if (addr->op == ITE) {
    E c = addr->kid[0], t = addr->kid[1], f = addr->kid[2];
    int r = sub(c, t);
    if (r != OK) return r;
    return sub(mkNot(c), f);
  }
  std::vector<E> terms;
  addTerms(addr, terms);
  uint64_t base = 0;
  uint32_t id = 0;
  for (E t : terms)
    if (t->isConst() && looksPtr(t->u64())) { base = t->u64(); id = objAt(base); }
  if (!id) {
    for (size_t i = 0; i < terms.size(); i++)
      if (terms[i]->op == ITE && terms[i]->width == 64) {
        E c = terms[i]->kid[0];
        E rest = mkU(64, 0);
        for (size_t j = 0; j < terms.size(); j++)
          if (j != i) rest = mkAdd(rest, terms[j]);
        int r = sub(c, mkAdd(terms[i]->kid[1], rest));
        if (r != OK) return r;
        return sub(mkNot(c), mkAdd(terms[i]->kid[2], rest));
      }
    return CONCRETIZE;
  }
  const Obj o = objs[id];
  E off = mkSub(addr, mkU(64, o.base));
  if (isFreed(s, id)) return bad(std::string(write ? "write" : "read") + " of freed object");
  if (n > o.size) return bad("out-of-bounds access (object too small)");
  E inb = mkUle(off, mkU(64, o.size - n));
  E oob = mkNot(inb);
  if (cond) oob = mkAnd(cond, oob);
  if (!check(s, "memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + (o.kind == OBJ_HEAP ? "heap" : o.kind == OBJ_STACK ? "stack" : "global") + " object", oob)) return DEAD;
  // candidates
  uint64_t step = 1;
  {
    uint64_t ub;
    // trailing known zero bits
    while (step < 4096) {
      E lo = mkExtract(off, 0, (unsigned)__builtin_ctzll(step) + 1);
      if (lo->isConst() && lo->cw == 0) step <<= 1; else break;
    }
    (void)ub;
  }
  uint64_t rem = 0;
  if (step == 1) {
    // constant misalignment, e.g. 24*i + 8
    uint64_t st2 = 4096;
    while (st2 > 1) {
      E lo = mkExtract(off, 0, (unsigned)__builtin_ctzll(st2));
      if (lo->isConst()) { step = st2; rem = lo->cw; break; }
      st2 >>= 1;
    }
  } else {
    uint64_t st2 = 4096;
    while (st2 > step) {
      E lo = mkExtract(off, 0, (unsigned)__builtin_ctzll(st2));
      if (lo->isConst()) { step = st2; rem = lo->cw; break; }
      st2 >>= 1;
    }
  }
  uint64_t cnt = (o.size - n) / step + 1;
  if ((int64_t)cnt > maxCand) return CONCRETIZE;
  std::vector<uint64_t> cand;
  for (uint64_t k = rem; k <= o.size - n; k += step) {
    E q = mkEq(off, mkU(64, k));
    if (q->isFalse()) continue;
    if (cnt > 4) {
      E qq = cond ? mkAnd(cond, q) : q;
      if (feasible(s.pc, qq) == Sat::UNSAT) continue;
    }
    cand.push_back(k);
  }
  if (write && o.kind == OBJ_CONST) return bad("write to constant");
  for (uint64_t k : cand) {
    E q = mkEq(off, mkU(64, k));
    if (cand.size() == 1) out.push_back({cond, o.base + k});
    else out.push_back({cond ? mkAnd(cond, q) : q, o.base + k});
  }
  return OK;
}
static E rawLoad(State &s, const std::vector<Target> &t, unsigned bytes, int64_t off) {
  E v = nullptr;
  for (size_t i = t.size(); i-- > 0;) {
    E x = loadBytes(s, t[i].addr + off, bytes);
    if (!v || !t[i].cond) v = x;
    else v = mkIte(t[i].cond, x, v);
  }
  return v;
}
static E fromMem(E v, const LeafTy &t) {
  if (t.fp) return mkFromBV(v);
  if (v->width != t.w) return mkExtract(v, 0, t.w);
  return v;
}

// ---- types and constants ----------------------------------------------------------------------
static void flat(Type *t, std::vector<LeafTy> &out, int64_t off = 0) {
  if (t->isVoidTy()) return;
  if (auto *st = dyn_cast<StructType>(t)) {
    const StructLayout *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++)
      flat(st->getElementType(i), out, off + (int64_t)sl->getElementOffset(i).getFixedValue());
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(at->getElementType()).getFixedValue();
    for (uint64_t i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), out, off + i * sz);
    return;
  }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t bits = DL->getTypeSizeInBits(vt->getElementType()).getFixedValue();
    if (bits % 8) {
      // <N x i1>: treated as scalars; memory access unsupported
      for (unsigned i = 0; i < vt->getNumElements(); i++) flat(vt->getElementType(), out, off + i);
      return;
    }
    for (unsigned i = 0; i < vt->getNumElements(); i++) flat(vt->getElementType(), out, off + i * (bits / 8));
    return;
  }
  LeafTy l;
  l.off = off;
  if (t->isPointerTy()) { l.fp = false; l.w = 64; }
  else if (t->isFloatTy()) { l.fp = true; l.w = 32; }
  else if (t->isDoubleTy()) { l.fp = true; l.w = 64; }
  else if (auto *it = dyn_cast<IntegerType>(t)) { l.fp = false; l.w = it->getBitWidth(); }
  else if (t->isX86_FP80Ty()) { l.fp = false; l.w = 80; }
  else { l.fp = false; l.w = 64; }
  l.bytes = (l.w + 7) / 8;
  out.push_back(l);
}
static int flatCount(Type *t) {
  std::vector<LeafTy> v;
  flat(t, v);
  return (int)v.size();
}
static uint64_t addrOf(const GlobalValue *g);
static FnInfo *fnInfo(const Function *F) {
  auto &p = fns[F];
  if (!p) {
    p = new FnInfo();
    p->F = F;
    p->name = F->getName().str();
  }
  return p;
}
static uint64_t addrOf(const GlobalValue *g) {
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  if (auto *al = dyn_cast<GlobalAlias>(g)) {
    if (auto *b = dyn_cast<GlobalValue>(al->getAliasee()->stripPointerCasts())) return gaddr[g] = addrOf(b);
  }
  if (auto *F = dyn_cast<Function>(g)) {
    uint32_t id = newObj(16, OBJ_FUNC, F->getName().str());
    objs[id].fn = fnInfo(F);
    return gaddr[g] = objs[id].base;
  }
  auto *v = cast<GlobalVariable>(g);
  uint64_t sz = v->getValueType()->isSized() ? DL->getTypeAllocSize(v->getValueType()).getFixedValue() : 512;
  if (v->isDeclaration()) sz = std::max<uint64_t>(sz, 512);
  uint32_t id = newObj(sz, v->isConstant() ? OBJ_CONST : OBJ_GLOBAL, v->getName().str());
  return gaddr[g] = objs[id].base;
}
static void constScalars(const Constant *c, std::vector<E> &out);
static APInt constPtr(const Constant *c) {  // any scalar int/pointer constant expression
  std::vector<E> v;
  constScalars(c, v);
  return v[0]->ap();
}
static void constScalars(const Constant *c, std::vector<E> &out) {
  Type *t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    std::vector<LeafTy> l;
    flat(t, l);
    for (auto &x : l) out.push_back(x.fp ? mkFPBits(x.w, 0) : mkConst(APInt(x.w, 0)));
    return;
  }
  if (auto *ci = dyn_cast<ConstantInt>(c)) { out.push_back(mkConst(ci->getValue())); return; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    if (t->isX86_FP80Ty()) out.push_back(mkConst(cf->getValueAPF().bitcastToAPInt()));
    else out.push_back(mkFP(cf->getValueAPF()));
    return;
  }
  if (isa<ConstantPointerNull>(c)) { out.push_back(mkU(64, 0)); return; }
  if (auto *g = dyn_cast<GlobalValue>(c)) { out.push_back(mkU(64, addrOf(g))); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    for (unsigned i = 0; i < cd->getNumElements(); i++) constScalars(cd->getElementAsConstant(i), out);
    return;
  }
  if (isa<ConstantAggregate>(c)) {
    for (unsigned i = 0; i < c->getNumOperands(); i++) constScalars(cast<Constant>(c->getOperand(i)), out);
    return;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      auto *gop = cast<GEPOperator>(ce);
      if (!gop->accumulateConstantOffset(*DL, off)) break;
      out.push_back(mkConst(constPtr(cast<Constant>(gop->getPointerOperand())) + off));
      return;
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
      std::vector<LeafTy> l;
      flat(t, l);
      out.push_back(mkConst(constPtr(ce->getOperand(0)).zextOrTrunc(l[0].w)));
      return;
    }
    case Instruction::Trunc: out.push_back(mkConst(constPtr(ce->getOperand(0)).trunc(t->getIntegerBitWidth()))); return;
    case Instruction::Sub: out.push_back(mkConst(constPtr(ce->getOperand(0)) - constPtr(ce->getOperand(1)))); return;
    case Instruction::Add: out.push_back(mkConst(constPtr(ce->getOperand(0)) + constPtr(ce->getOperand(1)))); return;
    case Instruction::ICmp: {
      APInt a = constPtr(ce->getOperand(0)), b = constPtr(ce->getOperand(1));
      bool r = ICmpInst::compare(a, b, (ICmpInst::Predicate)ce->getPredicate());
      out.push_back(mkBool(r));
      return;
    }
    }
  }
  std::string s;
  raw_string_ostream os(s);
  c->print(os);
  fprintf(stderr, "unsupported constant: %s\n", os.str().c_str());
  out.push_back(mkU(64, 0));
}
static void storeConst(State &s, uint64_t addr, const Constant *c) {
  if (isa<UndefValue>(c)) return;
  uint64_t sz = DL->getTypeAllocSize(c->getType()).getFixedValue();
  if (isa<ConstantAggregateZero>(c)) {
    for (uint64_t i = 0; i < sz; i++) storeBytes(s, addr + i, mkU(8, 0));
    return;
  }
  if (isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
      uint64_t es = cd->getElementByteSize();
      for (unsigned i = 0; i < cd->getNumElements(); i++) storeConst(s, addr + i * es, cd->getElementAsConstant(i));
      return;
    }
    if (auto *st = dyn_cast<StructType>(c->getType())) {
      const StructLayout *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < c->getNumOperands(); i++)
        storeConst(s, addr + sl->getElementOffset(i).getFixedValue(), cast<Constant>(c->getOperand(i)));
      return;
    }
    uint64_t es = 0;
    if (auto *at = dyn_cast<ArrayType>(c->getType())) es = DL->getTypeAllocSize(at->getElementType()).getFixedValue();
    if (auto *vt = dyn_cast<FixedVectorType>(c->getType())) es = DL->getTypeAllocSize(vt->getElementType()).getFixedValue();
    for (unsigned i = 0; i < c->getNumOperands(); i++) storeConst(s, addr + i * es, cast<Constant>(c->getOperand(i)));
    return;
  }
  std::vector<E> v;
  constScalars(c, v);
  storeBytes(s, addr, v[0]);
}

// ---- decoding ---------------------------------------------------------------------------------
static Builtin findBuiltin(const std::string &n);
static void computePostDom(FnInfo &f) {
  int n = f.b.size();
  std::vector<std::vector<int>> succ(n), pred(n);
  std::vector<char> isRet(n, 0);
  for (int i = 0; i < n; i++) {
    DInst &t = f.b[i].in.back();
    for (auto &e : t.e) succ[i].push_back(e.block);
    isRet[i] = t.op == Instruction::Ret;
    for (int x : succ[i]) pred[x].push_back(i);
  }
  // reverse post order of the reverse graph from the virtual exit n
  std::vector<int> order, num(n + 1, -1), idom(n + 1, -1);
  std::vector<char> seen(n + 1, 0);
  std::function<void(int)> dfs;
  // iterative
  {
    std::vector<std::pair<int, size_t>> st;
    st.push_back({n, 0});
    seen[n] = 1;
    std::vector<int> rets;
    for (int i = 0; i < n; i++)
      if (isRet[i]) rets.push_back(i);
    while (!st.empty()) {
      auto &tp = st.back();
      const std::vector<int> &ps = tp.first == n ? rets : pred[tp.first];
      if (tp.second < ps.size()) {
        int x = ps[tp.second++];
        if (!seen[x]) { seen[x] = 1; st.push_back({x, 0}); }
      } else {
        order.push_back(tp.first);
        st.pop_back();
      }
    }
  }
  std::reverse(order.begin(), order.end());
  for (size_t i = 0; i < order.size(); i++) num[order[i]] = i;
  idom[n] = n;
  auto inter = [&](int a, int b) {
    while (a != b) {
      while (num[a] > num[b]) a = idom[a];
      while (num[b] > num[a]) b = idom[b];
    }
    return a;
  };
  bool ch = true;
  while (ch) {
    ch = false;
    for (int x : order) {
      if (x == n) continue;
      int ni = -1;
      if (isRet[x]) ni = n;
      for (int sx : succ[x]) {
        if (num[sx] < 0 || idom[sx] < 0) continue;
        ni = ni < 0 ? sx : inter(ni, sx);
      }
      if (ni >= 0 && idom[x] != ni) { idom[x] = ni; ch = true; }
    }
  }
  for (int i = 0; i < n; i++) f.b[i].ipdom = (idom[i] < 0 || idom[i] == n) ? -1 : idom[i];
}
static void computeLive(FnInfo &f) {
  int n = f.b.size();
  for (auto &b : f.b) b.live.assign(f.nslots, 0);
  auto use = [&](std::vector<char> &l, const Operand &o) {
    if (o.slot >= 0)
      for (int i = 0; i < o.n; i++) l[o.slot + i] = 1;
  };
  bool ch = true;
  std::vector<std::vector<char>> in(n, std::vector<char>(f.nslots, 0));
  // 'in' here is live-in after phis of the block
  while (ch) {
    ch = false;
    for (int i = n - 1; i >= 0; i--) {
      std::vector<char> l(f.nslots, 0);
      DInst &t = f.b[i].in.back();
      for (auto &e : t.e) {
        std::vector<char> x = in[e.block];
        for (auto &p : e.phi) x[p.first] = 0;
        for (auto &p : e.phi) use(x, p.second);
        for (int k = 0; k < f.nslots; k++) l[k] |= x[k];
      }
      for (int j = (int)f.b[i].in.size() - 1; j >= 0; j--) {
        DInst &d = f.b[i].in[j];
        if (d.dst >= 0)
          for (int k = 0; k < d.nd; k++) l[d.dst + k] = 0;
        for (auto &o : d.a) use(l, o);
        for (auto &g : d.gep) use(l, g.o);
      }
      if (l != in[i]) { in[i] = l; ch = true; }
    }
  }
  for (int i = 0; i < n; i++) f.b[i].live = in[i];
}
// Side-effect-free diamonds and triangles are executed on both sides and joined with ite, without a fork.
static bool specOp(unsigned op) {
  switch (op) {
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
  case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::ICmp:
  case Instruction::FCmp: case Instruction::Select: case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
  case Instruction::GetElementPtr: case Instruction::Freeze: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul:
  case Instruction::FNeg: case Instruction::Load: case Instruction::ExtractValue: case Instruction::InsertValue: case Instruction::FPExt:
  case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::BitCast:
    return true;
  }
  return false;
}
static void computeSpec(FnInfo &f) {
  std::vector<int> preds(f.b.size(), 0);
  for (auto &b : f.b)
    for (auto &e : b.in.back().e) preds[e.block]++;
  auto simple = [&](int b) -> int {  // join block or -1
    if (preds[b] != 1) return -1;
    auto &in = f.b[b].in;
    DInst &t = in.back();
    if (in.size() > 16 || t.op != Instruction::Br || !t.a.empty()) return -1;
    for (size_t i = 0; i + 1 < in.size(); i++)
      if (!specOp(in[i].op)) return -1;
    return t.e[0].block;
  };
  for (size_t bi = 0; bi < f.b.size(); bi++) {
    DInst &d = f.b[bi].in.back();
    if (d.op != Instruction::Br || d.a.empty()) continue;
    int T = d.e[0].block, F = d.e[1].block;
    if (T == F) continue;
    int jt = simple(T), jf = simple(F);
    if (jt >= 0 && jt == jf && jt != (int)bi && d.e[0].phi.empty() && d.e[1].phi.empty()) { d.spT = T; d.spF = F; d.spJ = jt; }
    else if (jt >= 0 && jt == F && d.e[0].phi.empty()) { d.spT = T; d.spJ = F; }
    else if (jf >= 0 && jf == T && d.e[1].phi.empty()) { d.spF = F; d.spJ = T; }
  }
}
static void decode(FnInfo &f) {
  f.decoded = true;
  const Function &F = *f.F;
  std::unordered_map<const Value *, int> slot;
  std::unordered_map<const BasicBlock *, int> bid;
  int ns = 0;
  auto newSlot = [&](const Value *v) {
    int c = flatCount(v->getType());
    slot[v] = ns;
    ns += c;
    return c;
  };
  for (auto &A : F.args()) {
    int s0 = ns;
    int c = newSlot(&A);
    f.args.push_back({s0, c});
  }
  int nb = 0;
  for (auto &B : F) {
    bid[&B] = nb++;
    for (auto &I : B)
      if (!I.getType()->isVoidTy()) newSlot(&I);
  }
  f.nslots = ns;
  f.b.resize(nb);
  auto opnd = [&](const Value *v) {
    Operand o;
    if (auto *c = dyn_cast<Constant>(v)) {
      constScalars(c, o.c);
      o.n = o.c.size();
    } else if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) {
      o.n = 0;
    } else {
      auto it = slot.find(v);
      assert(it != slot.end());
      o.slot = it->second;
      o.n = flatCount(v->getType());
    }
    return o;
  };
  auto edge = [&](const BasicBlock *from, const BasicBlock *to) {
    Edge e;
    e.block = bid[to];
    for (auto &P : to->phis()) e.phi.push_back({slot[&P], opnd(P.getIncomingValueForBlock(from))});
    return e;
  };
  for (auto &B : F) {
    DBlock &db = f.b[bid[&B]];
    for (auto &I : B) {
      if (isa<PHINode>(I)) continue;
      DInst d;
      d.I = &I;
      d.op = I.getOpcode();
      if (!I.getType()->isVoidTy()) {
        d.dst = slot[&I];
        flat(I.getType(), d.ty);
        d.nd = d.ty.size();
      }
      if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) d.nsw = ob->hasNoSignedWrap();
      switch (I.getOpcode()) {
      case Instruction::Br: {
        auto &br = cast<BranchInst>(I);
        if (br.isConditional()) d.a.push_back(opnd(br.getCondition()));
        for (unsigned i = 0; i < br.getNumSuccessors(); i++) d.e.push_back(edge(&B, br.getSuccessor(i)));
        break;
      }
      case Instruction::Switch: {
        auto &sw = cast<SwitchInst>(I);
        d.a.push_back(opnd(sw.getCondition()));
        d.e.push_back(edge(&B, sw.getDefaultDest()));
        for (auto c : sw.cases()) {
          d.caseVal.push_back(mkConst(c.getCaseValue()->getValue()));
          d.e.push_back(edge(&B, c.getCaseSuccessor()));
        }
        break;
      }
      case Instruction::GetElementPtr: {
        auto &g = cast<GetElementPtrInst>(I);
        d.a.push_back(opnd(g.getPointerOperand()));
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          if (auto *st = gi.getStructTypeOrNull()) {
            d.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()).getFixedValue();
          } else {
            int64_t sz = DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue();
            if (auto *ci = dyn_cast<ConstantInt>(gi.getOperand())) d.off += ci->getSExtValue() * sz;
            else d.gep.push_back({opnd(gi.getOperand()), sz});
          }
        }
        break;
      }
      case Instruction::Call: case Instruction::Invoke: {
        auto &cb = cast<CallBase>(I);
        for (auto &A : cb.args()) d.a.push_back(opnd(A.get()));
        const Value *cv = cb.getCalledOperand()->stripPointerCasts();
        if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
        const Function *cf = dyn_cast<Function>(cv);
        if (cf) {
          d.name = cf->getName().str();
          d.sub = cf->getIntrinsicID();
          if (!d.sub) {
            d.bi = findBuiltin(d.name);
            if (!d.bi && !cf->isDeclaration()) d.callee = fnInfo(cf);
          }
        } else
          d.a.push_back(opnd(cv));  // indirect: last operand is the target
        for (auto &A : cb.args()) flat(A->getType(), d.ty2);
        if (auto *iv = dyn_cast<InvokeInst>(&I)) d.e.push_back(edge(&B, iv->getNormalDest()));
        break;
      }
      case Instruction::Alloca: {
        auto &al = cast<AllocaInst>(I);
        d.off = DL->getTypeAllocSize(al.getAllocatedType()).getFixedValue();
        d.a.push_back(opnd(al.getArraySize()));
        break;
      }
      case Instruction::Store:
        d.a.push_back(opnd(I.getOperand(0)));
        d.a.push_back(opnd(I.getOperand(1)));
        flat(I.getOperand(0)->getType(), d.ty2);
        d.off = DL->getTypeStoreSize(I.getOperand(0)->getType()).getFixedValue();
        break;
      case Instruction::Load:
        d.a.push_back(opnd(I.getOperand(0)));
        d.off = DL->getTypeStoreSize(I.getType()).getFixedValue();
        break;
      case Instruction::ICmp: case Instruction::FCmp:
        d.sub = cast<CmpInst>(I).getPredicate();
        [[fallthrough]];
      default:
        for (auto &O : I.operands()) d.a.push_back(opnd(O.get()));
        if (I.getNumOperands()) flat(I.getOperand(0)->getType(), d.ty2);
        break;
      case Instruction::ExtractValue: {
        auto &x = cast<ExtractValueInst>(I);
        d.a.push_back(opnd(x.getOperand(0)));
        Type *t = x.getOperand(0)->getType();
        for (unsigned ix : x.indices()) {
          if (auto *st = dyn_cast<StructType>(t)) {
            for (unsigned k = 0; k < ix; k++) d.off += flatCount(st->getElementType(k));
            t = st->getElementType(ix);
          } else {
            auto *at = cast<ArrayType>(t);
            d.off += ix * flatCount(at->getElementType());
            t = at->getElementType();
          }
        }
        break;
      }
      case Instruction::InsertValue: {
        auto &x = cast<InsertValueInst>(I);
        d.a.push_back(opnd(x.getOperand(0)));
        d.a.push_back(opnd(x.getOperand(1)));
        Type *t = x.getOperand(0)->getType();
        for (unsigned ix : x.indices()) {
          if (auto *st = dyn_cast<StructType>(t)) {
            for (unsigned k = 0; k < ix; k++) d.off += flatCount(st->getElementType(k));
            t = st->getElementType(ix);
          } else {
            auto *at = cast<ArrayType>(t);
            d.off += ix * flatCount(at->getElementType());
            t = at->getElementType();
          }
        }
        break;
      }
      case Instruction::ShuffleVector: {
        auto &x = cast<ShuffleVectorInst>(I);
        d.a.push_back(opnd(x.getOperand(0)));
        d.a.push_back(opnd(x.getOperand(1)));
        for (int m : x.getShuffleMask()) d.mask.push_back((unsigned)m);
        break;
      }
      }
      db.in.push_back(std::move(d));
    }
  }
  computePostDom(f);
  computeLive(f);
  computeSpec(f);
}

// ---- register access -----------------------------------------------------------------------------
static inline E get(State &s, const Operand &o, int i = 0) {
  if (o.slot < 0) return o.c[i];
  E e = s.st.back()->r[o.slot + i];
  if (!e) {
    fprintf(stderr, "internal: undefined register in %s: %s\n", s.st.back()->fn->name.c_str(), curInst(s).c_str());
    abort();
  }
  return e;
}
static inline void setr(State &s, int slot, E v) { s.top().r[slot] = v; }

static void pushFrame(State &s, FnInfo *f, const std::vector<E> &args, const DInst *call) {
  if (!f->decoded) decode(*f);
  f->calls++;
  auto fr = std::make_shared<Frame>();
  fr->fn = f;
  fr->r.assign(f->nslots, nullptr);
  size_t k = 0;
  for (auto &a : f->args)
    for (int i = 0; i < a.second; i++) fr->r[a.first + i] = k < args.size() ? args[k++] : nullptr;
  fr->ret = call;
  s.st.push_back(fr);
  if (s.st.size() > 3000) {
    report(s, "memory", "unbounded recursion (stack overflow)", mkBool(true));
    s.dead = true;
  }
}
static void takeEdge(State &s, const Edge &e) {
  Frame &f = s.top();
  if (!e.phi.empty()) {
    std::vector<E> v;
    for (auto &p : e.phi)
      for (int i = 0; i < p.second.n; i++) v.push_back(p.second.slot < 0 ? p.second.c[i] : f.r[p.second.slot + i]);
    size_t k = 0;
    for (auto &p : e.phi)
      for (int i = 0; i < p.second.n; i++) f.r[p.first + i] = v[k++];
  }
  f.block = e.block;
  f.inst = 0;
  s.justEntered = true;
}
static void finishPath(State &s, const std::string &how);
static void doRet(State &s, const std::vector<E> &vals) {
  Frame &f = *s.st.back();
  for (uint32_t id : f.allocas) setFreed(s, id);
  const DInst *call = f.ret;
  s.st.pop_back();
  if (s.st.empty()) {
    s.ended = true;
    return;
  }
  if (!call) return;
  if (call->dst >= 0)
    for (int i = 0; i < call->nd; i++) setr(s, call->dst + i, vals[i]);
  if (call->op == Instruction::Invoke) takeEdge(s, call->e[0]);
  else s.top().inst++;
}

// ---- merging ----------------------------------------------------------------------------------------
static bool blockMergeInts(uint64_t a, uint64_t b) {
  if (looksPtr(a) || looksPtr(b)) return true;
  if (policy["merge_sizes"]) return false;
  return a < (1ull << 20) && b < (1ull << 20);
}
static bool mfail(State &a, const char *why, uint64_t x = 0, uint64_t y = 0, uint64_t at = 0) {
  static bool on = verbose && getenv("SX_MERGE");
  if (on) {
    uint32_t id = at ? objAt(at) : 0;
    fprintf(stderr, "nomerge %s %llx/%llx at %llx(%s) in %s\n", why, (unsigned long long)x, (unsigned long long)y, (unsigned long long)at, id ? (objs[id].name + "+" + std::to_string(at - objs[id].base)).c_str() : "", where(a).substr(0, 200).c_str());
  }
  return false;
}
static bool tryMerge(State &a, State &b) {
  if (a.st.size() != b.st.size()) return mfail(a, "depth");
  if (a.choices != b.choices || a.obs.size() != b.obs.size()) return false;
  if (policy["no_merge"]) return false;
  size_t d = a.st.size() - 1;
  for (size_t i = 0; i < d; i++)
    if (a.st[i] != b.st[i]) {
      // equal content required below the top
      if (a.st[i]->fn != b.st[i]->fn || a.st[i]->block != b.st[i]->block || a.st[i]->inst != b.st[i]->inst ||
          a.st[i]->r != b.st[i]->r)
        return mfail(a, "lower frame");
    }
  Frame &fa = *a.st[d], &fb = *b.st[d];
  if (fa.fn != fb.fn || fa.block != fb.block || fa.inst != fb.inst) return false;
  for (size_t i = 0; i < a.obs.size(); i++)
    if (a.obs[i].name != b.obs[i].name) return false;
  if (a.kf.size() != b.kf.size()) return false;
  for (size_t i = 0; i < a.kf.size(); i++)
    if (a.kf[i].id != b.kf[i].id || a.kf[i].cond != b.kf[i].cond) return false;
  // live registers: at a block start use the block's live-in set, otherwise all
  const std::vector<char> *live = nullptr;
  if (fa.inst == 0) live = &fa.fn->b[fa.block].live;
  auto okPair = [&](E x, E y) -> bool {
    if (x == y || !x || !y) return true;
    if (x->sort != y->sort || x->width != y->width) return false;
    if (x->sort == BV && x->width == 64) {
      if (x->isConst() && y->isConst()) return !blockMergeInts(x->cw, y->cw) || mfail(a, "reg const", x->cw, y->cw);
      if ((x->isConst() && looksPtr(x->cw)) || (y->isConst() && looksPtr(y->cw))) return mfail(a, "reg ptr");
    }
    return true;
  };
  for (size_t i = 0; i < fa.r.size(); i++) {
    if (live && !(*live)[i]) continue;
    if (fa.r[i] != fb.r[i] && !okPair(fa.r[i], fb.r[i])) return false;
  }
  std::vector<uint64_t> diffs;
  bool ok = Mem::diff(a.mem, b.mem, [&](uint64_t base, const Page *x, const Page *y) {
    if (!x || !y) {
      diffs.push_back(base);
      return true;
    }
    diffs.push_back(base);
    if (base >= SHADOW) {
      if (x && y)
        for (unsigned w = 0; w < 256; w++)
          if (x->data[w] != y->data[w] && x->data[w] && y->data[w]) return mfail(a, "freed in one", w);
      return true;
    }
    for (unsigned w = 0; w < 256; w += 8) {
      bool cx = true, cy = true, df = false, sizeUnk = false;
      uint64_t vx = 0, vy = 0;
      for (unsigned k = 0; k < 8; k++) {
        unsigned o = w + k;
        bool ix = x->isInit(o), iy = y->isInit(o);
        if (!ix || !iy) { if (!ix) cx = false; if (!iy) cy = false; }
        if (x->symAt(o)) cx = false; else vx |= (uint64_t)x->data[o] << (8 * k);
        if (y->symAt(o)) cy = false; else vy |= (uint64_t)y->data[o] << (8 * k);
        if (ix && iy) {
          E ex = x->symAt(o), ey = y->symAt(o);
          if (ex != ey || (ex ? x->sym[o].idx != y->sym[o].idx : x->data[o] != y->data[o])) df = true;
        }
      }
      (void)sizeUnk;
      if (!df) continue;
      if (cx && cy) {
        if (vx != vy && (looksPtr(vx) || looksPtr(vy) || ((x->isWide(w) || y->isWide(w)) && blockMergeInts(vx, vy)))) {
          return mfail(a, "mem const", vx, vy, base + w);
        }
      } else if ((cx && looksPtr(vx)) || (cy && looksPtr(vy)))
        return mfail(a, "mem ptr", vx, vy, base + w);
    }
    return true;
  });
  if (!ok) return false;
  // path conditions
  size_t p = 0;
  while (p < a.pc.size() && p < b.pc.size() && a.pc[p] == b.pc[p]) p++;
  E ra = mkBool(true), rb = mkBool(true);
  for (size_t i = p; i < a.pc.size(); i++) ra = mkAnd(ra, a.pc[i]);
  for (size_t i = p; i < b.pc.size(); i++) rb = mkAnd(rb, b.pc[i]);
  E c = ra;
  if (p < a.pc.size() && p < b.pc.size() && a.pc[p] == mkNot(b.pc[p])) c = a.pc[p];
  else if (p >= a.pc.size()) c = mkNot(rb);
  // memory
  for (uint64_t base : diffs) {
    const Page *x = a.mem.rd(base), *y = b.mem.rd(base);
    if (!y) continue;
    if (!x) {
      // take b's page
      for (unsigned o = 0; o < 256; o++)
        if (y->isInit(o) || base >= SHADOW) {
          Page *w = a.mem.wr(base);
          w->data[o] = y->data[o];
          w->setWide(o, y->isWide(o));
          if (y->isInit(o)) w->setInit(o);
          if (y->symAt(o)) {
            if (!w->sym) { w->sym = new SymByte[256]; memset((void *)w->sym, 0, sizeof(SymByte) * 256); }
            w->sym[o] = y->sym[o];
          }
        }
      continue;
    }
    if (base >= SHADOW) {
      Page *w = a.mem.wr(base);
      for (unsigned o = 0; o < 256; o++) w->data[o] |= y->data[o];
      continue;
    }
    Page *w = nullptr;
    for (unsigned o = 0; o < 256;) {
      bool ix = x->isInit(o), iy = y->isInit(o);
      if (!iy) { o++; continue; }
      if (!ix) {
        w = a.mem.wr(base);
        x = w;
        w->setInit(o);
        w->data[o] = y->data[o];
        if (y->symAt(o)) {
          if (!w->sym) { w->sym = new SymByte[256]; memset((void *)w->sym, 0, sizeof(SymByte) * 256); }
          w->sym[o] = y->sym[o];
        } else if (w->sym)
          w->sym[o].e = nullptr;
        o++;
        continue;
      }
      E ex = x->symAt(o), ey = y->symAt(o);
      bool same = ex == ey && (ex ? x->sym[o].idx == y->sym[o].idx : x->data[o] == y->data[o]);
      if (same) { o++; continue; }
      // extent of a word: try 8, 4, 2 aligned, all init in both
      unsigned len = 1;
      for (unsigned L : {8u, 4u, 2u}) {
        if (o % L || o + L > 256) continue;
        bool good = true;
        for (unsigned k = 0; k < L; k++) good &= x->isInit(o + k) && y->isInit(o + k);
        if (!good) continue;
        // do not glue separate entities: symbolic bytes must come from one expression per side
        auto uniform = [&](const Page *pg) {
          E e0 = pg->symAt(o);
          for (unsigned k = 1; k < L; k++)
            if (pg->symAt(o + k) != e0 || (e0 && pg->sym[o + k].idx != pg->sym[o].idx + k)) return false;
          return true;
        };
        if (L == 8) {
          // two ints? only glue when at least one side is a single 8-byte expression
          auto one = [&](const Page *pg) { E e0 = pg->symAt(o); return e0 && e0->width >= 64 && uniform(pg); };
          if (!(one(x) || one(y))) continue;
        } else if (!uniform(x) || !uniform(y))
          continue;
        len = L;
        break;
      }
      E va = loadBytes(a, base + o, len), vb = loadBytes(b, base + o, len);
      E m;
      if (va->op == TOBV && vb->op == TOBV) m = mkToBV(mkIte(c, va->kid[0], vb->kid[0]));
      else if ((va->op == TOBV && vb->isConst()) || (vb->op == TOBV && va->isConst()))
        m = mkToBV(mkIte(c, mkFromBV(va), mkFromBV(vb)));
      else m = mkIte(c, va, vb);
      storeBytes(a, base + o, m);
      x = a.mem.rd(base);
      o += len;
    }
  }
  Frame &ft = a.top();
  for (size_t i = 0; i < ft.r.size(); i++) {
    if (live && !(*live)[i]) { ft.r[i] = nullptr; continue; }
    E x = ft.r[i], y = fb.r[i];
    if (x == y) continue;
    if (!x || !y) { ft.r[i] = nullptr; continue; }
    ft.r[i] = mkIte(c, x, y);
  }
  for (uint32_t id : fb.allocas)
    if (std::find(ft.allocas.begin(), ft.allocas.end(), id) == ft.allocas.end()) ft.allocas.push_back(id);
  for (size_t i = 0; i < a.obs.size(); i++) {
    E x = a.obs[i].e, y = b.obs[i].e;
    if (x == y) continue;
    if (x->isFP()) { x = mkToBV(x); y = mkToBV(y); }
    a.obs[i].e = mkIte(c, x, y);
  }
  for (auto &in : b.inputs)
    if (std::find(a.inputs.begin(), a.inputs.end(), in) == a.inputs.end()) a.inputs.push_back(in);
  a.pc.resize(p);
  addPC(a, mkOr(ra, rb));
  a.steps = std::max(a.steps, b.steps);
  a.allocNode = mergeNodes(a.allocNode, b.allocNode);
  nMerges++;
  return true;
}
static int step(State &s, DInst &d);
// if-conversion at a branch with a symbolic condition; false = not possible here
static bool speculate(State &s, DInst &d, E c) {
  bool ov = policy["check_overflow"], sh = policy["check_shift"];
  FnInfo *fn = s.st.back()->fn;
  if (policy["no_merge"]) return false;
  for (int b : {d.spT, d.spF}) {
    if (b < 0) continue;
    auto &in = fn->b[b].in;
    for (size_t i = 0; i + 1 < in.size(); i++) {
      DInst &x = in[i];
      if (ov && x.nsw && (x.op == Instruction::Add || x.op == Instruction::Sub || x.op == Instruction::Mul)) return false;
      if (sh && (x.op == Instruction::Shl || x.op == Instruction::LShr || x.op == Instruction::AShr)) return false;
      if (x.op == Instruction::Load) {
        E a = get(s, x.a[0]);
        if (!a->isConst()) return false;
        uint64_t ad = a->u64(), n = x.off;
        uint32_t id = objAt(ad);
        if (!id) return false;
        const Obj &o = objs[id];
        if (o.kind == OBJ_FUNC || ad < o.base || n > o.size || ad - o.base > o.size - n || isFreed(s, id)) return false;
      }
      if (step(s, x) != OK) return false;
    }
  }
  const Edge &et = d.spT >= 0 ? fn->b[d.spT].in.back().e[0] : d.e[0];
  const Edge &ef = d.spF >= 0 ? fn->b[d.spF].in.back().e[0] : d.e[1];
  Frame &f = s.top();
  std::vector<E> v;
  for (size_t i = 0; i < et.phi.size(); i++) {
    const Operand &p = et.phi[i].second, *q = nullptr;
    for (auto &y : ef.phi) if (y.first == et.phi[i].first) q = &y.second;
    if (!q) return false;
    for (int k = 0; k < p.n; k++) {
      E x = p.slot < 0 ? p.c[k] : f.r[p.slot + k], y = q->slot < 0 ? q->c[k] : f.r[q->slot + k];
      if (!x || !y) return false;
      if (x != y) {
        if (x->sort != y->sort || x->width != y->width) return false;
        if (x->sort == BV && x->width == 64) {
          if (x->isConst() && y->isConst() && blockMergeInts(x->cw, y->cw)) return false;
          if ((x->isConst() && looksPtr(x->cw)) || (y->isConst() && looksPtr(y->cw))) return false;
        }
        x = mkIte(c, x, y);
      }
      v.push_back(x);
    }
  }
  size_t k = 0;
  for (auto &p : et.phi)
    for (int i = 0; i < p.second.n; i++) f.r[p.first + i] = v[k++];
  f.block = d.spJ;
  f.inst = 0;
  s.justEntered = true;
  nSpec++;
  return true;
}
static void mergeAll(std::vector<State *> &v) {
  if (v.size() < 2) return;
  bool ch = true;
  while (ch && v.size() > 1) {
    ch = false;
    for (size_t i = 0; i + 1 < v.size() && !ch; i++)
      for (size_t j = i + 1; j < v.size(); j++)
        if (tryMerge(*v[i], *v[j])) {
          delete v[j];
          v.erase(v.begin() + j);
          ch = true;
          break;
        } else
          nMergeFail++;
    if (v.size() > 24) break;
  }
}

// ---- floating conversions ------------------------------------------------------------------------
static E fpc(unsigned w, double d) { return w == 64 ? mkFP(APFloat(d)) : mkFP(APFloat((float)d)); }
static E fToSI(State &s, E a, unsigned w) {
  if (a->isConst()) {
    // x86: cvttsd2si 32/64, narrower results are truncations of the 32-bit conversion
    if (w < 32) return mkExtract(mkFToI(FTOSI, a, 32), 0, w);
    return mkFToI(FTOSI, a, w);
  }
  if (realMode) return mkFToI(FTOSI, a, w);
  unsigned ww = w < 32 ? 32 : w;
  E r = mkFToI(FTOSI, a, ww);
  if (r->op == FTOSI) {
    double lim = std::ldexp(1.0, ww - 1);
    E in;
    if (ww == 32 && a->width == 64) in = mkAnd(mkFCmp(FLT, fpc(64, -lim - 1), a), mkFCmp(FLT, a, fpc(64, lim)));
    else in = mkAnd(mkFCmp(FLE, fpc(a->width, -lim), a), mkFCmp(FLT, a, fpc(a->width, lim)));
    E out = mkNot(in);
    if (policy["check_fptoint"]) {
      if (!check(s, "undefined", "float to integer conversion out of range", out)) return r;
    } else if (checkSliced(s.pc, out, feasTimeout, nullptr, false) != Sat::UNSAT)
      r = mkIte(in, r, mkConst(APInt::getSignedMinValue(ww)));
  }
  return ww == w ? r : mkExtract(r, 0, w);
}
static E fToUI(State &s, E a, unsigned w) {
  if (a->isConst()) {
    if (w < 32) return mkExtract(mkFToI(FTOSI, a, 32), 0, w);
    if (w == 32) return mkExtract(mkFToI(FTOSI, a, 64), 0, 32);
    return mkFToI(FTOUI, a, w);
  }
  if (realMode) return mkFToI(FTOUI, a, w);
  E r = mkFToI(FTOUI, a, w);
  if (r->op != FTOUI) return r;
  double lim = std::ldexp(1.0, w);
  E in = mkAnd(mkFCmp(FLT, fpc(a->width, -1.0), a), mkFCmp(FLT, a, fpc(a->width, lim)));
  E out = mkNot(in);
  if (policy["check_fptoint"]) {
    check(s, "undefined", "float to unsigned conversion out of range", out);
    return r;
  }
  if (checkSliced(s.pc, out, feasTimeout, nullptr, false) == Sat::UNSAT) return r;
  if (w < 32) return mkExtract(fToSI(s, a, 32), 0, w);
  if (w == 32) return mkIte(in, r, mkExtract(fToSI(s, a, 64), 0, 32));
  E half = fpc(a->width, std::ldexp(1.0, 63));
  return mkIte(in, r, mkIte(mkFCmp(FLT, a, half), fToSI(s, a, 64), fToSI(s, mkFBin(FSUB, a, half), 64)));
}

// ---- builtins ----------------------------------------------------------------------------------------
static std::string cstr(State &s, E p) {
  std::string r;
  if (!p->isConst()) return "<symbolic>";
  uint64_t a = p->u64();
  for (int i = 0; i < 400; i++) {
    if (!objAt(a + i)) break;
    E b = loadBytes(s, a + i, 1);
    if (!b->isConst()) { r += '?'; continue; }
    if (!b->cw) break;
    r += (char)b->cw;
  }
  return r;
}
static std::string uniqueInput(State &s, const std::string &n) {
  int k = 0;
  for (auto &in : s.inputs)
    if (in.first == n || in.first.rfind(n + "#", 0) == 0) k++;
  return k ? n + "#" + std::to_string(k) : n;
}
static int bi_input(State &s, DInst &d) {  // uint64 sx_raw(const char* name, int bits)
  std::string n = uniqueInput(s, cstr(s, get(s, d.a[0])));
  unsigned w = get(s, d.a[1])->u64();
  E v = mkVar(n, BV, w);
  s.inputs.push_back({n, v});
  setr(s, d.dst, mkZExt(v, 64));
  return OK;
}
static int bi_f64(State &s, DInst &d) {
  std::string n = uniqueInput(s, cstr(s, get(s, d.a[0])));
  E v = realMode ? mkVar(n, FP, 64) : mkVar(n, BV, 64);
  s.inputs.push_back({n, v});
  setr(s, d.dst, realMode ? v : mkFromBV(v));
  return OK;
}
static int bi_f32(State &s, DInst &d) {
  std::string n = uniqueInput(s, cstr(s, get(s, d.a[0])));
  E v = realMode ? mkVar(n, FP, 32) : mkVar(n, BV, 32);
  s.inputs.push_back({n, v});
  setr(s, d.dst, realMode ? v : mkFromBV(v));
  return OK;
}
static int bi_choice(State &s, DInst &d) {
  std::string n = cstr(s, get(s, d.a[0]));
  int k = get(s, d.a[1])->u64();
  int cnt = 0;
  for (auto &c : s.choices)
    if (c.first == n || c.first.rfind(n + "#", 0) == 0) cnt++;
  if (cnt) n += "#" + std::to_string(cnt);
  forkOut.clear();
  // a state belongs to the shards [lo, hi); every choice splits that range, so that no path runs in two shards
  // once it made enough choices
  int lo = s.shardLo, hi = s.shardHi, r = hi - lo;
  for (int i = 0; i < k; i++) {
    int l = lo, h = hi;
    if (r > 1 && k <= r) {
      l = lo + (int)((int64_t)r * i / k);
      h = lo + (int)((int64_t)r * (i + 1) / k);
    } else if (r > 1) {
      l = lo + i % r;
      h = l + 1;
    }
    if (shard < l || shard >= h) continue;
    State *t = new State(s);
    t->shardLo = l;
    t->shardHi = h;
    t->choices.push_back({n, i});
    setr(*t, d.dst, mkU(32, i));
    t->top().inst++;
    if (d.op == Instruction::Invoke) takeEdge(*t, d.e[0]);
    forkOut.push_back(t);
  }
  nForks += k - 1;
  return FORKED;
}
static int bi_assume(State &s, DInst &d) {
  E c = get(s, d.a[0]);
  if (c->width > 1) c = mkNot(mkEq(c, mkU(c->width, 0)));
  if (c->isFalse()) return DEAD;
  addPC(s, c);
  if (!c->isTrue() && checkSat(s.pc, feasTimeout, nullptr, false) == Sat::UNSAT) return DEAD;
  return OK;
}
static int bi_assert(State &s, DInst &d) {
  E c = get(s, d.a[0]);
  if (c->width > 1) c = mkNot(mkEq(c, mkU(c->width, 0)));
  std::string msg = cstr(s, get(s, d.a[1]));
  assertSites.insert(msg);
  if (c->isTrue() || inPC(s, c)) { stats.assertsTrivial++; return OK; }
  if (!report(s, "assert", msg, mkNot(c))) return DEAD;
  return OK;
}
static int bi_cover(State &s, DInst &d) {
  covers[cstr(s, get(s, d.a[0]))]++;
  return OK;
}
static int bi_observe(State &s, DInst &d) {
  s.obs.push_back({cstr(s, get(s, d.a[0])), get(s, d.a[1])});
  return OK;
}
static int bi_observef(State &s, DInst &d) {
  s.obs.push_back({cstr(s, get(s, d.a[0])), mkToBV(get(s, d.a[1]))});
  return OK;
}
static int bi_policy(State &s, DInst &d) {
  std::string n = cstr(s, get(s, d.a[0]));
  int64_t v = get(s, d.a[1])->s64();
  if (n == "max_steps") maxSteps = v;
  policy[n] = v;
  return OK;
}
static int bi_kf(State &s, DInst &d) {  // sx_kf_region(id, cond)
  E c = get(s, d.a[1]);
  if (c->width > 1) c = mkNot(mkEq(c, mkU(c->width, 0)));
  std::string id = cstr(s, get(s, d.a[0]));
  if (knownFindings.count(id) && !c->isFalse()) s.kf.push_back({id, c});
  return OK;
}
static int bi_kf_listed(State &s, DInst &d) {
  setr(s, d.dst, mkU(32, knownFindings.count(cstr(s, get(s, d.a[0])))));
  return OK;
}
static int bi_concretize(State &s, DInst &d) {
  E v = get(s, d.a[0]);
  if (!v->isConst()) { concSlot = d.a[0].slot; return CONCRETIZE; }
  setr(s, d.dst, v);
  return OK;
}
static int bi_is_symbolic(State &s, DInst &d) {
  setr(s, d.dst, mkU(32, 1));
  return OK;
}
static int bi_print(State &s, DInst &d) {
  fprintf(stderr, "[print] %s %s\n", cstr(s, get(s, d.a[0])).c_str(), str(get(s, d.a[1]), 8).c_str());
  return OK;
}
static int bi_fail(State &s, DInst &d) {
  report(s, "assert", cstr(s, get(s, d.a[0])), mkBool(true));
  return DEAD;
}
static int bi_done(State &s, DInst &d) {
  s.ended = true;
  return OK;
}
static int allocImpl(State &s, DInst &d, const Operand &szo, bool zero) {
  E n = get(s, szo);
  if (!n->isConst()) { concSlot = szo.slot; return CONCRETIZE; }
  uint64_t sz = n->u64();
  if (sz > (64ull << 20)) {
    if (policy["huge_alloc_is_error"]) { report(s, "memory", "huge allocation", mkBool(true)); return DEAD; }
    nThrows++;
    if (!policy["allow_throw"]) report(s, "throw", "std::bad_alloc / huge allocation", mkBool(true));
    else covers["throw"]++;
    return DEAD;
  }
  uint32_t id = allocObj(s, sz, OBJ_HEAP, "heap");
  if (zero)
    for (uint64_t i = 0; i < sz; i++) storeBytes(s, objs[id].base + i, mkU(8, 0));
  setr(s, d.dst, mkU(64, objs[id].base));
  return OK;
}
static int bi_new(State &s, DInst &d) { return allocImpl(s, d, d.a[0], false); }
static int bi_free(State &s, DInst &d) {
  E p = get(s, d.a[0]);
  if (!p->isConst()) {
    if (p->op == ITE && p->kid[1]->isConst() && p->kid[2]->isConst() && d.a[0].slot >= 0) { concSlot = d.a[0].slot; return CONCRETIZE; }
    concSlot = d.a[0].slot;
    return CONCRETIZE;
  }
  uint64_t a = p->u64();
  if (!a) return OK;
  uint32_t id = objAt(a);
  if (!id || objs[id].base != a || objs[id].kind != OBJ_HEAP) {
    report(s, "memory", "invalid free", mkBool(true));
    return DEAD;
  }
  if (isFreed(s, id)) { report(s, "memory", "double free", mkBool(true)); return DEAD; }
  setFreed(s, id);
  return OK;
}
static int bi_abort(State &s, DInst &d) {
  report(s, "abort", "abnormal termination via " + d.name, mkBool(true));
  return DEAD;
}
static int bi_exit(State &s, DInst &d) {
  s.ended = true;
  return OK;
}
static int doThrow(State &s, const std::string &what) {
  nThrows++;
  if (policy["allow_throw"]) { covers["throw"]++; finishPath(s, "throw"); }
  else report(s, "throw", "uncaught exception " + what, mkBool(true));
  return DEAD;
}
static int bi_throw(State &s, DInst &d) {
  std::string n = d.name;
  if (n == "__cxa_throw") {
    E ti = get(s, d.a[1]);
    if (ti->isConst() && objAt(ti->u64())) n = demangle(objs[objAt(ti->u64())].name);
  } else
    n = demangle(n);
  return doThrow(s, n);
}
static int bi_nop(State &s, DInst &d) {
  for (int i = 0; i < d.nd; i++) setr(s, d.dst + i, d.ty[i].fp ? mkFPBits(d.ty[i].w, 0) : mkU(d.ty[i].w, 0));
  return OK;
}
static int bi_arg0(State &s, DInst &d) {
  if (d.nd) setr(s, d.dst, get(s, d.a[0]));
  return OK;
}
static int memConst(State &s, DInst &d, int k, uint64_t &v) {
  E e = get(s, d.a[k]);
  if (!e->isConst()) { concSlot = d.a[k].slot; return CONCRETIZE; }
  v = e->u64();
  return OK;
}
static int rangeOk(State &s, uint64_t a, uint64_t n, bool wr) {
  if (!n) return OK;
  std::vector<Target> t;
  return resolve(s, mkU(64, a), n, wr, nullptr, t);
}
static int bi_memcpy(State &s, DInst &d) {
  uint64_t dst, src, n;
  int r;
  if ((r = memConst(s, d, 2, n))) return r;
  if ((r = memConst(s, d, 0, dst))) return r;
  E se = get(s, d.a[1]);
  if (!se->isConst() && n && n <= 64) {
    std::vector<Target> t;
    if ((r = rangeOk(s, dst, n, true))) return r;
    r = resolve(s, se, n, false, nullptr, t);
    if (r == CONCRETIZE) concSlot = d.a[1].slot;
    if (r) return r;
    if (t.empty()) return DEAD;
    std::vector<std::pair<uint64_t, E>> w;
    for (uint64_t i = 0; i < n;) {
      unsigned k = n - i >= 8 ? 8 : 1;
      w.push_back({dst + i, rawLoad(s, t, k, i)});
      i += k;
    }
    for (auto &x : w) storeBytes(s, x.first, x.second);
    if (d.nd) setr(s, d.dst, mkU(64, dst));
    return OK;
  }
  if ((r = memConst(s, d, 1, src))) return r;
  if ((r = rangeOk(s, dst, n, true))) return r;
  if ((r = rangeOk(s, src, n, false))) return r;
  copyBytes(s, dst, src, n);
  if (d.nd) setr(s, d.dst, mkU(64, dst));
  return OK;
}
static int bi_memset(State &s, DInst &d) {
  uint64_t dst, n;
  int r;
  if ((r = memConst(s, d, 2, n))) return r;
  if ((r = memConst(s, d, 0, dst))) return r;
  if ((r = rangeOk(s, dst, n, true))) return r;
  E v = mkExtract(get(s, d.a[1]), 0, 8);
  for (uint64_t i = 0; i < n; i++) storeBytes(s, dst + i, v);
  if (d.nd) setr(s, d.dst, mkU(64, dst));
  return OK;
}
static int bi_memcmp(State &s, DInst &d) {
  uint64_t a, b, n;
  int r;
  if ((r = memConst(s, d, 2, n))) return r;
  if ((r = memConst(s, d, 0, a))) return r;
  if ((r = memConst(s, d, 1, b))) return r;
  if ((r = rangeOk(s, a, n, false))) return r;
  if ((r = rangeOk(s, b, n, false))) return r;
  E res = mkU(32, 0);
  for (uint64_t i = n; i-- > 0;) {
    E x = loadBytes(s, a + i, 1), y = loadBytes(s, b + i, 1);
    E df = mkSub(mkZExt(x, 32), mkZExt(y, 32));
    res = mkIte(mkEq(x, y), res, df);
  }
  setr(s, d.dst, res);
  return OK;
}
static int bi_strlen(State &s, DInst &d) {
  uint64_t a;
  int r;
  if ((r = memConst(s, d, 0, a))) return r;
  // symbolic bytes: fork would be needed; build an ite over positions up to the object end
  uint32_t id = objAt(a);
  if (!id) { report(s, "memory", "strlen of invalid pointer", mkBool(true)); return DEAD; }
  uint64_t end = objs[id].base + objs[id].size;
  std::vector<E> z;
  uint64_t i = a;
  bool term = false;
  for (; i < end; i++) {
    E b = loadBytes(s, i, 1);
    E e = mkEq(b, mkU(8, 0));
    z.push_back(e);
    if (e->isTrue()) { term = true; break; }
  }
  if (!term) {
    E any = mkBool(false);
    for (E e : z) any = mkOr(any, e);
    if (!check(s, "memory", "unterminated string read", mkNot(any))) return DEAD;
  }
  E res = mkU(64, z.empty() ? 0 : z.size() - 1);
  for (size_t k = z.size(); k-- > 0;) res = mkIte(z[k], mkU(64, k), res);
  setr(s, d.dst, res);
  return OK;
}
static int bi_memchr(State &s, DInst &d) {
  uint64_t a, n;
  int r;
  if ((r = memConst(s, d, 2, n))) return r;
  if ((r = memConst(s, d, 0, a))) return r;
  E c = mkExtract(get(s, d.a[1]), 0, 8);
  uint64_t lim = n;
  uint32_t id = objAt(a);
  if (id && a + lim > objs[id].base + objs[id].size) lim = objs[id].base + objs[id].size - a;
  E res = mkU(64, 0);
  for (uint64_t i = lim; i-- > 0;) res = mkIte(mkEq(loadBytes(s, a + i, 1), c), mkU(64, a + i), res);
  setr(s, d.dst, res);
  return OK;
}
static int bi_guard_acquire(State &s, DInst &d) {
  E b = loadBytes(s, get(s, d.a[0])->u64(), 1);
  setr(s, d.dst, mkU(32, b->isConst() && b->cw ? 0 : 1));
  return OK;
}
static int bi_guard_release(State &s, DInst &d) {
  storeBytes(s, get(s, d.a[0])->u64(), mkU(8, 1));
  return OK;
}
// libm
static int libm1(State &s, DInst &d, const char *fn, double (*f)(double), float (*g)(float)) {
  E a = get(s, d.a[0]);
  if (a->isConst()) {
    if (a->width == 64) setr(s, d.dst, mkFP(APFloat(f(toAPF(a).convertToDouble()))));
    else setr(s, d.dst, mkFP(APFloat(g(toAPF(a).convertToFloat()))));
    return OK;
  }
  E r = mkUF(std::string(fn) + std::to_string(a->width), {a}, FP, a->width);
  std::string n = fn;
  if (n == "sin" || n == "cos") {
    addPC(s, mkAnd(mkFCmp(FLE, fpc(a->width, -1), r), mkFCmp(FLE, r, fpc(a->width, 1))));
  } else if (n == "exp" || n == "exp2") {
    addPC(s, mkOr(mkFCmp(FISNAN, r, nullptr), mkFCmp(FLE, fpc(a->width, 0), r)));
  }
  setr(s, d.dst, r);
  return OK;
}
#define LIBM1(n)                                                             \
  static int bi_##n(State &s, DInst &d) { return libm1(s, d, #n, ::n, ::n##f); }
LIBM1(sin) LIBM1(cos) LIBM1(tan) LIBM1(exp) LIBM1(exp2) LIBM1(log) LIBM1(log2) LIBM1(log10) LIBM1(atan) LIBM1(asin) LIBM1(acos)
LIBM1(tanh) LIBM1(sinh) LIBM1(cosh) LIBM1(cbrt)
static int bi_pow(State &s, DInst &d) {
  E a = get(s, d.a[0]), b = get(s, d.a[1]);
  if (a->isConst() && b->isConst()) {
    if (a->width == 64) setr(s, d.dst, mkFP(APFloat(::pow(toAPF(a).convertToDouble(), toAPF(b).convertToDouble()))));
    else setr(s, d.dst, mkFP(APFloat(::powf(toAPF(a).convertToFloat(), toAPF(b).convertToFloat()))));
    return OK;
  }
  if (b->isConst() && toAPF(b).isExactlyValue(2.0)) { setr(s, d.dst, mkFBin(FMUL, a, a)); return OK; }
  if (b->isConst() && toAPF(b).isExactlyValue(1.0)) { setr(s, d.dst, a); return OK; }
  if (b->isConst() && toAPF(b).isZero()) { setr(s, d.dst, fpc(a->width, 1)); return OK; }
  // pow(2, integer expression with few values): exact powers via ite
  if (a->isConst() && (b->op == SITOF || b->op == UITOF)) {
    E k = b->kid[0];
    if (k->width <= 8) {
      unsigned n = 1u << k->width;
      E r = nullptr;
      for (unsigned i = 0; i < n; i++) {
        double x = b->op == SITOF ? (double)APInt(k->width, i).getSExtValue() : (double)i;
        double base = a->width == 64 ? toAPF(a).convertToDouble() : toAPF(a).convertToFloat();
        E v = a->width == 64 ? mkFP(APFloat(::pow(base, x))) : mkFP(APFloat(::powf(base, x)));
        r = r ? mkIte(mkEq(k, mkU(k->width, i)), v, r) : v;
      }
      setr(s, d.dst, r);
      return OK;
    }
  }
  E r = mkUF("pow" + std::to_string(a->width), {a, b}, FP, a->width);
  setr(s, d.dst, r);
  return OK;
}
static int bi_fmod(State &s, DInst &d) {
  E a = get(s, d.a[0]), b = get(s, d.a[1]);
  if (a->isConst() && b->isConst()) { setr(s, d.dst, mkFBin(FREM, a, b)); return OK; }
  setr(s, d.dst, mkUF("fmod" + std::to_string(a->width), {a, b}, FP, a->width));
  return OK;
}
template <int MODE> static int bi_round(State &s, DInst &d) {
  setr(s, d.dst, mkFUn(FROUND, get(s, d.a[0]), MODE));
  return OK;
}
static int bi_fabs(State &s, DInst &d) { setr(s, d.dst, mkFUn(FABS, get(s, d.a[0]))); return OK; }
static int bi_sqrt(State &s, DInst &d) { setr(s, d.dst, mkFUn(FSQRT, get(s, d.a[0]))); return OK; }
static int bi_fmin(State &s, DInst &d) { setr(s, d.dst, mkFBin(FMIN, get(s, d.a[0]), get(s, d.a[1]))); return OK; }
static int bi_fmax(State &s, DInst &d) { setr(s, d.dst, mkFBin(FMAX, get(s, d.a[0]), get(s, d.a[1]))); return OK; }
static int bi_lround(State &s, DInst &d) {
  E a = mkFUn(FROUND, get(s, d.a[0]), RM_NA);
  setr(s, d.dst, fToSI(s, a, 64));
  return OK;
}
static int bi_ldexp(State &s, DInst &d) {
  E a = get(s, d.a[0]), b = get(s, d.a[1]);
  if (b->isConst()) { setr(s, d.dst, mkFBin(FMUL, a, fpc(a->width, std::ldexp(1.0, (int)b->s64())))); return OK; }
  concSlot = d.a[1].slot;
  return CONCRETIZE;
}
static int bi_abs(State &s, DInst &d) {
  E a = get(s, d.a[0]);
  setr(s, d.dst, mkIte(mkSlt(a, mkU(a->width, 0)), mkNeg(a), a));
  return OK;
}
static int bi_tolower(State &s, DInst &d) {
  E a = get(s, d.a[0]);
  E up = mkAnd(mkSle(mkU(32, 'A'), a), mkSle(a, mkU(32, 'Z')));
  setr(s, d.dst, mkIte(up, mkAdd(a, mkU(32, 32)), a));
  return OK;
}
static int bi_toupper(State &s, DInst &d) {
  E a = get(s, d.a[0]);
  E up = mkAnd(mkSle(mkU(32, 'a'), a), mkSle(a, mkU(32, 'z')));
  setr(s, d.dst, mkIte(up, mkAdd(a, mkU(32, (uint64_t)-32)), a));
  return OK;
}
static int bi_objsize(State &s, DInst &d) {
  E p = get(s, d.a[0]);
  if (!p->isConst()) { concSlot = d.a[0].slot; return CONCRETIZE; }
  uint32_t id = objAt(p->u64());
  setr(s, d.dst, mkU(64, id ? objs[id].size : 0));
  return OK;
}
static int bi_one(State &s, DInst &d) {
  for (int i = 0; i < d.nd; i++) setr(s, d.dst + i, mkU(d.ty[i].w, 1));
  return OK;
}
static void initBuiltins() {
  auto &b = builtins;
  b["sx_raw"] = bi_input; b["sx_raw_f64"] = bi_f64; b["sx_raw_f32"] = bi_f32;
  b["sx_choice"] = bi_choice; b["sx_assume_"] = bi_assume; b["sx_assert_"] = bi_assert;
  b["sx_cover"] = bi_cover; b["sx_observe_u"] = bi_observe; b["sx_observe_d"] = bi_observef;
  b["sx_policy"] = bi_policy; b["sx_kf_region_"] = bi_kf; b["sx_kf_listed"] = bi_kf_listed;
  b["sx_concretize_"] = bi_concretize; b["sx_symbolic"] = bi_is_symbolic; b["sx_print"] = bi_print;
  b["sx_fail"] = bi_fail; b["sx_done"] = bi_done;
  for (const char *n : {"_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "__cxa_allocate_exception"}) b[n] = bi_new;
  for (const char *n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) b[n] = bi_free;
  for (const char *n : {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "__clang_call_terminate", "__assert_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_"}) b[n] = bi_abort;
  for (const char *n : {"exit", "_exit"}) b[n] = bi_exit;
  for (const char *n : {"__cxa_throw", "__cxa_rethrow"}) b[n] = bi_throw;
  for (const char *n : {"__cxa_atexit", "atexit", "__cxa_free_exception", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev", "_ZNSt9exceptionD2Ev", "printf", "puts", "putchar", "fflush", "fprintf", "srand"}) b[n] = bi_nop;
  for (const char *n : {"_ZNSolsEi", "_ZNSolsEd", "_ZNSolsEf", "_ZNSolsEj", "_ZNSolsEm", "_ZNSolsEl", "_ZNSolsEb", "_ZNSolsEPFRSoS_E", "_ZNSo9_M_insertIdEERSoT_", "_ZNSo9_M_insertImEERSoT_", "_ZNSo9_M_insertIlEERSoT_", "_ZNSo9_M_insertIbEERSoT_", "_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", "_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"}) b[n] = bi_arg0;
  b["sxObjSize"] = bi_objsize; b["_Z9sxObjSizePv"] = bi_objsize; b["_ZSt21ios_base_library_initv"] = bi_nop;
  b["memcpy"] = b["memmove"] = bi_memcpy; b["memset"] = bi_memset; b["memcmp"] = b["bcmp"] = bi_memcmp; b["strlen"] = bi_strlen; b["memchr"] = bi_memchr;
  b["__cxa_guard_acquire"] = bi_guard_acquire; b["__cxa_guard_release"] = bi_guard_release; b["__cxa_guard_abort"] = bi_nop;
#define R1(n) b[#n] = bi_##n; b[#n "f"] = bi_##n;
  R1(sin) R1(cos) R1(tan) R1(exp) R1(exp2) R1(log) R1(log2) R1(log10) R1(atan) R1(asin) R1(acos) R1(tanh) R1(sinh) R1(cosh) R1(cbrt) R1(pow) R1(fmod) R1(ldexp)
  b["floor"] = b["floorf"] = bi_round<RM_DN>; b["ceil"] = b["ceilf"] = bi_round<RM_UP>;
  b["trunc"] = b["truncf"] = bi_round<RM_Z>; b["round"] = b["roundf"] = bi_round<RM_NA>;
  b["rint"] = b["rintf"] = b["nearbyint"] = b["nearbyintf"] = bi_round<RM_NE>;
  b["fabs"] = b["fabsf"] = bi_fabs; b["sqrt"] = b["sqrtf"] = bi_sqrt; b["fmin"] = b["fminf"] = bi_fmin; b["fmax"] = b["fmaxf"] = bi_fmax;
  b["lround"] = b["lroundf"] = b["llround"] = b["llroundf"] = bi_lround;
  b["abs"] = b["labs"] = bi_abs; b["tolower"] = bi_tolower; b["toupper"] = bi_toupper;
  b["__cxa_begin_catch"] = bi_arg0;
  b["__cxa_end_catch"] = bi_nop;
}
static Builtin findBuiltin(const std::string &n) {
  auto it = builtins.find(n);
  if (it != builtins.end()) return it->second;
  if (n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != std::string::npos) return bi_throw;
  if (n.rfind("_ZNSt", 0) == 0 && (n.find("errorC") != std::string::npos || n.find("errorD") != std::string::npos || n.find("argumentC") != std::string::npos || n.find("argumentD") != std::string::npos || n.find("exceptionC") != std::string::npos || n.find("out_of_rangeC") != std::string::npos || n.find("out_of_rangeD") != std::string::npos)) return bi_nop;
  return nullptr;
}

// ---- intrinsics --------------------------------------------------------------------------------------
static E popcount(E a) {
  E r = mkU(a->width, 0);
  for (unsigned i = 0; i < a->width; i++) r = mkAdd(r, mkZExt(mkExtract(a, i, 1), a->width));
  return r;
}
static int intrinsic(State &s, DInst &d) {
  auto A = [&](int i, int k = 0) { return get(s, d.a[i], k); };
  auto each = [&](auto f) {
    std::vector<E> out;
    for (int k = 0; k < d.nd; k++) out.push_back(f(k));
    for (int k = 0; k < d.nd; k++) setr(s, d.dst + k, out[k]);
    return OK;
  };
  auto sat1 = [&](bool sgn, bool sub) {
    return each([&](int k) {
      E x = A(0, k), y = A(1, k);
      unsigned w = x->width;
      E X = sgn ? mkSExt(x, w + 1) : mkZExt(x, w + 1), Y = sgn ? mkSExt(y, w + 1) : mkZExt(y, w + 1);
      E r = sub ? mkSub(X, Y) : mkAdd(X, Y);
      E lo = mkExtract(r, 0, w);
      if (!sgn) {
        E ov = mkExtract(r, w, 1);
        return mkIte(ov, sub ? mkU(w, 0) : mkConst(APInt::getAllOnes(w)), lo);
      }
      E ov = mkXor(mkExtract(r, w, 1), mkExtract(r, w - 1, 1));
      return mkIte(ov, mkIte(mkExtract(r, w, 1), mkConst(APInt::getSignedMinValue(w)), mkConst(APInt::getSignedMaxValue(w))), lo);
    });
  };
  auto ovf = [&](int kind, bool sgn) {  // 0 add 1 sub 2 mul
    E x = A(0), y = A(1);
    unsigned w = x->width, ww = kind == 2 ? 2 * w : w + 1;
    E X = sgn ? mkSExt(x, ww) : mkZExt(x, ww), Y = sgn ? mkSExt(y, ww) : mkZExt(y, ww);
    E r = kind == 0 ? mkAdd(X, Y) : kind == 1 ? mkSub(X, Y) : mkMul(X, Y);
    E lo = kind == 0 ? mkAdd(x, y) : kind == 1 ? mkSub(x, y) : mkMul(x, y);
    E o = mkNot(mkEq(r, sgn ? mkSExt(mkExtract(r, 0, w), ww) : mkZExt(mkExtract(r, 0, w), ww)));
    setr(s, d.dst, lo);
    setr(s, d.dst + 1, o);
    return OK;
  };
  switch (d.sub) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return bi_memcpy(s, d);
  case Intrinsic::memset: case Intrinsic::memset_inline: return bi_memset(s, d);
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
  case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::donothing:
  case Intrinsic::prefetch: return OK;
  case Intrinsic::invariant_start: case Intrinsic::stacksave: setr(s, d.dst, mkU(64, 0)); return OK;
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy:
  case Intrinsic::threadlocal_address: return each([&](int k) { return A(0, k); });
  case Intrinsic::umax: return each([&](int k) { return mkIte(mkUlt(A(0, k), A(1, k)), A(1, k), A(0, k)); });
  case Intrinsic::umin: return each([&](int k) { return mkIte(mkUlt(A(0, k), A(1, k)), A(0, k), A(1, k)); });
  case Intrinsic::smax: return each([&](int k) { return mkIte(mkSlt(A(0, k), A(1, k)), A(1, k), A(0, k)); });
  case Intrinsic::smin: return each([&](int k) { return mkIte(mkSlt(A(0, k), A(1, k)), A(0, k), A(1, k)); });
  case Intrinsic::abs: return each([&](int k) { E x = A(0, k); return mkIte(mkSlt(x, mkU(x->width, 0)), mkNeg(x), x); });
  case Intrinsic::ctpop: return each([&](int k) { return popcount(A(0, k)); });
  case Intrinsic::ctlz: return each([&](int k) {
    E x = A(0, k), r = mkU(x->width, x->width);
    for (unsigned i = 0; i < x->width; i++) r = mkIte(mkExtract(x, i, 1), mkU(x->width, x->width - 1 - i), r);
    return r;
  });
  case Intrinsic::cttz: return each([&](int k) {
    E x = A(0, k), r = mkU(x->width, x->width);
    for (unsigned i = x->width; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkU(x->width, i), r);
    return r;
  });
  case Intrinsic::bswap: return each([&](int k) {
    E x = A(0, k);
    std::vector<E> v;
    for (unsigned i = 0; i < x->width; i += 8) v.push_back(mkExtract(x, i, 8));
    return mkConcat(v);
  });
  case Intrinsic::bitreverse: return each([&](int k) {
    E x = A(0, k);
    std::vector<E> v;
    for (unsigned i = 0; i < x->width; i++) v.push_back(mkExtract(x, i, 1));
    return mkConcat(v);
  });
  case Intrinsic::fshl: case Intrinsic::fshr: return each([&](int k) {
    E x = A(0, k), y = A(1, k), z = A(2, k);
    unsigned w = x->width;
    E sh = mkURem(z, mkU(w, w));
    E c = mkConcat({x, y});
    E s2 = mkZExt(sh, 2 * w);
    if (d.sub == Intrinsic::fshl) return mkExtract(mkShl(c, s2), w, w);
    return mkExtract(mkLShr(c, s2), 0, w);
  });
  case Intrinsic::uadd_with_overflow: return ovf(0, false);
  case Intrinsic::sadd_with_overflow: return ovf(0, true);
  case Intrinsic::usub_with_overflow: return ovf(1, false);
  case Intrinsic::ssub_with_overflow: return ovf(1, true);
  case Intrinsic::umul_with_overflow: return ovf(2, false);
  case Intrinsic::smul_with_overflow: return ovf(2, true);
  case Intrinsic::uadd_sat: return sat1(false, false);
  case Intrinsic::usub_sat: return sat1(false, true);
  case Intrinsic::sadd_sat: return sat1(true, false);
  case Intrinsic::ssub_sat: return sat1(true, true);
  case Intrinsic::fabs: return each([&](int k) { return mkFUn(FABS, A(0, k)); });
  case Intrinsic::sqrt: return each([&](int k) { return mkFUn(FSQRT, A(0, k)); });
  case Intrinsic::floor: return each([&](int k) { return mkFUn(FROUND, A(0, k), RM_DN); });
  case Intrinsic::ceil: return each([&](int k) { return mkFUn(FROUND, A(0, k), RM_UP); });
  case Intrinsic::trunc: return each([&](int k) { return mkFUn(FROUND, A(0, k), RM_Z); });
  case Intrinsic::round: return each([&](int k) { return mkFUn(FROUND, A(0, k), RM_NA); });
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return each([&](int k) { return mkFUn(FROUND, A(0, k), RM_NE); });
  case Intrinsic::lround: case Intrinsic::llround: return bi_lround(s, d);
  case Intrinsic::minnum: return each([&](int k) { return mkFBin(FMIN, A(0, k), A(1, k)); });
  case Intrinsic::maxnum: return each([&](int k) { return mkFBin(FMAX, A(0, k), A(1, k)); });
  case Intrinsic::copysign: return each([&](int k) {
    E x = mkToBV(A(0, k)), y = mkToBV(A(1, k));
    unsigned w = x->width;
    return mkFromBV(mkConcat({mkExtract(y, w - 1, 1), mkExtract(x, 0, w - 1)}));
  });
  case Intrinsic::fmuladd: return each([&](int k) { return mkFBin(FADD, mkFBin(FMUL, A(0, k), A(1, k)), A(2, k)); });
  case Intrinsic::pow: return bi_pow(s, d);
  case Intrinsic::powi: {
    E n = A(1);
    if (n->isConst() && n->s64() >= 0 && n->s64() <= 8) {
      E r = fpc(A(0)->width, 1);
      for (int i = 0; i < n->s64(); i++) r = mkFBin(FMUL, r, A(0));
      setr(s, d.dst, r);
      return OK;
    }
    break;
  }
  case Intrinsic::sin: return bi_sin(s, d);
  case Intrinsic::cos: return bi_cos(s, d);
  case Intrinsic::exp: return bi_exp(s, d);
  case Intrinsic::exp2: return bi_exp2(s, d);
  case Intrinsic::log: return bi_log(s, d);
  case Intrinsic::log2: return bi_log2(s, d);
  case Intrinsic::log10: return bi_log10(s, d);
  case Intrinsic::ldexp: return bi_ldexp(s, d);
  case Intrinsic::is_constant: setr(s, d.dst, mkU(1, 0)); return OK;
  case Intrinsic::objectsize: setr(s, d.dst, mkConst(APInt::getAllOnes(d.ty[0].w))); return OK;
  case Intrinsic::eh_typeid_for: setr(s, d.dst, mkU(32, 1)); return OK;
  case Intrinsic::trap: case Intrinsic::ubsantrap: report(s, "abort", "trap", mkBool(true)); return DEAD;
  case Intrinsic::is_fpclass: {
    E x = A(0);
    unsigned m = A(1)->u64();
    E b = mkToBV(x);
    unsigned w = x->width, mant = w == 64 ? 52 : 23;
    E ex = mkExtract(b, mant, w - 1 - mant), fr = mkExtract(b, 0, mant), sg = mkExtract(b, w - 1, 1);
    E nan = mkFCmp(FISNAN, x, nullptr);
    E exAll = mkEq(ex, mkConst(APInt::getAllOnes(ex->width))), ex0 = mkEq(ex, mkU(ex->width, 0)), fr0 = mkEq(fr, mkU(mant, 0));
    E inf = mkAnd(exAll, fr0), zero = mkAnd(ex0, fr0), sub = mkAnd(ex0, mkNot(fr0)), nrm = mkNot(mkOr(exAll, ex0));
    E r = mkBool(false), ps = mkNot(sg);
    if (m & 3) r = mkOr(r, nan);
    if (m & fcNegInf) r = mkOr(r, mkAnd(inf, sg));
    if (m & fcPosInf) r = mkOr(r, mkAnd(inf, ps));
    if (m & fcNegNormal) r = mkOr(r, mkAnd(nrm, sg));
    if (m & fcPosNormal) r = mkOr(r, mkAnd(nrm, ps));
    if (m & fcNegSubnormal) r = mkOr(r, mkAnd(sub, sg));
    if (m & fcPosSubnormal) r = mkOr(r, mkAnd(sub, ps));
    if (m & fcNegZero) r = mkOr(r, mkAnd(zero, sg));
    if (m & fcPosZero) r = mkOr(r, mkAnd(zero, ps));
    setr(s, d.dst, r);
    return OK;
  }
  case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: {
    E r = A(0, 0);
    for (int k = 1; k < d.a[0].n; k++)
      r = d.sub == Intrinsic::vector_reduce_add ? mkAdd(r, A(0, k)) : d.sub == Intrinsic::vector_reduce_or ? mkOr(r, A(0, k)) : mkAnd(r, A(0, k));
    setr(s, d.dst, r);
    return OK;
  }
  default: break;
  }
  unsup(s, "intrinsic " + d.name);
  return DEAD;
}

// ---- single instruction --------------------------------------------------------------------------------
static E icmp(unsigned p, E a, E b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return mkEq(a, b);
  case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
  case CmpInst::ICMP_UGT: return mkUlt(b, a);
  case CmpInst::ICMP_UGE: return mkUle(b, a);
  case CmpInst::ICMP_ULT: return mkUlt(a, b);
  case CmpInst::ICMP_ULE: return mkUle(a, b);
  case CmpInst::ICMP_SGT: return mkSlt(b, a);
  case CmpInst::ICMP_SGE: return mkSle(b, a);
  case CmpInst::ICMP_SLT: return mkSlt(a, b);
  case CmpInst::ICMP_SLE: return mkSle(a, b);
  }
  abort();
}
static E fcmp(unsigned p, E a, E b) {
  E ord = nullptr;
  auto unord = [&] { return mkOr(mkFCmp(FISNAN, a, nullptr), mkFCmp(FISNAN, b, nullptr)); };
  (void)ord;
  switch (p) {
  case CmpInst::FCMP_FALSE: return mkBool(false);
  case CmpInst::FCMP_TRUE: return mkBool(true);
  case CmpInst::FCMP_OEQ: return mkFCmp(FEQ, a, b);
  case CmpInst::FCMP_OGT: return mkFCmp(FLT, b, a);
  case CmpInst::FCMP_OGE: return mkFCmp(FLE, b, a);
  case CmpInst::FCMP_OLT: return mkFCmp(FLT, a, b);
  case CmpInst::FCMP_OLE: return mkFCmp(FLE, a, b);
  case CmpInst::FCMP_ONE: return mkAnd(mkNot(unord()), mkNot(mkFCmp(FEQ, a, b)));
  case CmpInst::FCMP_ORD: return mkNot(unord());
  case CmpInst::FCMP_UNO: return unord();
  case CmpInst::FCMP_UEQ: return mkOr(unord(), mkFCmp(FEQ, a, b));
  case CmpInst::FCMP_UGT: return mkNot(mkFCmp(FLE, a, b));
  case CmpInst::FCMP_UGE: return mkNot(mkFCmp(FLT, a, b));
  case CmpInst::FCMP_ULT: return mkNot(mkFCmp(FLE, b, a));
  case CmpInst::FCMP_ULE: return mkNot(mkFCmp(FLT, b, a));
  case CmpInst::FCMP_UNE: return mkNot(mkFCmp(FEQ, a, b));
  }
  abort();
}
// Executes one non-terminator instruction. OK advances.
static int step(State &s, DInst &d) {
  auto A = [&](int i, int k = 0) { return get(s, d.a[i], k); };
  auto bin = [&](auto f) {
    if (d.nd == 1) { setr(s, d.dst, f(A(0), A(1))); return OK; }
    std::vector<E> o;
    for (int k = 0; k < d.nd; k++) o.push_back(f(A(0, k), A(1, k)));
    for (int k = 0; k < d.nd; k++) setr(s, d.dst + k, o[k]);
    return OK;
  };
  auto un = [&](auto f) {
    std::vector<E> o;
    for (int k = 0; k < d.nd; k++) o.push_back(f(A(0, k), k));
    for (int k = 0; k < d.nd; k++) setr(s, d.dst + k, o[k]);
    return OK;
  };
  auto divCheck = [&](bool sgn) {
    for (int k = 0; k < d.nd; k++) {
      E b = A(1, k);
      if (b->isConst() && b->u64() && !sgn) continue;
      E z = mkEq(b, mkConst(APInt(b->width, 0)));
      if (!z->isFalse() && !check(s, "divide", "integer division by zero", z)) return false;
      if (sgn) {
        E ov = mkAnd(mkEq(b, mkConst(APInt::getAllOnes(b->width))), mkEq(A(0, k), mkConst(APInt::getSignedMinValue(b->width))));
        if (!ov->isFalse() && !check(s, "divide", "signed division overflow", ov)) return false;
      }
    }
    return true;
  };
  auto ovCheck = [&](int kind) {
    if (!d.nsw || !policy["check_overflow"]) return true;
    E x = A(0), y = A(1);
    if (x->isConst() && y->isConst()) return true;
    unsigned w = x->width, ww = kind == 2 ? 2 * w : w + 1;
    E r = kind == 0 ? mkAdd(mkSExt(x, ww), mkSExt(y, ww)) : kind == 1 ? mkSub(mkSExt(x, ww), mkSExt(y, ww)) : mkMul(mkSExt(x, ww), mkSExt(y, ww));
    E o = mkNot(mkEq(r, mkSExt(mkExtract(r, 0, w), ww)));
    return o->isFalse() || check(s, "undefined", "signed integer overflow", o);
  };
  switch (d.op) {
  case Instruction::Add: if (!ovCheck(0)) return DEAD; return bin(mkAdd);
  case Instruction::Sub: if (!ovCheck(1)) return DEAD; return bin(mkSub);
  case Instruction::Mul: if (!ovCheck(2)) return DEAD; return bin(mkMul);
  case Instruction::UDiv: if (!divCheck(false)) return DEAD; return bin(mkUDiv);
  case Instruction::SDiv: if (!divCheck(true)) return DEAD; return bin(mkSDiv);
  case Instruction::URem: if (!divCheck(false)) return DEAD; return bin(mkURem);
  case Instruction::SRem: if (!divCheck(true)) return DEAD; return bin(mkSRem);
  case Instruction::And: return bin(mkAnd);
  case Instruction::Or: return bin(mkOr);
  case Instruction::Xor: return bin(mkXor);
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    for (int k = 0; k < d.nd; k++) {
      E b = A(1, k);
      if (b->isConst() && b->u64() < b->width) continue;
      E o = mkUle(mkU(b->width, b->width), b);
      if (policy["check_shift"] && !o->isFalse() && !check(s, "undefined", "shift amount out of range", o)) return DEAD;
    }
    // x86 masks out-of-range 32/64-bit shift amounts
    auto amt = [&](E b) {
      if (b->isConst() && b->u64() < b->width) return b;
      if ((b->width == 32 || b->width == 64)) return mkZExt(mkExtract(b, 0, b->width == 64 ? 6 : 5), b->width);
      return b;
    };
    if (d.op == Instruction::Shl) return bin([&](E a, E b) { return mkShl(a, amt(b)); });
    if (d.op == Instruction::LShr) return bin([&](E a, E b) { return mkLShr(a, amt(b)); });
    return bin([&](E a, E b) { return mkAShr(a, amt(b)); });
  }
  case Instruction::FAdd: return bin([](E a, E b) { return mkFBin(FADD, a, b); });
  case Instruction::FSub: return bin([](E a, E b) { return mkFBin(FSUB, a, b); });
  case Instruction::FMul: return bin([](E a, E b) { return mkFBin(FMUL, a, b); });
  case Instruction::FDiv: {
    if (policy["check_fdiv"]) {
      E b = A(1);
      E z = mkFCmp(FEQ, b, fpc(b->width, 0));
      if (!z->isFalse() && !check(s, "divide", "floating-point division by zero", z)) return DEAD;
    }
    return bin([](E a, E b) { return mkFBin(FDIV, a, b); });
  }
  case Instruction::FRem: return bi_fmod(s, d);
  case Instruction::FNeg: return un([](E a, int) { return mkFUn(FNEG, a); });
  case Instruction::ICmp: {
    unsigned p = d.sub;
    return bin([p](E a, E b) { return icmp(p, a, b); });
  }
  case Instruction::FCmp: {
    unsigned p = d.sub;
    return bin([p](E a, E b) { return fcmp(p, a, b); });
  }
  case Instruction::Trunc: return un([&](E a, int k) { return mkExtract(a, 0, d.ty[k].w); });
  case Instruction::ZExt: return un([&](E a, int k) { return mkZExt(a, d.ty[k].w); });
  case Instruction::SExt: return un([&](E a, int k) { return mkSExt(a, d.ty[k].w); });
  case Instruction::FPTrunc: case Instruction::FPExt:
    if (d.ty[0].w == 80 || d.ty2[0].w == 80) { unsup(s, "x87 arithmetic"); return DEAD; }
    return un([&](E a, int k) { return mkFPCast(a, d.ty[k].w); });
  case Instruction::FPToSI: return un([&](E a, int k) { return fToSI(s, a, d.ty[k].w); });
  case Instruction::FPToUI: return un([&](E a, int k) { return fToUI(s, a, d.ty[k].w); });
  case Instruction::SIToFP: return un([&](E a, int k) { return mkIToF(SITOF, a, d.ty[k].w); });
  case Instruction::UIToFP: return un([&](E a, int k) { return mkIToF(UITOF, a, d.ty[k].w); });
  case Instruction::PtrToInt: case Instruction::IntToPtr: return un([&](E a, int k) {
    unsigned w = d.ty[k].w;
    return a->width == w ? a : a->width > w ? mkExtract(a, 0, w) : mkZExt(a, w);
  });
  case Instruction::BitCast: {
    if ((int)d.ty2.size() == d.nd) return un([&](E a, int k) {
      if (d.ty[k].fp == (a->sort == FP)) return a;
      return d.ty[k].fp ? mkFromBV(a) : mkToBV(a);
    });
    std::vector<E> bits;
    for (int k = d.a[0].n - 1; k >= 0; k--) { E x = A(0, k); bits.push_back(x->isFP() ? mkToBV(x) : x); }
    E all = mkConcat(bits);
    unsigned lo = 0;
    for (int k = 0; k < d.nd; k++) {
      E x = mkExtract(all, lo, d.ty[k].w);
      lo += d.ty[k].w;
      setr(s, d.dst + k, d.ty[k].fp ? mkFromBV(x) : x);
    }
    return OK;
  }
  case Instruction::Freeze: return un([](E a, int) { return a; });
  case Instruction::Select: {
    if (policy["fork_select"] && d.nd == 1 && !A(0)->isConst() && d.a[0].slot >= 0 && d.a[0].n == 1 && A(1) != A(2) &&
        (d.I->getType()->isPointerTy() || (A(1)->isConst() && A(2)->isConst() && A(1)->width == 64))) {
      concSlot = d.a[0].slot;
      return CONCRETIZE;
    }
    std::vector<E> o;
    for (int k = 0; k < d.nd; k++) o.push_back(mkIte(d.a[0].n == d.nd && d.nd > 1 ? A(0, k) : A(0), A(1, k), A(2, k)));
    for (int k = 0; k < d.nd; k++) setr(s, d.dst + k, o[k]);
    return OK;
  }
  case Instruction::ExtractValue:
    for (int k = 0; k < d.nd; k++) setr(s, d.dst + k, A(0, d.off + k));
    return OK;
  case Instruction::InsertValue: {
    std::vector<E> o;
    for (int k = 0; k < d.nd; k++) o.push_back(k >= d.off && k < d.off + d.a[1].n ? A(1, k - d.off) : (d.a[0].slot < 0 ? d.a[0].c[k] : s.st.back()->r[d.a[0].slot + k]));
    for (int k = 0; k < d.nd; k++) setr(s, d.dst + k, o[k]);
    return OK;
  }
  case Instruction::ExtractElement: {
    E i = A(1);
    if (!i->isConst()) { concSlot = d.a[1].slot; return CONCRETIZE; }
    setr(s, d.dst, A(0, i->u64()));
    return OK;
  }
  case Instruction::InsertElement: {
    E i = A(2);
    if (!i->isConst()) { concSlot = d.a[2].slot; return CONCRETIZE; }
    for (int k = 0; k < d.nd; k++) setr(s, d.dst + k, (uint64_t)k == i->u64() ? A(1) : A(0, k));
    return OK;
  }
  case Instruction::ShuffleVector: {
    std::vector<E> o;
    int n = d.a[0].n;
    for (unsigned m : d.mask) {
      if (m == ~0u) m = 0;
      o.push_back((int)m < n ? A(0, m) : A(1, m - n));
    }
    for (int k = 0; k < d.nd; k++) setr(s, d.dst + k, o[k]);
    return OK;
  }
  case Instruction::Alloca: {
    E n = A(0);
    if (!n->isConst()) { concSlot = d.a[0].slot; return CONCRETIZE; }
    uint32_t id = allocObj(s, d.off * n->u64(), OBJ_STACK, "stack");
    s.top().allocas.push_back(id);
    setr(s, d.dst, mkU(64, objs[id].base));
    return OK;
  }
  case Instruction::GetElementPtr: {
    E p = A(0);
    if (d.off) p = mkAdd(p, mkU(64, (uint64_t)d.off));
    for (auto &g : d.gep) {
      E i = get(s, g.o);
      if (i->width < 64) i = mkSExt(i, 64);
      p = mkAdd(p, mkMul(i, mkU(64, (uint64_t)g.scale)));
    }
    setr(s, d.dst, p);
    return OK;
  }
  case Instruction::Load: {
    std::vector<Target> t;
    int r = resolve(s, A(0), d.off, false, nullptr, t);
    if (r == CONCRETIZE) concSlot = d.a[0].slot;
    if (r) return r;
    if (t.empty()) return DEAD;
    for (int k = 0; k < d.nd; k++) setr(s, d.dst + k, fromMem(rawLoad(s, t, d.ty[k].bytes, d.ty[k].off), d.ty[k]));
    return OK;
  }
  case Instruction::Store: {
    std::vector<Target> t;
    int r = resolve(s, A(1), d.off, true, nullptr, t);
    if (r == CONCRETIZE) concSlot = d.a[1].slot;
    if (r) return r;
    if (t.empty()) return DEAD;
    for (size_t k = 0; k < d.ty2.size(); k++) {
      E v = d.a[0].slot < 0 ? d.a[0].c[k] : s.st.back()->r[d.a[0].slot + k];
      if (!v) continue;
      for (auto &x : t) {
        if (!x.cond) storeBytes(s, x.addr + d.ty2[k].off, v);
        else {
          E nv = v->isFP() ? mkToBV(v) : v;
          if (nv->width & 7) nv = mkZExt(nv, (nv->width + 7) & ~7u);
          E old = loadBytes(s, x.addr + d.ty2[k].off, nv->width / 8);
          E m;
          if (v->isFP() && (old->isConst() || old->op == TOBV)) m = mkToBV(mkIte(x.cond, v, mkFromBV(old)));
          else m = mkIte(x.cond, nv, old);
          storeBytes(s, x.addr + d.ty2[k].off, m);
        }
      }
    }
    return OK;
  }
  case Instruction::Fence: return OK;
  case Instruction::AtomicRMW: {
    auto *I = cast<AtomicRMWInst>(d.I);
    std::vector<Target> t;
    unsigned by = (d.ty[0].w + 7) / 8;
    int r = resolve(s, A(0), by, true, nullptr, t);
    if (r) return r;
    E old = loadBytes(s, t[0].addr, by), nv = A(1);
    if (I->getOperation() == AtomicRMWInst::Add) nv = mkAdd(old, nv);
    else if (I->getOperation() == AtomicRMWInst::Sub) nv = mkSub(old, nv);
    storeBytes(s, t[0].addr, nv);
    setr(s, d.dst, old);
    return OK;
  }
  case Instruction::Call: case Instruction::Invoke: {
    if (d.sub) return intrinsic(s, d);
    if (d.bi) return d.bi(s, d);
    FnInfo *f = d.callee;
    size_t na = d.a.size();
    if (!f) {
      if (!d.name.empty()) { unsup(s, "external function " + d.name); return DEAD; }
      E t = A(d.a.size() - 1);
      if (d.a.back().n == 0) { return OK; }  // inline asm
      if (!t->isConst()) { concSlot = d.a.back().slot; return CONCRETIZE; }
      uint32_t id = objAt(t->u64());
      if (!id || objs[id].kind != OBJ_FUNC) { report(s, "memory", "call through invalid function pointer", mkBool(true)); return DEAD; }
      f = (FnInfo *)objs[id].fn;
      na--;
      Builtin bi = findBuiltin(f->name);
      if (bi) return bi(s, d);
      if (f->F->isDeclaration()) { unsup(s, "external function " + f->name); return DEAD; }
    }
    std::vector<E> args;
    for (size_t i = 0; i < na; i++)
      for (int k = 0; k < d.a[i].n; k++) args.push_back(d.a[i].slot < 0 ? d.a[i].c[k] : s.st.back()->r[d.a[i].slot + k]);
    pushFrame(s, f, args, &d);
    return s.dead ? DEAD : CALLED;
  }
  case Instruction::LandingPad: unsup(s, "landing pad reached"); return DEAD;
  case Instruction::VAArg: default: break;
  }
  unsup(s, std::string("instruction ") + d.I->getOpcodeName());
  return DEAD;
}

// ---- path ends --------------------------------------------------------------------------------------------
static void finishPath(State &s, const std::string &how) {
  nPaths++;
  if (how == "end") covers["end"]++;
  if (s.shardLo != shard) return;  // reported by the first shard that runs it
  if (witnesses.size() >= maxWitness) return;
  Model m;
  Sat r = Sat::UNKNOWN;
  if (!realMode && satisfiesCached(s.pc, nullptr, &m)) r = Sat::SAT;
  else r = checkSat(s.pc, assertTimeout > 20 ? 20 : assertTimeout, &m, false);
  if (r == Sat::UNSAT) { covers["infeasible-end"]++; nPaths--; return; }
  if (r != Sat::SAT) return;
  bool uf = false;
  for (E c : s.pc) uf |= c->hasUF;
  Witness w;
  w.choices = s.choices;
  w.end = how;
  fillInputs(s, m, w.inputs);
  Evaluator ev(m);
  for (auto &o : s.obs) {
    if (o.e->hasUF || uf) continue;
    APInt v = ev.eval(o.e);
    w.obs.push_back({o.name, v});
  }
  if (!ev.ok) w.obs.clear();
  witnesses.push_back(w);
}

// ---- scheduler ------------------------------------------------------------------------------------------------
static void runUntil(State *s, int depth, int stop, std::vector<State *> &out);
static void runAll(std::vector<State *> &in, int depth, int stop, std::vector<State *> &out) {
  for (State *t : in) runUntil(t, depth, stop, out);
}
static void runUntil(State *s, int depth, int stop, std::vector<State *> &out) {
  std::vector<State *> res;
  while (true) {
    if (s->dead) { delete s; return; }
    if (s->ended) { finishPath(*s, "end"); delete s; return; }
    if (s->depth() < depth) { out.push_back(s); return; }
    Frame *f = s->st.back().get();
    if (s->justEntered && s->depth() == depth && f->block == stop) { out.push_back(s); return; }
    s->justEntered = false;
    DBlock &blk = f->fn->b[f->block];
    DInst &d = blk.in[f->inst];
    nInst++;
    if (++s->steps > maxSteps) {
      report(*s, "hang", "step limit exceeded (possible non-termination)", mkBool(true));
      delete s;
      return;
    }
    if ((nInst & 0x3ff) == 0 && nowSec() > deadline) timedOut = true;
    if (timedOut) { delete s; return; }
    switch (d.op) {
    case Instruction::Br: {
      if (d.a.empty()) { takeEdge(*s, d.e[0]); continue; }
      E c = get(*s, d.a[0]);
      if (d.spJ >= 0 && !c->isConst() && !inPC(*s, c) && !inPC(*s, mkNot(c)) && speculate(*s, d, c)) continue;
      int k = decide(*s, c);
      if (k != 2) { takeEdge(*s, d.e[k ? 0 : 1]); continue; }
      nForks++;
      nStates++;
      if (verbose && getenv("SX_FORKS")) fprintf(stderr, "fork %s : %s\n    %s\n", where(*s).substr(0, 160).c_str(), curInst(*s).c_str(), str(c, 5).c_str());
      State *t = new State(*s);
      int dep = s->depth(), P = blk.ipdom;
      addPC(*s, c);
      addPC(*t, mkNot(c));
      takeEdge(*s, d.e[0]);
      takeEdge(*t, d.e[1]);
      res.clear();
      runUntil(s, dep, P, res);
      runUntil(t, dep, P, res);
      mergeAll(res);
      if (res.size() == 1) { s = res[0]; continue; }
      for (State *x : res) runUntil(x, depth, stop, out);
      return;
    }
    case Instruction::Switch: {
      E v = get(*s, d.a[0]);
      if (v->isConst()) {
        size_t i = 0;
        for (; i < d.caseVal.size(); i++)
          if (d.caseVal[i] == v) break;
        takeEdge(*s, d.e[i < d.caseVal.size() ? i + 1 : 0]);
        continue;
      }
      int dep = s->depth(), P = blk.ipdom;
      std::vector<State *> br;
      E none = mkBool(true);
      std::map<int, E> byDest;
      std::map<int, size_t> firstEdge;
      bool samePhi = true;
      for (size_t i = 0; i < d.caseVal.size(); i++) samePhi &= d.e[i + 1].phi.empty();
      for (size_t i = 0; i < d.caseVal.size(); i++) {
        E q = mkEq(v, d.caseVal[i]);
        none = mkAnd(none, mkNot(q));
        int key = samePhi ? d.e[i + 1].block : (int)i;
        auto it = byDest.find(key);
        if (it == byDest.end()) { byDest[key] = q; firstEdge[key] = i + 1; }
        else it->second = mkOr(it->second, q);
      }
      for (auto &kv : byDest) {
        if (kv.second->isFalse() || feasible(s->pc, kv.second) == Sat::UNSAT) continue;
        State *t = new State(*s);
        addPC(*t, kv.second);
        takeEdge(*t, d.e[firstEdge[kv.first]]);
        br.push_back(t);
      }
      if (!none->isFalse() && feasible(s->pc, none) != Sat::UNSAT) {
        State *t = new State(*s);
        addPC(*t, none);
        takeEdge(*t, d.e[0]);
        br.push_back(t);
      }
      delete s;
      if (br.size() == 1) { s = br[0]; continue; }
      nForks += br.size();
      nStates += br.size();
      res.clear();
      for (State *t : br) runUntil(t, dep, P, res);
      mergeAll(res);
      if (res.size() == 1) { s = res[0]; continue; }
      for (State *x : res) runUntil(x, depth, stop, out);
      return;
    }
    case Instruction::Ret: {
      std::vector<E> v;
      if (!d.a.empty())
        for (int k = 0; k < d.a[0].n; k++) v.push_back(d.a[0].slot < 0 ? d.a[0].c[k] : f->r[d.a[0].slot + k]);
      doRet(*s, v);
      continue;
    }
    case Instruction::Unreachable:
      report(*s, "undefined", "unreachable code reached", mkBool(true));
      delete s;
      return;
    case Instruction::Resume: unsup(*s, "resume"); delete s; return;
    default: break;
    }
    int r = step(*s, d);
    if (r == OK) {
      if (d.op == Instruction::Invoke) takeEdge(*s, d.e[0]);
      else s->top().inst++;
      continue;
    }
    if (r == CALLED) continue;
    if (r == DEAD) { delete s; return; }
    if (r == FORKED) {
      std::vector<State *> v = forkOut;
      nStates += v.size();
      delete s;
      for (State *x : v) runUntil(x, depth, stop, out);
      return;
    }
    if (r == CONCRETIZE) {
      int slot = concSlot;
      if (slot < 0) { unsup(*s, "cannot concretize a constant operand"); delete s; return; }
      E v = s->st.back()->r[slot];
      std::vector<State *> vs;
      std::vector<E> excl;
      E rest = mkBool(true);
      int64_t limit = policy.count("max_concretize") ? policy["max_concretize"] : 40;
      for (int i = 0;; i++) {
        Model m;
        std::vector<E> pc = sliceFor(s->pc, mkEq(v, mkU(v->width, 0))->isConst() ? rest : mkEq(v, mkU(v->width, 0)));
        pc.push_back(rest);
        Sat q = checkSat(pc, feasTimeout * 3, &m, false);
        if (q == Sat::UNSAT) break;
        if (q == Sat::UNKNOWN || i >= limit) { unsup(*s, "too many values while concretizing"); break; }
        Evaluator ev(m);
        APInt x = ev.eval(v);
        E eq = mkEq(v, mkConst(x));
        State *t = new State(*s);
        addPC(*t, eq);
        setr(*t, slot, mkConst(x));
        vs.push_back(t);
        rest = mkAnd(rest, mkNot(eq));
        if (rest->isFalse()) break;
      }
      nForks += vs.size();
      nStates += vs.size();
      if (verbose && getenv("SX_FORKS")) fprintf(stderr, "fork concretize(%zu) %s : %s\n    %s\n", vs.size(), where(*s).substr(0, 160).c_str(), curInst(*s).c_str(), str(v, 5).c_str());
      int dep = s->depth(), P = blk.ipdom;
      delete s;
      if (vs.size() == 1) { s = vs[0]; s->dead = false; continue; }
      res.clear();
      for (State *x : vs) { x->dead = false; runUntil(x, dep, P, res); }
      mergeAll(res);
      if (res.size() == 1) { s = res[0]; continue; }
      for (State *x : res) runUntil(x, depth, stop, out);
      return;
    }
  }
}

// ---- driver -----------------------------------------------------------------------------------------------------
static std::string jesc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
static std::string hex(const APInt &v) {
  SmallVector<char, 32> b;
  v.toString(b, 16, false, false);
  return std::string(b.begin(), b.end());
}
static void writeInputs(FILE *f, const std::vector<std::pair<std::string, APInt>> &in) {
  fprintf(f, "{");
  for (size_t i = 0; i < in.size(); i++) fprintf(f, "%s\"%s\":\"%s\"", i ? "," : "", jesc(in[i].first).c_str(), hex(in[i].second).c_str());
  fprintf(f, "}");
}
static void writeChoices(FILE *f, const std::vector<std::pair<std::string, int>> &in) {
  fprintf(f, "{");
  for (size_t i = 0; i < in.size(); i++) fprintf(f, "%s\"%s\":%d", i ? "," : "", jesc(in[i].first).c_str(), in[i].second);
  fprintf(f, "}");
}
static void writeReport(const std::string &path, const std::string &entry, double wall) {
  FILE *f = path == "-" ? stdout : fopen(path.c_str(), "w");
  fprintf(f, "{\"entry\":\"%s\",\"shard\":[%d,%d],\"wall\":%.3f,\"timed_out\":%s,\n", entry.c_str(), shard, nShard, wall, timedOut ? "true" : "false");
  if (getenv("SX_MEM")) {
    FILE *st = fopen("/proc/self/statm", "r"); unsigned long v = 0, rss = 0;
    if (st) { if (fscanf(st, "%lu %lu", &v, &rss)) {} fclose(st); }
    fprintf(stderr, "mem: virt %luMB rss %luMB exprs %zu objs %zu anodes %zu pages %zu\n", v >> 8, rss >> 8, numExprs(), objs.size(), anodes.size(), pageObj.size());
  }
  fprintf(f, "\"states\":%lu,\"transitions\":%lu,\"forks\":%lu,\"merges\":%lu,\"ifconversions\":%lu,\"paths\":%lu,\"throws\":%lu,\"exprs\":%zu,\n", nStates, nInst, nForks, nMerges, nSpec, nPaths, nThrows, numExprs());
  fprintf(f, "\"solver\":{\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"cache\":%lu,\"model_hits\":%lu,\"external\":%lu,\"seconds\":%.3f,\"max_query\":%.3f,\"assertions\":%lu,\"assertions_by_rewriting\":%lu},\n",
          stats.calls, stats.sat, stats.unsat, stats.unknown, stats.cacheHits, stats.modelHits, stats.external, stats.time, stats.maxTime, stats.asserts, stats.assertsTrivial);
  fprintf(f, "\"covers\":{");
  bool first = true;
  for (auto &c : covers) { fprintf(f, "%s\"%s\":%lu", first ? "" : ",", jesc(c.first).c_str(), c.second); first = false; }
  fprintf(f, "},\n\"unsupported\":{");
  first = true;
  for (auto &c : unsupported) { fprintf(f, "%s\"%s\":\"%s\"", first ? "" : ",", jesc(c.first).c_str(), jesc(c.second).c_str()); first = false; }
  fprintf(f, "},\n\"asserts\":[");
  first = true;
  for (auto &a : assertSites) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(a).c_str()); first = false; }
  fprintf(f, "],\n\"functions\":[");
  first = true;
  for (auto &p : fns)
    if (p.second->calls) {
      std::string n = fname(p.second);
      if (n.find("haptics::") == std::string::npos && n.find("InputParser") == std::string::npos) continue;
      if (n.rfind("std::", 0) == 0 || n.find(" std::") != std::string::npos) continue;
      fprintf(f, "%s\"%s\"", first ? "" : ",\n", jesc(n.substr(0, 160)).c_str());
      first = false;
    }
  fprintf(f, "],\n\"violations\":[");
  first = true;
  for (auto &v : violations) {
    fprintf(f, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"kf\":\"%s\",\"inputs\":", first ? "" : ",\n", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str(), jesc(v.kf).c_str());
    writeInputs(f, v.inputs);
    fprintf(f, ",\"choices\":");
    writeChoices(f, v.choices);
    fprintf(f, "}");
    first = false;
  }
  fprintf(f, "],\n\"witnesses\":[");
  first = true;
  for (auto &w : witnesses) {
    fprintf(f, "%s{\"end\":\"%s\",\"inputs\":", first ? "" : ",\n", w.end.c_str());
    writeInputs(f, w.inputs);
    fprintf(f, ",\"choices\":");
    writeChoices(f, w.choices);
    fprintf(f, ",\"obs\":[");
    for (size_t i = 0; i < w.obs.size(); i++) fprintf(f, "%s[\"%s\",\"%s\"]", i ? "," : "", jesc(w.obs[i].first).c_str(), hex(w.obs[i].second).c_str());
    fprintf(f, "]}");
    first = false;
  }
  fprintf(f, "]}\n");
  if (f != stdout) fclose(f);
}
struct Args { int argc; char **argv; };
static void *mainThread(void *p) {
  Args &ar = *(Args *)p;
  std::string bc, entry, outp = "-";
  double tmo = 800;
  for (int i = 1; i < ar.argc; i++) {
    std::string a = ar.argv[i];
    auto next = [&] { return std::string(ar.argv[++i]); };
    if (a == "-e") entry = next();
    else if (a == "-o") outp = next();
    else if (a == "-t") tmo = atof(next().c_str());
    else if (a == "--feas") feasTimeout = atof(next().c_str());
    else if (a == "--assert") assertTimeout = atof(next().c_str());
    else if (a == "--real") realMode = true;
    else if (a == "--linear") linearMode = true;
    else if (a == "--shard") { shard = atoi(next().c_str()); nShard = atoi(next().c_str()); }
    else if (a == "--kf") knownFindings.insert(next());
    else if (a == "--dump") smtDumpDir = next();
    else if (a == "--scratch") scratchDir = next();
    else if (a == "--policy") { std::string k = next(); policy[k] = atoll(next().c_str()); }
    else if (a == "--maxsteps") maxSteps = atoll(next().c_str());
    else if (a == "-v") verbose = true;
    else bc = a;
  }
  double t0 = nowSec();
  deadline = t0 + tmo;
  LLVMContext cx;
  SMDiagnostic err;
  std::unique_ptr<Module> mod = parseIRFile(bc, err, cx);
  if (!mod) { err.print("symex", errs()); exit(3); }
  M = mod.get();
  DL = &M->getDataLayout();
  initBuiltins();
  State *s = new State();
  s->shardHi = nShard;
  for (auto &g : M->globals()) addrOf(&g);
  for (auto &F : *M)
    if (!F.isIntrinsic() && F.hasAddressTaken()) addrOf(&F);
  for (auto &g : M->globals())
    if (g.hasInitializer()) storeConst(*s, addrOf(&g), g.getInitializer());
  // external data (stream objects): zero
  for (auto &g : M->globals())
    if (!g.hasInitializer()) {
      const Obj &o = objs[objAt(addrOf(&g))];
      for (uint64_t i = 0; i < o.size; i++) storeBytes(*s, o.base + i, mkU(8, 0));
    }
  // static constructors in priority order, then the entry point
  std::vector<std::pair<int, Function *>> ctors;
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors"))
    if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto &op : ca->operands()) {
        auto *cs = cast<ConstantStruct>(op);
        if (auto *F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
          ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F});
      }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  std::vector<State *> cur{s};
  for (auto &c : ctors) {
    std::vector<State *> nxt;
    for (State *x : cur) {
      x->ended = false;
      // run to completion: a frame whose return ends the state list
      x->st.clear();
      pushFrame(*x, fnInfo(c.second), {}, nullptr);
      std::vector<State *> o;
      // a sentinel depth: returning empties the stack and sets ended; intercept
      State *y = x;
      while (!y->st.empty() && !y->dead) {
        Frame *f = y->st.back().get();
        DInst &d = f->fn->b[f->block].in[f->inst];
        nInst++;
        if (d.op == Instruction::Ret) {
          std::vector<E> v;
          if (!d.a.empty())
            for (int k = 0; k < d.a[0].n; k++) v.push_back(get(*y, d.a[0], k));
          doRet(*y, v);
          continue;
        }
        if (d.op == Instruction::Br) {
          E cnd = d.a.empty() ? mkBool(true) : get(*y, d.a[0]);
          takeEdge(*y, d.e[cnd->isTrue() ? 0 : 1]);
          continue;
        }
        if (d.op == Instruction::Switch) {
          E v = get(*y, d.a[0]);
          size_t i = 0;
          for (; i < d.caseVal.size(); i++)
            if (d.caseVal[i] == v) break;
          takeEdge(*y, d.e[i < d.caseVal.size() ? i + 1 : 0]);
          continue;
        }
        int r = step(*y, d);
        if (r == OK) {
          if (d.op == Instruction::Invoke) takeEdge(*y, d.e[0]);
          else y->top().inst++;
        } else if (r != CALLED) {
          fprintf(stderr, "static constructor failed: %s %d: %s\n", c.second->getName().str().c_str(), r, curInst(*y).c_str());
          for (auto &u : unsupported) fprintf(stderr, "  %s\n", u.first.c_str());
          exit(3);
        }
      }
      y->ended = false;
      nxt.push_back(y);
    }
    cur = nxt;
  }
  Function *F = M->getFunction(entry);
  if (!F) { fprintf(stderr, "no entry %s\n", entry.c_str()); exit(3); }
  s = cur[0];
  s->steps = 0;
  s->st.clear();
  for (auto &p : fns) p.second->calls = 0;
  pushFrame(*s, fnInfo(F), {}, nullptr);
  std::vector<State *> out;
  runUntil(s, -1, -2, out);
  for (State *x : out) { x->ended = true; finishPath(*x, "end"); }
  writeReport(outp, entry, nowSec() - t0);
  fflush(stdout);
  _exit(0);
  return nullptr;
}
}  // namespace sx

int main(int argc, char **argv) {
  sx::Args a{argc, argv};
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 4ull << 30);
  pthread_t th;
  if (pthread_create(&th, &at, sx::mainThread, &a)) {
    pthread_attr_setstacksize(&at, 512ull << 20);
    if (pthread_create(&th, &at, sx::mainThread, &a)) { perror("pthread_create"); return 3; }
  }
  pthread_join(th, nullptr);
  return 0;
}
