// Hash-consed expression DAG with aggressive bit-level simplification.
#pragma once
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/APInt.h>
#include <cstdint>
#include <functional>
#include <string>
#include <unordered_map>
#include <vector>

namespace sx {
using llvm::APFloat;
using llvm::APInt;

enum Op : uint8_t {
  CONST, VAR,
  // bit vectors
  ADD, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, NOT, SHL, LSHR, ASHR,
  CONCAT, EXTRACT, SEXT, ITE, EQ, ULT, ULE, SLT, SLE,
  // floating point (sort FP32/FP64)
  FADD, FSUB, FMUL, FDIV, FREM, FNEG, FABS, FSQRT, FROUND /*aux: mode*/, FEQ, FLT, FLE, FISNAN,
  FTOUI, FTOSI, UITOF, SITOF, FPCAST, FROMBV, TOBV, FMIN, FMAX, UF
};
enum Sort : uint8_t { BV, FP };
// rounding modes of FROUND
enum { RM_NE = 0, RM_NA = 1, RM_UP = 2, RM_DN = 3, RM_Z = 4 };

struct Expr {
  Op op;
  Sort sort;
  uint32_t width;
  uint32_t aux = 0;  // EXTRACT: low bit; FROUND: mode; VAR/UF: name index
  uint32_t id = 0;
  uint32_t hash = 0;
  bool hasFP = false, hasVar = false, hasUF = false;
  uint16_t nk = 0;
  const Expr **kid = nullptr;
  uint64_t cw = 0;              // constant, width <= 64 (BV value or FP bit pattern)
  const APInt *big = nullptr;   // constant, width > 64
  bool isConst() const { return op == CONST; }
  bool isFP() const { return sort == FP; }
  bool isTrue() const { return op == CONST && width == 1 && cw == 1; }
  bool isFalse() const { return op == CONST && width == 1 && cw == 0; }
  APInt ap() const { return big ? *big : APInt(width, cw); }
  uint64_t u64() const { return big ? big->getLimitedValue() : cw; }
  int64_t s64() const { return ap().getSExtValue(); }
};
using E = const Expr *;

extern std::vector<std::string> names;  // VAR and UF names
extern bool linearMode;                 // real mode: affine expressions are normalised (exact rationals) before solving
extern bool realMode;                   // FP arithmetic interpreted over the reals at the solver

E mkConst(const APInt &v);
E mkU(unsigned w, uint64_t v);
inline E mkBool(bool b) { return mkU(1, b ? 1 : 0); }
E mkFP(const APFloat &f);
E mkFPBits(unsigned w, uint64_t bits);
E mkVar(const std::string &name, Sort s, unsigned w);
E mkVarUnique(const std::string &name, Sort s, unsigned w);

E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkNeg(E a);
E mkMul(E a, E b);
E mkUDiv(E a, E b);
E mkSDiv(E a, E b);
E mkURem(E a, E b);
E mkSRem(E a, E b);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkXor(E a, E b);
E mkNot(E a);
E mkShl(E a, E b);
E mkLShr(E a, E b);
E mkAShr(E a, E b);
E mkConcat(std::vector<E> hiToLo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkUle(E a, E b);
E mkSlt(E a, E b);
E mkSle(E a, E b);
E mkFBin(Op op, E a, E b);
E mkFUn(Op op, E a, unsigned aux = 0);
E mkFCmp(Op op, E a, E b);
E mkFToI(Op op, E a, unsigned w);
E mkIToF(Op op, E a, unsigned w);
E mkFPCast(E a, unsigned w);
E mkFromBV(E a);
E mkToBV(E a);
E mkUF(const std::string &fn, std::vector<E> args, Sort s, unsigned w);

// known-zero bits helper and unsigned upper bound (cheap)
bool upperBound(E e, uint64_t &ub);

std::string str(E e, int depth = 6);

// concrete evaluation; the model maps variable id -> bit pattern
struct Model {
  std::unordered_map<const Expr *, APInt> v;
};
struct Evaluator {
  const Model &m;
  bool ok = true;  // false once something not evaluable (UF) was met
  std::unordered_map<const Expr *, APInt> memo;
  explicit Evaluator(const Model &mm) : m(mm) {}
  APInt eval(E e);
};
void collectVars(E e, std::vector<E> &out);  // cached
size_t numExprs();
APFloat toAPF(E e);
APFloat bitsToAPF(const APInt &b);
}  // namespace sx
