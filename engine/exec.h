#pragma once
#include "expr.h"
#include "mem.h"
#include "solver.h"
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <map>
#include <memory>
#include <set>

namespace sx {
struct State;
struct FnInfo;
struct DInst;

struct Operand {
  int slot = -1;   // first register slot, or -1 for a constant
  int n = 1;       // number of scalars
  std::vector<E> c;  // constant scalars
};
typedef int (*Builtin)(State &, DInst &);  // see exec.cpp

struct Edge {
  int block;
  std::vector<std::pair<int, Operand>> phi;  // destination slot, source
};
struct GepTerm { Operand o; int64_t scale; };
struct LeafTy { bool fp; unsigned w; unsigned bytes; int64_t off; };  // flattened scalar

struct DInst {
  unsigned op = 0;
  unsigned sub = 0;      // predicate / intrinsic id
  int dst = -1, nd = 0;  // destination slots
  std::vector<Operand> a;
  std::vector<LeafTy> ty, ty2;    // result / operand scalar types
  std::vector<Edge> e;
  std::vector<E> caseVal;
  std::vector<GepTerm> gep;
  int64_t off = 0;
  FnInfo *callee = nullptr;
  Builtin bi = nullptr;
  std::string name;
  const llvm::Instruction *I = nullptr;
  std::vector<unsigned> mask;
  bool nsw = false;
  int spT = -1, spF = -1, spJ = -1;  // if-conversion
};
struct DBlock {
  std::vector<DInst> in;
  int ipdom = -1;  // -1 = function exit
  std::vector<char> live;  // live-in slots (after phis)
};
struct FnInfo {
  const llvm::Function *F = nullptr;
  bool decoded = false;
  int nslots = 0;
  std::vector<std::pair<int, int>> args;  // slot, count
  std::vector<DBlock> b;
  std::string name;
  uint64_t calls = 0;
};
struct Frame {
  FnInfo *fn = nullptr;
  int block = 0, inst = 0;
  std::vector<E> r;
  std::vector<uint32_t> allocas;  // object ids
  const DInst *ret = nullptr;     // call instruction in the caller's frame
  int retSlot = -1;
  bool retIsInvoke = false;
};
struct Observation { std::string name; E e; };
struct KfRegion { std::string id; E cond; };
struct State {
  std::vector<std::shared_ptr<Frame>> st;
  Mem mem;
  std::vector<E> pc;
  std::vector<std::pair<std::string, E>> inputs;
  std::vector<std::pair<std::string, int>> choices;
  std::vector<Observation> obs;
  std::vector<KfRegion> kf;
  uint64_t steps = 0;
  uint32_t allocNode = 0;
  int shardLo = 0, shardHi = 1;
  bool justEntered = false, dead = false, ended = false;
  Frame &top() {
    if (st.back().use_count() > 1) st.back() = std::make_shared<Frame>(*st.back());
    return *st.back();
  }
  int depth() const { return (int)st.size() - 1; }
};
struct Violation {
  std::string kind, msg, where, kf;
  std::vector<std::pair<std::string, APInt>> inputs;
  std::vector<std::pair<std::string, int>> choices;
};
struct Witness {
  std::vector<std::pair<std::string, APInt>> inputs;
  std::vector<std::pair<std::string, int>> choices;
  std::vector<std::pair<std::string, APInt>> obs;
  std::string end;
};
}  // namespace sx
