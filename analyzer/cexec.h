// Path exploration with constant propagation: every instruction on a path is
// folded when its operands are known constants; branches on unknown values fork.
#pragma once
#include "common.h"

struct CState {
  const BasicBlock *bb = nullptr, *pred = nullptr;
  std::map<const Value *, Constant *> env;
  std::map<std::string, long> u; // client data, part of the state's identity
};
struct CExec {
  const Function &F;
  const DataLayout &DL;
  unsigned limit = 200000, steps = 0, widen = 6;
  bool overflow = false;
  // constant for an instruction the client models (calls, loads); null: unknown
  std::function<Constant *(const Instruction *, CState &)> value;
  // called before each instruction; false ends the path
  std::function<bool(const Instruction *, CState &)> visit;
  explicit CExec(const Function &F) : F(F), DL(F.getParent()->getDataLayout()) {}
  Constant *get(const Value *V, CState &S);
  // run from the given instruction
  void run(const Instruction *from, CState S);

private:
  std::set<std::string> seen;
  std::map<const Value *, std::set<const Constant *>> phiVals;
};
