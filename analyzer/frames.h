// Registrations of steps and access to their frames (R).
#pragma once
#include "common.h"
struct Reg {
  const Function *F;
  bool known = false;       // constants below are valid
  int64_t nframe = -1, required = -1, captured = -1;
  const Instruction *site = nullptr;
  std::string how;
};
// all registrations found in the (normalised) module; makeNative,
// coraRegisterAPI must have been kept as calls
std::vector<Reg> registrations(Module &M);
// functions kept when frames are analysed
std::set<std::string> frameKeep();
// the creation primitive's callee names
bool isMakeNative(const CallBase *CB);
