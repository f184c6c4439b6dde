// Path search that follows constants through phis (the branch taken decides
// the flag tested later), used by the rules that demand or forbid events.
#pragma once
#include "common.h"

struct PathQuery {
  // assumed values (loads, arguments, ...)
  std::function<bool(const Value *, KnownBits &)> lookup;
  // the path ends here, satisfied
  std::function<bool(const Instruction *)> stop;
  // the path ends here, violating (returns count when atReturn)
  std::function<bool(const Instruction *)> bad;
  bool atReturn = true;
  // edges the path may not take (excused)
  std::function<bool(const BasicBlock *, const BasicBlock *)> excused;
  // do not compute with constants followed through phis (no unrolling of
  // loops), forget those that no longer dominate
  bool flat = false;
  // the path may not enter a block for which this is false
  std::function<bool(const BasicBlock *)> enter;
  // only what happens after this event counts
  std::function<bool(const Instruction *)> after;
  // remember which way undecided conditions went
  bool branches = false;
  unsigned limit = 50000;
  bool overflow = false;
};
// a violating end of a path starting at `from` (after it unless inclusive)
const Instruction *findPath(const Instruction *from, bool inclusive, PathQuery &Q);
