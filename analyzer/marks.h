// What a marking function passes to gcMark.
#pragma once
#include "common.h"
#include "paths.h"
struct MarkSite {
  CallBase *CB = nullptr;
  enum { Scalar, Span, Frames, Unknown } kind = Unknown;
  Lin lo, len;   // Scalar: address; Span: bytes; Frames: the array of frames
  Lin ver;       // version argument
  std::string why;
  const Loop *L = nullptr, *outer = nullptr;
  LoopSpace S, OS;
};
struct FrameLayout {
  int64_t size = 0, bp = -1, sp = -1;
  bool ok = false;
};
FrameLayout frameLayout(Module &M);
std::vector<MarkSite> markSites(Function &F, Analyses &A, ExprCtx &E, const FrameLayout &FL);
// a region that must be marked
struct Region {
  std::string name;
  int kind; // MarkSite kind
  Lin lo, len;
  int64_t count8 = 1; // unused
};
// "" when every path marks the region; otherwise why not
std::string covered(Function &F, Analyses &A, ExprCtx &E, const std::vector<MarkSite> &ms,
                    const Region &r, const Instruction *&where);
// the structure through which a fresh object is accessed
std::string structOfAlloc(const Value *V);
