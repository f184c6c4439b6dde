// S01: text buffers. Every block of memory an operation obtains is followed on
// every path, through the functions that move it: nothing reads, writes or
// passes on a block that was released or moved, no block is released twice, and
// when the operation ends each block has been released, returned or kept.
#include "tokens.h"

RULE(S01) {
  TokenRules T;
  T.rule = "S01";
  Resource buf;
  buf.what = "a buffer";
  buf.mustCheck = false;
  buf.release = {"free"};
  buf.move = {"realloc"};
  for (const char *n : {"malloc", "calloc", "realloc", "strdup"})
    T.create[n] = buf;
  forEachGroup(in, [&](Module &M, const std::string &g) {
    NormOpts O;
    O.simplify = false;
    O.keep = {"newObj",     "gcAlloc",     "coraRun",      "gcMarkRoot",         "bindSymbol",
              "stackAlloc", "coraReturn",  "makeNumber",   "stackAllocSlowPath", "_vector_append",
              "makeNative", "makeString",  "makeCString",  "makeBytes",          "makeCons",
              "coraCall",   "coraCall0",   "coraCall1",    "coraCall2",          "coraCall3",
              "coraCall4",  "fixnum",      "globalRef",    "globalSet",          "saveCont", "coraReturnSlowPath",
              "gcMark", "eq", "primSet", "symbolGet", "vectorRef", "vectorSet", "makeVector", "coraMakeCString", "coraRegisterAPI", "registerAPI", "intern"};
    // the markdown parser is followed function by function
    for (auto &F : M)
      if (auto *SP = F.getSubprogram(); SP && SP->getFilename().contains("md4c.c"))
        O.keep.insert(F.getName().str());
    normalise(M, O);
    checkTokens(M, [](const Function &F) { return own(&F) && isRoot(F); }, T);
  });
  R.need("creation sites", 20);
  R.need("functions", 10);
  R.need("releases", 15);
}
