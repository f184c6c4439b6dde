// Shared infrastructure of the cora static analyser.
#pragma once
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/KnownBits.h"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

// ---------------------------------------------------------------- reporting
struct Viol {
  std::string rule, key, where, msg;
};
struct Report {
  std::vector<Viol> viols;
  std::map<std::string, long> counts;
  std::map<std::string, std::vector<std::string>> samples;
  std::vector<std::string> broken; // anchor vanished / analysis not possible
  void count(const std::string &k, long n = 1) { counts[k] += n; }
  void sample(const std::string &k, const std::string &s) {
    auto &v = samples[k];
    if (v.size() < 200)
      v.push_back(s);
  }
  // key must not contain line numbers: it identifies a finding across edits.
  void viol(const std::string &rule, const std::string &key,
            const std::string &where, const std::string &msg);
  void breakage(const std::string &s) { broken.push_back(s); }
  // the rule must have seen at least n instances of k
  void need(const std::string &k, long n) {
    if (counts[k] < n)
      breakage("expected at least " + std::to_string(n) + " " + k + ", saw " +
               std::to_string(counts[k]));
  }
};
extern Report R;
extern bool Verbose;

// ---------------------------------------------------------------- program
struct Group { // core linked with one library module
  std::string name;
  std::unique_ptr<Module> M;
};
struct Input {
  std::vector<std::string> core;                            // bitcode of libcora
  std::vector<std::pair<std::string, std::vector<std::string>>> mods; // name -> bitcode
};
extern LLVMContext Ctx;

std::unique_ptr<Module> loadGroup(const std::vector<std::string> &core,
                                  const std::vector<std::string> &mod);
// runs fn on the core alone ("core") and on the core linked with each module;
// functions of the module carry own(F) == true, core functions only in "core"
void forEachGroup(const Input &in,
                  const std::function<void(Module &, const std::string &)> &fn,
                  bool withCore = true);
bool own(const Function *F);

std::string fname(const Function *F);         // source level function name
std::string calleeName(const CallBase *CB);   // "" when indirect
std::string srcFile(const Function *F);       // path relative to /repo
std::string loc(const Instruction *I);        // file:line (function)
std::string locFile(const Instruction *I);
bool isDbgOrLifetime(const Instruction *I);

struct NormOpts {
  std::set<std::string> keep;      // functions that stay calls
  std::set<std::string> inaccess;  // treated as touching no program memory
  std::set<std::string> readonly;  // only read memory
  // functions without a body touch program memory only through their arguments
  bool externArgsOnly = false;
  bool gvn = true;
  bool simplify = true; // false: inlining and promotion only
  bool jumpThreading = false;
  // only functions for which this returns true may be inlined (null: all)
  std::function<bool(const Function *)> mayInline;
};
void normalise(Module &M, const NormOpts &O);
void promote(Module &M); // SROA only

// true when the function is an analysis root after inlining
bool isRoot(const Function &F);

struct Analyses {
  DominatorTree DT;
  LoopInfo LI;
  PostDominatorTree PDT;
  explicit Analyses(Function &F) : DT(F), LI(DT), PDT(F) {}
};

// ---------------------------------------------------------------- debug info
struct Field {
  std::string name, type; // type: name of the outermost typedef/type
  uint64_t off = 0, size = 0;
  bool isArray = false, flexible = false;
  const DIType *di = nullptr;
};
struct StructInfo {
  std::string name;
  uint64_t size = 0;
  std::vector<Field> fields;
  const Field *get(const std::string &n) const;
};
// struct by tag or typedef name
const StructInfo *structByName(Module &M, const std::string &name);
const StructInfo *structOf(const DIType *T);
const DIType *stripQuals(const DIType *T);
bool isObjType(const DIType *T);        // typedef Obj
const DIType *pointee(const DIType *T); // null when not a pointer
// DI type of parameter / return value
const DIType *paramType(const Function *F, unsigned i);
const DIType *retType(const Function *F);
// does this value point to the start of a struct of that tag
bool pointsTo(const Value *B, const std::string &tag);
// strips constant offsets: base + off
const Value *baseOf(const Value *P, int64_t &off, const DataLayout &DL);
// the type of code the virtual machine runs: void (Cora*, int, Obj*)
bool isStepType(const Function *F);
bool isStepCall(const CallBase *CB);
// steps of the group: functions of step type whose address is taken, or "entry"
std::vector<Function *> steps(Module &M);
// labels with which each function can be entered
std::map<const Function *, std::set<int64_t>> installedLabels(Module &M);
int64_t enumValue(Module &M, const std::string &name, bool &found);

// ---------------------------------------------------------------- expressions
// canonical key of a value; loads are pure when PureLoads is set
struct Lin {
  int64_t c = 0;
  std::map<std::string, int64_t> t;
  bool isConst() const { return t.empty(); }
  Lin operator+(const Lin &o) const;
  Lin operator-(const Lin &o) const;
  Lin operator*(int64_t k) const;
  bool operator==(const Lin &o) const { return c == o.c && t == o.t; }
  bool operator<(const Lin &o) const {
    return c != o.c ? c < o.c : t < o.t;
  }
  std::string str() const;
};
struct ExprCtx {
  bool pureLoads = false;
  std::map<std::string, const Value *> atoms; // key -> a representative
  std::map<const Value *, std::string> names;
  std::map<const Value *, Lin> memo;
  std::set<const Value *> busy;
  // substitution applied before anything else (e.g. phi -> known value)
  std::function<const Value *(const Value *)> subst;
  Lin lin(const Value *V);
  std::string key(const Value *V);
  std::string atom(const Value *V);
  void setName(const Value *V, const std::string &n) { names[V] = n; }
};

// ---------------------------------------------------------------- loops
struct LoopSpace {
  bool ok = false;
  std::string why;
  const Loop *L = nullptr;
  // IVs of the loop: atom key -> (start, step)
  std::map<std::string, std::pair<Lin, int64_t>> iv;
  // number of body executions N satisfies N*unit == span
  Lin span;
  int64_t unit = 1;
  BasicBlock *exiting = nullptr;
};
LoopSpace loopSpace(const Loop *L, ExprCtx &E);
// Half open byte range visited by an address inside the loop.
struct Range {
  bool ok = false;
  Lin lo, len; // len in bytes
  std::string why;
};
// addr evaluated for all iterations of S; size of one access in bytes.
// beforeTest: the access runs before the loop's exit test (bottom-tested loop)
Range addrRange(const Lin &addr, const LoopSpace &S, uint64_t size, bool beforeTest = false);
// decides beforeTest for an instruction of the loop; false when it does not
// run on every iteration
bool placement(const Instruction *I, const LoopSpace &S, DominatorTree &DT, bool &beforeTest);

// ---------------------------------------------------------------- evaluation
// Known bits of V when some values are known (key -> bits); loads through the
// same address count as the same value.
struct Eval {
  std::map<const Value *, KnownBits> known;
  std::function<bool(const Value *, KnownBits &)> lookup;
  std::map<const Value *, KnownBits> memo;
  KnownBits bits(const Value *V, int depth = 0);
  // 1 true, 0 false, -1 unknown
  int cond(const Value *V, int depth = 0);
};
// Blocks reachable from `from` to a return without executing an instruction
// for which stop() holds; edges can be pruned. Returns a witness return or null.
const Instruction *escapes(const Instruction *from, bool inclusive,
                           const std::function<bool(const Instruction *)> &stop,
                           const std::function<bool(const BasicBlock *, const BasicBlock *)> &edgeOk);

// ---------------------------------------------------------------- facts
// Linear facts "Lin <= 0" known at a point
struct Facts {
  std::vector<Lin> le0;
  std::vector<Lin> ne0;
  void add(const Lin &l) { le0.push_back(l); }
  bool prove(const Lin &goal, int depth = 2) const; // goal <= 0
};
// facts from a condition being true/false
void factsFromCond(const Value *C, bool truth, ExprCtx &E, Facts &F, int depth = 0);
// facts holding at the start of block B because of dominating branches
Facts dominatingFacts(BasicBlock *B, DominatorTree &DT, ExprCtx &E);

// ---------------------------------------------------------------- kinds
// kinds of values; numbers are one kind
enum Kind : uint16_t {
  K_Number = 1, K_Immed = 2, K_CObj = 4, K_Symbol = 8, K_Bytes = 16,
  K_Cons = 32, K_Native = 64, K_Vector = 128, K_Gensym = 256,
  K_Cont = 512, K_All = 1023
};
std::string kindStr(unsigned k);

bool endsInTrap(const BasicBlock *B);

// rules
typedef void (*RuleFn)(const Input &);
struct RuleReg {
  RuleReg(const char *id, RuleFn f);
};
std::map<std::string, RuleFn> &ruleTable();
#define RULE(id)                                                               \
  static void rule_##id(const Input &);                                        \
  static RuleReg reg_##id(#id, rule_##id);                                     \
  static void rule_##id(const Input &in)
