// Paths through a function with memory as a list of region writes over linear
// addresses. Loops are not unrolled: a loop is summarised by the regions its
// stores sweep and by its induction (or recurrence) values.
#pragma once
#include "common.h"

struct FSrc {
  enum { Val, Copy, Elem, Unknown } k = Unknown;
  Lin v;          // Val: the value; Copy: source address; Elem: value as a function of atom `k`
  size_t snap = 0; // Copy: writes visible when the bytes were copied
  std::string idx; // Elem: the element number atom
};
struct FWr {
  Lin lo, len;
  uint64_t unit = 0; // element size
  int sweep = 0;     // direction of the loop that stored it
  FSrc s;
};
struct FEv {
  std::string name;
  const CallBase *CB = nullptr;
  std::vector<Lin> args;
  Lin result;
  size_t snap = 0;
  bool inLoop = false;
};
struct FRec { // a value carried round a loop that is neither linear nor a plain recurrence
  Lin init, next;
};
struct FState {
  std::map<const Value *, Lin> env;
  std::map<const Value *, const Value *> cond; // i1 phis
  std::vector<FWr> w;
  Facts facts;
  std::vector<Lin> eq0;
  std::vector<FEv> ev;
  const Instruction *end = nullptr;
  std::map<const BasicBlock *, std::vector<Lin>> stay, stayNe; // conditions under which the loop continued
};
struct Flow {
  Module &M;
  const DataLayout &DL;
  std::set<std::string> events; // calls that are only recorded
  std::set<const Function *> inl;
  unsigned limit = 4000, work = 0;
  bool overflow = false;
  std::vector<std::string> notes;
  struct FRead {
    Lin addr;
    uint64_t size;
    size_t snap;
  };
  std::map<std::string, FRead> mixed; // values read from places stored piece by piece
  std::vector<FRead> reads; // initial memory read, as of which write
  std::map<std::string, FRec> recs;

  explicit Flow(Module &M);
  // ---- atoms
  struct Node {
    std::string op;
    std::vector<Lin> args;
    bool ptr = false;
    const Function *fn = nullptr;
    unsigned born = 0;
  };
  std::map<std::string, Node> nodes; // by atom name
  std::map<std::string, std::string> intern;
  unsigned fresh = 0;
  Lin node(const std::string &op, const std::vector<Lin> &args, bool ptr = false);
  Lin leaf(const std::string &name, bool ptr = false);
  Lin unk(const char *why, bool ptr = false);
  Lin subst(const Lin &l, const std::string &atom, const Lin &by);
  bool mentions(const Lin &l, const std::function<bool(const std::string &, const Node &)> &p) const;
  std::string show(const Lin &l) const;
  const Node *single(const Lin &l) const; // l is exactly one atom
  std::string root(const Lin &l) const;   // the object an address lies in, "" unknown

  // ---- memory
  Lin load(const FState &S, const Lin &addr, uint64_t size, bool ptr, size_t snap = ~size_t(0));
  void store(FState &S, const Lin &addr, uint64_t size, const Lin &v);
  bool le(const FState &S, const Lin &a, const Lin &b) const; // a <= b
  bool eq(const FState &S, const Lin &a, const Lin &b) const;
  // [lo, lo+len) holds the initial contents of [src, ..) / the values given per element
  bool holdsCopy(const FState &S, Lin lo, Lin len, const Lin &src, std::string &why, size_t snap = ~size_t(0), int depth = 0);
  bool holdsElems(const FState &S, Lin lo, Lin count, const Lin &elem, const std::string &k, std::string &why);

  // ---- paths
  std::vector<FState> run(const Function *F, FState S);
  FState enter(const Function *F, const std::vector<Lin> &args, const FState *from = nullptr);
  // the outcomes of one execution of a loop body from a given state
  struct Out {
    FState S;
    enum { Ret, Back, Exit } kind;
    const BasicBlock *to = nullptr, *pred = nullptr;
  };
  std::vector<Out> explore(const Function *F, FState S, const BasicBlock *B, const BasicBlock *pred, const Loop *within,
                           Analyses &A);
  std::map<const Function *, std::unique_ptr<Analyses>> an;
  Analyses &analyses(const Function *F);
  Lin val(const Value *V, FState &S);
  int64_t off(const char *st, const char *field); // field offset
  uint64_t fsize(const char *st, const char *field);
  std::set<int64_t> vecs; // offsets of vectors in struct Cora
  Lin co;

private:
  struct Alt {
    std::vector<Lin> le, ne, eq;
  };
  std::vector<Alt> alts(const Value *C, bool truth, FState &S, int depth = 0);
  bool assume(FState &S, const Alt &a);
  bool call(const CallBase *CB, FState &S);
  void loop(const Loop *L, const FState &S, const BasicBlock *pred, std::vector<Out> &outs, Analyses &A, const Function *F);
};
// the functions registered as primitive operation `name` (primSet, intern and makeNative kept as calls)
std::set<const Function *> registered(Module &M, const std::string &name);
