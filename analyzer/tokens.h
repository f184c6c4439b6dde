// Path-sensitive typestate of resources: buffers and system handles.
#pragma once
#include "common.h"

struct Resource {
  std::string what;                  // for messages
  enum { Pointer, Descriptor, OutParam } form = Pointer;
  unsigned out = 0;                  // argument holding the address (OutParam)
  bool mustCheck = true;             // creation may fail and must be tested
  bool mustRelease = true;           // must be released or handed over
  bool deep = false;                 // addresses read from it die with it
  std::set<std::string> release;     // functions that release it (argument 0)
  std::set<std::string> move;        // release and create again (realloc)
};
struct TokenRules {
  std::string rule;
  std::map<std::string, Resource> create; // function name -> resource
  // calls of functions that are part of the machine keep nothing
  std::function<bool(const CallBase *)> transparent;
};
// explores every path of the functions; reports through R
void checkTokens(Module &M, const std::function<bool(const Function &)> &which, const TokenRules &T);
