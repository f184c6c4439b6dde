// O01: handles of the operating system. Every file, pipe, socket, descriptor,
// address list and library an operation obtains is followed on every path: it
// is used only where obtaining it is known to have succeeded, and when the
// operation ends it was released or handed over to the program.
#include "tokens.h"

RULE(O01) {
  TokenRules T;
  T.rule = "O01";
  auto add = [&](const char *what, std::vector<const char *> by, std::set<std::string> release) -> Resource & {
    Resource r;
    r.what = what;
    r.release = std::move(release);
    r.mustRelease = !r.release.empty();
    for (auto *n : by)
      T.create[n] = r;
    return T.create[by[0]];
  };
  add("a file", {"fopen", "fopen64", "fdopen", "tmpfile"}, {"fclose"});
  add("a pipe", {"popen"}, {"pclose"});
  add("a directory", {"opendir"}, {"closedir"});
  for (const char *n : {"socket", "accept", "accept4", "open", "open64", "openat", "dup", "epoll_create", "epoll_create1",
                        "kqueue", "creat", "eventfd", "inotify_init"})
    add("a descriptor", {n}, {"close"}).form = Resource::Descriptor;
  add("a library", {"dlopen"}, {"dlclose"});
  auto &ai = add("an address list", {"getaddrinfo"}, {"freeaddrinfo"});
  ai.form = Resource::OutParam;
  ai.out = 3;
  ai.deep = true;
  add("a user record", {"getpwuid", "getpwnam"}, {}).deep = true;
  add("a host record", {"gethostbyname"}, {}).deep = true;
  add("a variable of the environment", {"getenv"}, {});
  add("a json tree", {"json_load_file", "json_loads", "json_loadb", "json_loadf"}, {});
  add("a json text", {"json_string_value"}, {});
  add("a json node", {"json_array_get", "json_object_get"}, {});
  forEachGroup(in, [&](Module &M, const std::string &g) {
    NormOpts O;
    O.simplify = false;
    O.keep = {"newObj",     "gcAlloc",     "coraRun",      "gcMarkRoot",         "bindSymbol",
              "stackAlloc", "coraReturn",  "stackAllocSlowPath", "_vector_append",
              "makeNative", "makeString",  "makeCString",  "makeBytes",          "makeCons",
              "coraCall",   "coraCall0",   "coraCall1",    "coraCall2",          "coraCall3",
              "coraCall4",  "fixnum",      "globalRef",    "globalSet",          "saveCont", "coraReturnSlowPath",
              "gcMark", "eq", "primSet", "symbolGet", "vectorRef", "vectorSet", "makeVector", "coraMakeCString",
              "coraRegisterAPI", "registerAPI", "intern", "strFree", "strCat", "strCpy", "strAppend", "strDup", "strNew"};
    for (auto &F : M)
      if (auto *SP = F.getSubprogram(); SP && SP->getFilename().contains("md4c.c"))
        O.keep.insert(F.getName().str());
    normalise(M, O);
    checkTokens(M, [](const Function &F) { return own(&F) && isRoot(F); }, T);
  });
  R.need("creation sites", 10);
  R.need("functions", 8);
  R.need("releases", 5);
}
