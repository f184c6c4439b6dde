#include "common.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <cstring>

// coran RULE[,RULE...] OUT.json --core a.bc b.bc ... --mod name x.bc --mod ...
int main(int argc, char **argv) {
  if (argc < 4)
    return 3;
  std::string rules = argv[1], out = argv[2];
  Input in;
  int i = 3;
  while (i < argc) {
    if (!strcmp(argv[i], "-v")) {
      Verbose = true;
      i++;
    } else if (!strcmp(argv[i], "--core")) {
      for (i++; i < argc && argv[i][0] != '-'; i++)
        in.core.push_back(argv[i]);
    } else if (!strcmp(argv[i], "--mod") && i + 2 < argc) {
      std::string nm = argv[i + 1];
      std::vector<std::string> fs;
      for (i += 2; i < argc && argv[i][0] != '-'; i++)
        fs.push_back(argv[i]);
      in.mods.push_back({nm, fs});
    } else {
      errs() << "bad argument " << argv[i] << "\n";
      return 3;
    }
  }
  json::Object all;
  SmallVector<StringRef, 4> rs;
  StringRef(rules).split(rs, ',');
  for (auto r : rs) {
    auto it = ruleTable().find(r.str());
    if (it == ruleTable().end()) {
      errs() << "no rule " << r << "\n";
      return 3;
    }
    R = Report();
    if (Verbose)
      errs() << "== " << r << "\n";
    it->second(in);
    json::Object o;
    json::Array v;
    for (auto &x : R.viols)
      v.push_back(json::Object{{"rule", x.rule}, {"key", x.key}, {"where", x.where}, {"msg", x.msg}});
    json::Object c, s;
    for (auto &p : R.counts)
      c[p.first] = p.second;
    for (auto &p : R.samples) {
      json::Array a;
      for (auto &q : p.second)
        a.push_back(q);
      s[p.first] = std::move(a);
    }
    json::Array b;
    for (auto &x : R.broken)
      b.push_back(x);
    o["violations"] = std::move(v);
    o["counts"] = std::move(c);
    o["samples"] = std::move(s);
    o["broken"] = std::move(b);
    all[r] = std::move(o);
  }
  std::error_code EC;
  raw_fd_ostream os(out, EC);
  os << formatv("{0:2}", json::Value(std::move(all)));
  return 0;
}
