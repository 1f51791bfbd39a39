// Helpers shared by the properties.
#pragma once
#include "exec.h"
#include <cstring>
// props1.cpp
struct Needed { std::map<std::string, std::string> objs; std::set<std::string> dirs; FMeta m; };
bool needed(const World &w, Needed &n, std::string &why);
bool onlyNeeded(const World &w, std::string &why);
Step crashVariant(Rng &r, const std::vector<SysRec> &tr, Step b, const char *op);
Step failVariant(Ex &ex, Rng &r, const Out &dry, Step b, bool rx = false);
void disturb(Ex &ex, Gen &g, Rng &r);
void disturbPaths(Ex &ex, Gen &g, Rng &r);
void dirLink(Ex &ex, Gen &g, Rng &r);
Step restoreStep(Ex &ex, Gen &g, Rng &r);
void litter(Ex &ex, Rng &r);
std::set<std::string> timedDirs(const World &w, const Step &x);
std::set<std::string> looseDirs(const World &w);
// props2.cpp
bool sameAsModel(const Tree &got, const std::map<std::string, std::pair<MState, int>> &want, std::string &why);
bool histEqualsModel(Ex &ex, const Hist &h, const Model &m, std::string &why);
struct Ran { RunResult rr; Out o; Hist before, after; bool committed = false; bool skipped = false; };
bool modelBackup(Ex &ex, St &s, const Step &x, Ran &r, bool compare = true);
void otherRun(Ex &ex, St &s, const Step &x);
Step crashOrFail(Rng &r, const std::vector<SysRec> &tr, Step b);
bool hasMeta(const World &w);
void tick(Ex &ex, Rng &r);
// Compares all earlier backups after a new one, restricted to the paths `keep` accepts. Backups nothing refers
// to any more vanish; their states have to equal those of the next older one.
bool pastKept(const FMeta &om, const Hist &old, const FMeta &nm, const Hist &now, const std::function<bool(const std::string &)> &keep, std::string &why);
inline bool hasFaults(const Step &x) { return x.has("f"); }
inline bool saysYes(const Step &x)
{
  std::string a = x.get("ans", "y\n"), l;
  for(size_t i = 0; i <= a.size(); i++)
  {
    if(i < a.size() && !strchr("\n\r", a[i])) { l += a[i]; continue; }
    if(i == a.size() && l.empty()) return false;
    if(l == "y" || l == "yes") return true;
    if(l == "n" || l == "no") return false;
    l.clear();
  }
  return false;
}
inline Step envStep(Rng &r, Step s, double p = 0.5)
{
  if(r.chance(p)) s.set("es", (int64_t)(1 + r.below(1000)));
  return s;
}
// props3.cpp
std::map<std::string, std::pair<MState, int>> metaTree(const FMeta &m, uint64_t id);
