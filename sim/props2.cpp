// Properties decided against the reference model.
#include "exec.h"
#include "props.h"
#include <algorithm>
#include <cerrno>

// What restoring a backup into an empty file system has to give.
bool sameAsModel(const Tree &got, const std::map<std::string, std::pair<MState, int>> &want, std::string &why)
{
  for(auto &e : want)
  {
    const MState &m = e.second.first;
    auto it = got.find(e.first);
    if(it == got.end()) { why = e.first + " is missing"; return false; }
    const Entry &g = it->second;
    int t = g.type == FT::Reg ? ST_reg : g.type == FT::Dir ? ST_dir : g.type == FT::Lnk ? ST_lnk : -1;
    if(t != m.type) { why = e.first + " has another type"; return false; }
    if(g.uid != m.uid || g.gid != m.gid) { why = e.first + " has another owner (" + std::to_string(g.uid) + ":" + std::to_string(g.gid) + " instead of " + std::to_string(m.uid) + ":" + std::to_string(m.gid) + ")"; return false; }
    if(t != ST_lnk && g.mode != m.mode) { char b[64]; snprintf(b, sizeof b, " has mode %o instead of %o", g.mode, m.mode); why = e.first + b; return false; }
    if(t != ST_lnk && e.second.second != P_none && secs(g.mtime) != m.mtime)
    {
      why = e.first + " has another modification time (" + std::to_string(secs(g.mtime)) + " instead of " + std::to_string(m.mtime) + ")";
      return false;
    }
    if(t != ST_dir && g.data != m.data && *g.data != *m.data) { why = e.first + (t == ST_lnk ? " has another target" : " has another content"); return false; }
  }
  for(auto &e : got) if(!want.count(e.first)) { why = e.first + " is unexpected"; return false; }
  return true;
}
bool histEqualsModel(Ex &ex, const Hist &h, const Model &m, std::string &why)
{
  ex.st.modelChecks++;
  if(!h.ok) { why = h.err; return false; }
  int n = m.ids();
  if((int)h.ids.size() != n) { why = "the history has " + std::to_string(h.ids.size()) + " backups instead of " + std::to_string(n); return false; }
  for(int i = 0; i < n; i++)
    if(!sameAsModel(h.ids[(size_t)i], m.tree(i), why)) { why = "backup " + std::to_string(i) + ": " + why; return false; }
  return true;
}
static std::string metaBytes(const World &w) { return fileAt(w, "/repo/metadata"); }

// Runs a backup and keeps the model in step. Returns false if the run cannot be judged or a violation was found.
bool modelBackup(Ex &ex, St &s, const Step &x, Ran &r, bool compare)
{
  Conf c = parseConf(ex.config(s.w));
  Model next = s.m;
  r.rr = next.backup(s.w.fs, c, true);
  if(r.rr.dies && r.rr.why == "the repository itself is selected") { r.skipped = true; return false; }
  std::string before = metaBytes(s.w), why;
  if(compare) r.before = ex.observe(s.w);
  World start = s.w;
  r.o = ex.nb(s.w, x);
  const Out &o = r.o;
  if(o.end == End::Crashed || o.end == End::Hang) { ex.fail("a backup " + o.brief()); return false; }
  if(!hasFaults(x))
  {
    if(r.rr.dies)
    {
      if(!o.failed()) { ex.fail("a backup that cannot be done (" + r.rr.why + ") " + o.brief()); return false; }
    }
    else if(!r.rr.asks || saysYes(x))
    {
      if(!o.ok()) { ex.fail("an ordinary undisturbed backup " + o.brief()); return false; }
    }
    else if(!o.failed()) { ex.fail("a backup that was not confirmed " + o.brief()); return false; }
  }
  r.committed = metaBytes(s.w) != before;
  if(!hasFaults(x))
  {
    bool should = !r.rr.dies && r.rr.asks && saysYes(x);
    if(!should && r.committed) { ex.fail("a backup without changes (or consent) was recorded"); return false; }
    r.committed = should; // a backup that only forgets paths never stored leaves no trace
  }
  if(r.committed) s.m = next;
  if(o.end != End::Exited || o.code) s.w.fs.syncAll();
  if(compare)
  {
    r.after = ex.observe(s.w);
    if(!histEqualsModel(ex, r.after, s.m, why)) { ex.fail("after a backup: " + why); return false; }
  }
  return !ex.bad();
}
bool hasMeta(const World &w) { bool e; fileAt(w, "/repo/metadata", &e); return e; }
// Other commands, which never change the history.
void otherRun(Ex &ex, St &s, const Step &x)
{
  std::string cmd = x.get("cmd"), why;
  if(cmd != "backup" && !hasMeta(s.w)) return;
  Out o = ex.nb(s.w, x);
  if(o.end == End::Crashed || o.end == End::Hang) return ex.fail(cmd + " " + o.brief());
  if(!hasFaults(x) && !o.ok() && !(cmd == "restore" && !saysYes(x))) return ex.fail("an ordinary undisturbed " + cmd + " run " + o.brief());
  if(o.end != End::Exited || o.code) s.w.fs.syncAll();
  Hist h = ex.observe(s.w);
  if(!histEqualsModel(ex, h, s.m, why)) ex.fail("after " + cmd + ": " + why);
}
Step crashOrFail(Rng &r, const std::vector<SysRec> &tr, Step b)
{
  uint32_t at = pickCalls(r, tr, 1)[0];
  if(at > tr.size()) at = (uint32_t)tr.size();
  int k = (int)r.below(3);
  if(k == 0) b.add("f", "kill@" + std::to_string(at));
  else if(k == 1) { b.add("f", "power@" + std::to_string(at)); b.set("cm", powerSuffix(r)).set("cs", (int64_t)r.below(100000)); }
  else { std::string f = errFault(r, tr, at); if(!f.empty()) b.add("f", f); }
  return b;
}
void tick(Ex &ex, Rng &r) { ex.step(Step("clk").set("d", 1000000000LL * (int64_t)(1 + r.below(50000)))); }

// ---- C06 -----------------------------------------------------------------
static void run06(Ex &ex, St &s, const Step &x)
{
  if(x.get("cmd") != "backup") return otherRun(ex, s, x);
  Ran r;
  if(!modelBackup(ex, s, x, r)) return;
  // independent of the model: the newest backup holds the current state of everything selected
  if(!r.o.ok() || !saysYes(x)) return;
  std::string err, why;
  Conf c = parseConf(ex.config(s.w));
  auto found = searchFs(s.w.fs, c, err);
  if(!err.empty() || r.after.ids.empty()) return;
  for(auto &f : found)
  {
    if(f.second.other || f.second.pol == P_none) continue;
    auto it = r.after.ids[0].find(f.first);
    if(it == r.after.ids[0].end()) return ex.fail("the newest backup lacks " + f.first);
  }
}
static void gen06(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = 12;
  o.sameSecondEdits = r.chance(0.3);
  o.collide = 0.1;
  Gen g(ex, r, o);
  if(g.crowd()) return;
  g.initWorld("ord=" + std::to_string(r.below(2)));
  g.tree();
  g.config();
  int n = 3 + (int)r.below(ex.thorough ? 14 : 8);
  std::vector<Step> undo;
  for(int i = 0; i < n && !ex.bad(); i++)
  {
    if(i) { g.edit((int)r.below(5)); if(r.chance(0.45)) g.config(); }
    g.fixConfig();
    tick(ex, r);
    if(i && r.chance(0.15)) { ex.step(envStep(r, runStep("gc"))); continue; }
    if(i && r.chance(0.1) && hasMeta(ex.s.w)) { Step b = runStep("restore", 0); g.dropDirLinks(); ex.step(envStep(r, b)); continue; }
    Step b = envStep(r, runStep("backup"));
    if(r.chance(0.15))
    {
      auto d = ex.dry(ex.s.w, b);
      if(!d->o.trace.empty()) { ex.step(crashOrFail(r, d->o.trace, b)); continue; }
    }
    if(r.chance(0.06)) b.set("ans", r.pick({"n\n", "no\n", "", "maybe\n"}));
    ex.step(b);
  }
}
extern const Prop propC06 = {"C06", gen06, run06, nullptr};
extern const Prop propC01, propC02, propC03, propC08, propC11, propC16, propC19, propC20, propC12, propC13, propC14, propC15, propC04, propC05, propC07, propC09, propC10, propC17, propC18, propC22, propC23, propC24, propC25;
const std::vector<const Prop *> allProps = {&propC01, &propC02, &propC03, &propC04, &propC05, &propC06, &propC07, &propC08, &propC09, &propC10, &propC11, &propC12, &propC13, &propC14, &propC15, &propC16, &propC17, &propC18, &propC19, &propC20, &propC22, &propC23, &propC24, &propC25};
