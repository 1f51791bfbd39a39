// Crash, durability, failure and repetition properties (differential oracles).
#include "exec.h"
#include "props.h"
#include <algorithm>
#include <cerrno>

static void badEnd(Ex &ex, const Out &o, const std::string &what)
{
  if(o.end == End::Crashed || o.end == End::Hang) ex.fail(what + " " + o.brief());
}
// Commands that must keep working on whatever an interruption left behind.
static void followUps(Ex &ex, const World &w, const Hist &h, const Step &x)
{
  std::string why;
  if(h.meta)
  {
    World c = w;
    Out o = ex.nb(c, runStep("integrity"));
    if(!o.ok()) return ex.fail("after the interruption: integrity " + o.brief() + " / " + o.out.substr(0, 300));
    c = w;
    o = ex.nb(c, runStep("gc"));
    if(!o.ok()) return ex.fail("after the interruption: gc " + o.brief());
    Hist g = ex.observe(c);
    if(!sameHist(h, g, why)) return ex.fail("gc after the interruption changed the history: " + why);
  }
  World c = w;
  Step b = runStep("backup");
  if(x.has("es")) b.set("es", x.get("es"));
  Out o = ex.nb(c, b);
  if(!o.ok()) return ex.fail("after the interruption: the next backup " + o.brief());
  Hist g = ex.observe(c);
  if(!g.ok) ex.fail("after the next backup: " + g.err);
}

// ---- C01 -----------------------------------------------------------------
static void run01(Ex &ex, St &s, const Step &x)
{
  if(!hasFaults(x)) { ex.plain(s.w, x); return; }
  std::string cmd = x.get("cmd");
  Hist old = ex.observe(s.w);
  if(!old.ok) return ex.fail("history unreadable before the run: " + old.err);
  auto d = ex.dry(s.w, x);
  if(!d->o.ok()) return ex.fail("an ordinary undisturbed " + cmd + " run " + d->o.brief());
  Hist neu = ex.observe(d->w);
  if(!neu.ok) return ex.fail("history unreadable after an ordinary run: " + neu.err);
  Out o = ex.nb(s.w, x);
  badEnd(ex, o, "the run");
  if(ex.bad()) return;
  Hist h = ex.observe(s.w);
  std::string w1, w2;
  bool isOld = sameHist(old, h, w1), isNew = sameHist(neu, h, w2);
  if(!isOld && !isNew) return ex.fail("the interrupted " + cmd + " left neither the old history (" + w1 + ") nor the new one (" + w2 + ")");
  if(o.ok() && !isNew) return ex.fail("the run succeeded without recording its backup: " + w2);
  ex.st.count[isOld && isNew ? "old=new" : isOld ? "old" : "new"]++;
  followUps(ex, s.w, h, x);
  // A killed run is followed by the operating system's own write-back (C02 covers the power loss before that).
  s.w.fs.syncAll();
}
Step crashVariant(Rng &r, const std::vector<SysRec> &tr, Step b, const char *op)
{
  b.op = op;
  uint32_t at = pickCalls(r, tr, 1)[0];
  if(at > tr.size()) at = (uint32_t)tr.size();
  bool power = r.chance(0.65);
  if(tr[at - 1].s == S_write && tr[at - 1].size > 1 && r.chance(0.4))
  {
    b.add("f", "short@" + std::to_string(at) + ":" + std::to_string(r.below(5000)));
    b.add("f", std::string(power ? "power@" : "kill@") + std::to_string(at + 1));
  }
  else b.add("f", std::string(power ? "power@" : "kill@") + std::to_string(at));
  if(power) { b.set("cm", powerSuffix(r)); b.set("cs", (int64_t)r.below(1000000)); }
  return b;
}
static void gen01(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = 8;
  o.collide = 0.1;
  Gen g(ex, r, o);
  g.initWorld("ord=" + std::to_string(r.below(2)));
  g.tree();
  g.config();
  if(r.chance(0.8)) { g.history((int)r.below(4), 4, r.chance(0.4)); if(r.chance(0.5)) ex.step("sync p=/repo/x"); }
  int rounds = 1 + (int)r.below(3);
  for(int k = 0; k < rounds && !ex.bad(); k++)
  {
    g.edit(1 + (int)r.below(5));
    if(r.chance(0.25)) g.config();
    g.fixConfig();
    ex.step(Step("clk").set("d", 1000000000LL * (int64_t)(1 + r.below(50000))));
    Step b = envStep(r, runStep("backup"));
    auto d = ex.dry(ex.s.w, b);
    if(d->o.trace.empty()) return;
    int n = ex.thorough ? 24 : 10;
    for(int i = 0; i < n && !ex.bad(); i++) ex.step(crashVariant(r, d->o.trace, b, "v"));
    if(!ex.bad()) ex.step(crashVariant(r, d->o.trace, b, "run"));
    if(r.chance(0.3)) ex.step(runStep("backup"));
  }
}

// ---- C02 -----------------------------------------------------------------
// vars: "safe" - the history that was current when a backup last reported success
static void powerCheck(Ex &ex, const World &w0, const Hist &want, int mode, uint64_t seed, const std::string &when)
{
  World w = w0;
  w.fs.powerLoss(mode, seed);
  w.locks.clear();
  Hist h = ex.observe(w);
  std::string why;
  ex.st.faults["power:idle"]++;
  if(!sameHist(want, h, why)) ex.fail("power loss " + when + " damaged the history: " + why);
}
static void run02(Ex &ex, St &s, const Step &x)
{
  std::string cmd = x.get("cmd");
  if(cmd == "idle") // power loss between runs
  {
    if(!s.hists.empty())
    {
      Hist now = ex.observe(s.w);
      if(!now.ok) return ex.fail("history unreadable: " + now.err);
      World w = s.w;
      w.fs.powerLoss((int)x.num("cm"), (uint64_t)x.num("cs"));
      ex.st.faults["power:idle"]++;
      Hist h = ex.observe(w);
      std::string w1, w2;
      bool a = sameHist(s.hists[0], h, w1);
      // an interrupted run may have recorded a newer backup that is not guaranteed yet
      bool b = false;
      for(size_t i = 1; i < s.hists.size(); i++) b = b || sameHist(s.hists[i], h, w2);
      if(!a && !b) return ex.fail("power loss after a successful backup damaged its history: " + w1);
      if(x.num("keep")) { s.w = w; s.w.locks.clear(); s.hists.resize(1); s.hists[0] = h; }
    }
    return;
  }
  auto d = ex.dry(s.w, x);
  Hist before = ex.observe(s.w);
  if(!before.ok) return ex.fail("history unreadable before a run: " + before.err);
  Hist after = ex.observe(d->w);
  Out o = ex.nb(s.w, x);
  badEnd(ex, o, "the run");
  if(ex.bad()) return;
  Hist h = ex.observe(s.w);
  std::string why, why2;
  if(o.end == End::Power)
  {
    // at least what had been reported as successful, or something newer
    bool okk = false;
    if(!s.hists.empty()) for(auto &c : s.hists) okk = okk || sameHist(c, h, why);
    if(!s.hists.empty() && !okk && !sameHist(after, h, why2))
      return ex.fail("power loss during a later " + cmd + " run damaged the history: " + why + " / " + why2);
    if(!h.ok) return ex.fail("power loss left an unreadable history: " + h.err);
    if(!s.hists.empty()) { s.hists.resize(1); s.hists[0] = h; }
    return;
  }
  if(!h.ok) return ex.fail("history unreadable after the run: " + h.err);
  if(o.ok() && cmd == "backup")
  {
    s.hists.resize(1);
    s.hists[0] = h;
    for(int i = 0; i < 4 && !ex.bad(); i++)
      powerCheck(ex, s.w, h, i == 0 ? CM_None : i == 3 ? CM_Ordered : CM_Weak, (uint64_t)x.num("cs", 77) + (uint64_t)i * 1001, "after a successful backup");
  }
  else if(!s.hists.empty() && !sameHist(s.hists[0], h, why))
  {
    // interrupted run that had got as far as recording its backup: either is acceptable from now on
    s.hists.push_back(h);
  }
}
static std::string anyFault(Rng &r, const std::vector<SysRec> &tr, bool kill)
{
  uint32_t at = pickCalls(r, tr, 1)[0];
  if(at > tr.size()) at = (uint32_t)tr.size();
  if(kill) return "kill@" + std::to_string(at);
  return errFault(r, tr, at);
}
static void gen02(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = 7;
  o.collide = 0.1;
  Gen g(ex, r, o);
  g.initWorld("ord=" + std::to_string(r.below(2)));
  g.tree();
  g.config();
  int n = 2 + (int)r.below(6);
  for(int i = 0; i < n && !ex.bad(); i++)
  {
    if(r.chance(0.8)) g.edit((int)r.below(4));
    if(r.chance(0.1)) g.config();
    g.fixConfig();
    ex.step(Step("clk").set("d", 1000000000LL * (int64_t)(1 + r.below(50000))));
    std::string cmd = "backup";
    if(ex.s.hists.size() && r.chance(0.3)) cmd = r.pick({"gc", "integrity", "restore"});
    if(cmd != "backup" && !ex.observe(ex.s.w).meta) cmd = "backup";
    Step b = envStep(r, runStep(cmd));
    if(cmd == "restore") { g.dropDirLinks(); b.set("id", 0); }
    auto d = ex.dry(ex.s.w, b);
    if(d->o.trace.empty()) return;
    double p = r.chance(0.5) ? 0.5 : 0;
    int k = (int)r.below(10);
    if(cmd == "backup" && r.chance(p)) // earlier runs that were interrupted or failed
    {
      std::string f = anyFault(r, d->o.trace, r.chance(0.6));
      if(!f.empty()) b.add("f", f);
      b.set("cs", (int64_t)r.below(100000));
      ex.step(b);
      continue;
    }
    if(ex.s.hists.size())
    {
      for(int j = 0; j < (ex.thorough ? 8 : 4) && !ex.bad(); j++)
      {
        Step v = b; v.op = "v";
        uint32_t at = pickCalls(r, d->o.trace, 1)[0];
        v.add("f", "power@" + std::to_string(at)).set("cm", powerSuffix(r)).set("cs", (int64_t)r.below(1000000));
        ex.step(v);
      }
    }
    b.set("cs", (int64_t)r.below(100000));
    if(cmd == "backup") // a failing sync may not be taken for a successful one
    {
      std::vector<uint32_t> sy;
      for(uint32_t j = 0; j < d->o.trace.size(); j++) if(d->o.trace[j].s == S_sync || d->o.trace[j].s == S_write) sy.push_back(j + 1);
      for(int j = 0; j < (ex.thorough ? 4 : 2) && !sy.empty() && !ex.bad(); j++)
      {
        Step v = b; v.op = "v";
        v.add("f", "err@" + std::to_string(sy[r.below(sy.size())]) + ":" + std::to_string(r.pick({EINTR, EINTR, EIO, ENOSPC})));
        ex.step(v);
      }
    }
    ex.step(b);
    if(k < 3)
      for(int j = 0; j < 2; j++) ex.step(Step(j ? "run" : "v").set("cmd", "idle").set("cm", powerSuffix(r)).set("cs", (int64_t)r.below(1000000)).set("keep", r.chance(0.3) ? 1 : 0));
  }
}


// ---- shared by C03 and C16 ---------------------------------------------------
// Directories whose modification time the step's restore has to set.
std::set<std::string> timedDirs(const World &w, const Step &x)
{
  std::set<std::string> r;
  if(x.get("cmd") != "restore") return r;
  FMeta m = parseMeta(fileAt(w, "/repo/metadata"));
  for(auto &n : m.nodes)
    if(n.pol != P_none && inPath(n.path, x.get("path", "/"))) r.insert(n.path);
  return r;
}
// Directories that no rule selects: restore creates them if missing, but never adjusts existing ones.
std::set<std::string> looseDirs(const World &w)
{
  std::set<std::string> r;
  FMeta m = parseMeta(fileAt(w, "/repo/metadata"));
  for(auto &n : m.nodes) if(n.pol == P_none) r.insert(n.path);
  return r;
}
// Compares everything outside the repository. The modification times of other directories depend on the clock.
static bool sameOutside(const World &a, const World &b, const std::set<std::string> &timed, std::string &why, const std::set<std::string> &loose = {})
{
  Tree x = snap(a, "/", "/repo"), y = snap(b, "/", "/repo");
  for(auto &p : loose)
  {
    auto i = x.find(p), j = y.find(p);
    if(i == x.end() || j == y.end() || i->second.type != FT::Dir || j->second.type != FT::Dir) continue;
    j->second.uid = i->second.uid; j->second.gid = i->second.gid; j->second.mode = i->second.mode;
  }
  for(auto &e : x)
  {
    if(e.second.type != FT::Dir || timed.count(e.first)) continue;
    auto it = y.find(e.first);
    if(it != y.end()) it->second.mtime = e.second.mtime;
  }
  return sameTree(x, y, why);
}
static bool sameRepoFiles(const World &a, const World &b, std::string &why)
{
  Tree x = snap(a, "/repo"), y = snap(b, "/repo");
  for(auto t : {&x, &y}) { t->erase("/repo/metadata"); t->erase("/repo/lockfile"); t->erase("/repo"); }
  for(auto &e : x) { auto it = y.find(e.first); if(it != y.end()) { it->second.mtime = e.second.mtime; it->second.uid = e.second.uid; it->second.gid = e.second.gid; it->second.mode = e.second.mode; } }
  return sameTree(x, y, why, false);
}
// ---- C03 -----------------------------------------------------------------
static std::string verdict(const std::string &out)
{
  // what integrity reports, without progress output
  std::string r;
  size_t i = 0;
  while(i < out.size())
  {
    size_t e = out.find('\n', i);
    if(e == std::string::npos) e = out.size();
    std::string l = out.substr(i, e - i);
    if(l.find("corrupted") != std::string::npos || l.find("Healthy") != std::string::npos || l.find("Incomplete") != std::string::npos) r += l.substr(l.find_last_of("\r\x1b") + 1) + "\n";
    i = e + 1;
  }
  return r;
}
// The terminal itself failed, so that nothing may have been printed.
static bool stdioFault(const Out &o)
{
  for(auto &f : o.fired) if(f.second == S_writeout) return true;
  return false;
}
static void run03(Ex &ex, St &s, const Step &x)
{
  std::string cmd = x.get("cmd");
  if(!hasFaults(x)) { ex.plain(s.w, x); return; }
  auto d = ex.dry(s.w, x);
  if(d->o.end != End::Exited) return ex.fail("an ordinary undisturbed " + cmd + " run " + d->o.brief());
  Hist old = ex.observe(s.w);
  if(!old.ok) return ex.fail("history unreadable before the run: " + old.err);
  Hist neu = ex.observe(d->w);
  auto timed = timedDirs(s.w, x);
  Tree outBefore = snap(s.w, "/", "/repo");
  Out o = ex.nb(s.w, x);
  std::string how = " [" + [&] { std::string t; for(auto &f : x.all("f")) t += f + " "; return t; }();
  for(auto &f : o.fired) how += std::string(f.first == FK::Mem ? "malloc" : f.first == FK::Regex ? "regexec" : sysNames[f.second]) + " ";
  how.back() = ']';
  if(o.end != End::Exited) return ex.fail("a failing call made " + cmd + " end abnormally: " + o.brief() + how);
  ex.st.count[o.fired.empty() ? "no fault fired" : o.code ? "reported" : "tolerated"]++;
  Hist h = ex.observe(s.w);
  std::string why, why2;
  if(o.code == 0)
  {
    if(!d->o.ok()) return ex.fail(cmd + " succeeded with a failing call although the undisturbed run " + d->o.brief() + how);
    if(!sameHist(neu, h, why)) return ex.fail(cmd + " exited with 0 after a failure but the history is wrong: " + why + how);
    if(!sameOutside(d->w, s.w, timed, why)) return ex.fail(cmd + " exited with 0 after a failure but its result differs: " + why + how);
    if(cmd == "integrity" && !stdioFault(o) && verdict(o.out) != verdict(d->o.out)) return ex.fail("integrity exited with 0 after a failure but its verdict differs from the undisturbed run" + how);
    if((cmd == "gc" || cmd == "backup") && !sameRepoFiles(d->w, s.w, why)) return ex.fail(cmd + " exited with 0 after a failure but the repository differs: " + why + how);
    return;
  }
  if(o.err.empty() && !stdioFault(o) && verdict(o.out).empty()) return ex.fail(cmd + " failed without an error message" + how);
  if(!sameHist(old, h, why) && !sameHist(neu, h, why2)) return ex.fail("the failed " + cmd + " left neither the old history (" + why + ") nor the new one (" + why2 + ")" + how);
  if(cmd != "restore")
  {
    Tree now = snap(s.w, "/", "/repo");
    if(!identical(outBefore, now, why)) return ex.fail("the failed " + cmd + " changed something outside the repository: " + why + how);
  }
}
Step failVariant(Ex &ex, Rng &r, const Out &dry, Step b, bool rx)
{
  int n = r.chance(0.8) ? 1 : 2;
  for(int i = 0; i < n; i++)
  {
    int k = (int)r.below(20);
    if(k < 3 && dry.nmem) b.add("f", std::string(r.chance(0.3) ? "mem!@" : "mem@") + std::to_string(1 + r.below(dry.nmem)));
    else if(rx && k < 4 && dry.nrx) b.add("f", "rx@" + std::to_string(1 + r.below(dry.nrx)));
    else if(k < 5 && !dry.trace.empty()) b.add("f", "full@" + std::to_string(1 + r.below(dry.trace.size())) + ":" + std::to_string(r.below(r.chance(0.5) ? 300 : 8000)));
    else if(k < 6)
    {
      // output that cannot be written, or input that cannot be read
      std::vector<uint32_t> io;
      for(uint32_t j = 0; j < dry.trace.size(); j++) if(dry.trace[j].s == S_writeout || dry.trace[j].s == S_readin) io.push_back(j + 1);
      if(io.empty()) continue;
      uint32_t at = io[r.below(io.size())];
      b.add("f", std::string(r.chance(0.5) ? "err!@" : "err@") + std::to_string(at) + ":5");
    }
    else
    {
      uint32_t at = pickCalls(r, dry.trace, 1, r.chance(0.2))[0];
      std::string f = errFault(r, dry.trace, at);
      if(!f.empty()) b.add("f", f);
    }
  }
  (void)ex;
  return b;
}
// Brings the source tree into a different state, so that a restore has something to do.
// Disturbs what the backups contain, one path at a time.
void disturbPaths(Ex &ex, Gen &g, Rng &r)
{
  Hist h = ex.observe(ex.s.w);
  std::vector<std::string> p;
  for(auto &t : h.ids) for(auto &e : t) p.push_back(e.first);
  int c = 1 + (int)r.below(6);
  for(int i = 0; i < c && !p.empty(); i++)
  {
    std::string q = p[r.below(p.size())];
    switch(r.below(9))
    {
      case 0: ex.step(Step("rm").set("p", q)); break;
      case 1: ex.step(Step("mk").set("t", "d").set("p", q).set("x", 1)); break;
      case 2: ex.step(Step("mk").set("t", "f").set("p", q + "/inside").set("n", 25)); break;
      case 3: case 8: ex.step(Step("mk").set("t", "p").set("p", q).set("x", 1)); break;
      case 4: ex.step(Step("mk").set("t", "l").set("p", q).set("to", r.pick({"nowhere", "x y"})).set("x", 1)); break;
      case 5: ex.step(Step("set").set("p", q).set("m", r.pick({"600", "4755", "0", "1777", "2750"}))); break;
      case 6: ex.step(Step("set").set("p", q).set("u", (int64_t)r.below(9)).set("g", (int64_t)r.below(9))); break;
      default: { Step f = g.mkFile(q); f.set("x", 1); ex.step(f); }
    }
  }
}
void disturb(Ex &ex, Gen &g, Rng &r)
{
  int n = 1 + (int)r.below(6);
  if(r.chance(0.25)) for(auto &x : g.roots) ex.step(Step("rm").set("p", x));
  else if(r.chance(0.3)) disturbPaths(ex, g, r);
  else g.edit(n);
  g.dropDirLinks();
}
Step restoreStep(Ex &ex, Gen &g, Rng &r)
{
  int id = 0;
  std::string p = g.anyRepoPath(id);
  Step b = runStep("restore", id);
  if(!p.empty() && r.chance(0.35)) b.set("path", p);
  (void)ex;
  return envStep(r, b);
}
static void gen03(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = 7;
  if(r.chance(0.15)) { o.uid = 5; o.owners = false; }
  o.collide = 0.1;
  Gen g(ex, r, o);
  g.initWorld("ord=1");
  g.tree();
  g.config();
  g.history(1 + (int)r.below(3), 4, true);
  int rounds = 2;
  for(int k = 0; k < rounds && !ex.bad(); k++)
  {
    ex.step(Step("clk").set("d", 1000000000LL * (int64_t)(1 + r.below(50000))));
    std::string cmd = r.pick({"backup", "backup", "restore", "restore", "gc", "integrity"});
    if(!hasMeta(ex.s.w)) cmd = "backup";
    Step b = envStep(r, runStep(cmd));
    if(cmd == "restore") { b = restoreStep(ex, g, r); disturb(ex, g, r); }
    else if(cmd == "backup")
    {
      g.edit(1 + (int)r.below(4));
      if(r.chance(0.2)) g.config();
      g.fixConfig();
    }
    else if(cmd == "gc" && r.chance(0.7)) // give it something to collect
    {
      ex.step(Step("mk").set("t", "f").set("p", "/repo/" + std::string(r.pick({"tmp-file", "a/bc/junk", "x/leftover", "0/11/22x15x0"}))).set("n", 50).set("c", 1));
    }
    else if(cmd == "integrity" && r.chance(0.3)) // something to find
    {
      auto objs = snap(ex.s.w, "/repo");
      for(auto &e : objs)
        if(e.second.type == FT::Reg && e.first.size() > 40 && r.chance(0.4))
        {
          // damage only makes the history unobservable, so the check below compares verdicts on copies
          (void)e;
        }
    }
    if(o.uid) b.set("uid", o.uid).set("gid", o.uid);
    auto d = ex.dry(ex.s.w, b);
    if(d->o.trace.empty() || !d->o.ok())
    {
      if(o.uid && d->o.failed()) return; // an unprivileged user may be unable to do this at all
      if(!d->o.ok()) { ex.step(b); if(!ex.bad()) ex.fail("an ordinary undisturbed " + cmd + " run " + d->o.brief()); return; }
      return;
    }
    int n = ex.thorough ? 40 : 18;
    for(int i = 0; i < n && !ex.bad(); i++)
    {
      Step v = failVariant(ex, r, d->o, b, true);
      if(!v.has("f")) continue;
      v.op = i == n - 1 ? "run" : "v";
      ex.step(v);
    }
  }
}

// ---- C08 -----------------------------------------------------------------
bool needed(const World &w, Needed &n, std::string &why)
{
  bool e;
  std::string b = fileAt(w, "/repo/metadata", &e);
  if(!e) { n.m.ok = true; return true; }
  n.m = parseMeta(b);
  if(!n.m.ok) { why = "the metadata file is malformed (" + n.m.err + ")"; return false; }
  for(auto &f : n.m.nodes)
    for(auto &p : f.hist)
    {
      std::string o = objName(p);
      if(o.empty()) continue;
      std::string full = "/repo/" + o;
      bool ok;
      std::string c = fileAt(w, full, &ok);
      if(!ok) { why = "the stored object " + o + " needed by " + f.path + " is missing"; return false; }
      n.objs[full] = c;
      for(size_t i = full.find('/', 6); i != std::string::npos; i = full.find('/', i + 1)) n.dirs.insert(full.substr(0, i));
    }
  return true;
}
bool onlyNeeded(const World &w, std::string &why)
{
  Needed n;
  if(!needed(w, n, why)) return false;
  for(auto &e : snap(w, "/repo"))
  {
    if(e.first == "/repo" || e.first == "/repo/config" || e.first == "/repo/metadata" || e.first == "/repo/lockfile") continue;
    if(e.second.type == FT::Dir && n.dirs.count(e.first)) continue;
    if(e.second.type == FT::Reg && n.objs.count(e.first)) continue;
    why = e.first + " is left over";
    return false;
  }
  return true;
}
static bool keepsNeeded(const Needed &a, const World &w, std::string &why)
{
  for(auto &e : a.objs)
  {
    bool ok;
    std::string c = fileAt(w, e.first, &ok);
    if(!ok) { why = e.first + " was removed"; return false; }
    if(c != e.second) { why = e.first + " was altered"; return false; }
  }
  return true;
}
static void run08(Ex &ex, St &s, const Step &x)
{
  std::string cmd = x.get("cmd"), why;
  Hist old = ex.observe(s.w);
  if(cmd == "gc" && !old.meta) return;
  if(!old.ok) return ex.fail("history unreadable before the run: " + old.err);
  Needed nb;
  if(!needed(s.w, nb, why)) return ex.fail("before the run: " + why);
  std::string meta = fileAt(s.w, "/repo/metadata"), conf = fileAt(s.w, "/repo/config");
  std::shared_ptr<const Ex::Dry> d;
  Hist neu;
  if(hasFaults(x))
  {
    d = ex.dry(s.w, x);
    if(!d->o.ok()) return ex.fail("an ordinary undisturbed " + cmd + " run " + d->o.brief());
    neu = ex.observe(d->w);
  }
  Out o = ex.nb(s.w, x);
  badEnd(ex, o, "the run");
  if(ex.bad()) return;
  if(!hasFaults(x) && !o.ok()) return ex.fail("an ordinary undisturbed " + cmd + " run " + o.brief());
  Hist h = ex.observe(s.w);
  std::string why2;
  if(cmd == "gc")
  {
    if(!sameHist(old, h, why)) return ex.fail("gc changed the history: " + why);
    if(fileAt(s.w, "/repo/metadata") != meta) return ex.fail("gc altered the metadata");
    if(!keepsNeeded(nb, s.w, why)) return ex.fail("gc: " + why);
  }
  else if(!h.ok) return ex.fail("history unreadable after a " + cmd + " run: " + h.err);
  else if(hasFaults(x) && !sameHist(old, h, why) && !sameHist(neu, h, why2)) return ex.fail("the interrupted " + cmd + " damaged the history: " + why + " / " + why2);
  if(fileAt(s.w, "/repo/config") != conf) return ex.fail(cmd + " altered the configuration");
  Needed na;
  if(!needed(s.w, na, why)) return ex.fail("after a " + cmd + " run: " + why);
  bool collects = cmd == "gc" || (cmd == "backup" && o.asked() && o.out.find("(y/n)") != std::string::npos);
  if(o.ok() && collects && x.get("ans", "y\n") == "y\n" && !onlyNeeded(s.w, why)) return ex.fail("after a successful " + cmd + ": " + why);
  if(o.ok() && collects) ex.st.count["collections"]++;
  // What an interrupted run left is written back eventually (C02 covers a power loss before that).
  s.w.fs.syncAll();
}
void litter(Ex &ex, Rng &r)
{
  int n = 1 + (int)r.below(5);
  Tree t = snap(ex.s.w, "/repo");
  std::vector<std::string> objs, dirs = {"/repo"};
  for(auto &e : t)
  {
    if(e.second.type == FT::Reg && e.first.size() > 30) objs.push_back(e.first);
    if(e.second.type == FT::Dir) dirs.push_back(e.first);
  }
  for(int i = 0; i < n; i++)
  {
    Step m("mk");
    std::string d = dirs[r.below(dirs.size())];
    switch(r.below(9))
    {
      case 0: m.set("t", "f").set("p", "/repo/tmp-file"); break;
      case 1: m.set("t", "d").set("p", d + "/" + std::string(r.pick({"zz", "empty", "0", "ab"}))); break;
      case 2: m.set("t", "l").set("p", d + "/link").set("to", r.pick({"/home", "/etc", "nowhere", "..", "/repo/metadata"})); break;
      case 3: m.set("t", "p").set("p", d + "/pipe"); break;
      case 4:
        if(objs.empty()) { m.set("t", "f").set("p", "/repo/x"); break; }
        { // nearly the name of a needed object
          std::string o = objs[r.below(objs.size())];
          int k = ex.s.w.hashMask ? 0 : (int)r.below(4); // names of few contents are all in use
          if(k == 0) o += "z"; else if(k == 1) o.pop_back(); else if(k == 2) o.back() = o.back() == '0' ? '1' : '0'; else o[o.size() / 2] = o[o.size() / 2] == 'a' ? 'b' : 'a';
          if(o.find("//") != std::string::npos || ex.s.w.fs.lookup(o, false)) { m.set("t", "f").set("p", "/repo/x"); break; }
          m.set("t", "f").set("p", o);
        }
        break;
      case 5: m.set("t", "f").set("p", d + "/config"); if(d == "/repo") m.set("p", "/repo/config2"); break;
      case 6: m.set("t", "f").set("p", d + "/metadata"); if(d == "/repo") m.set("p", "/repo/metadata.bak"); break;
      case 7: m.set("t", "f").set("p", "/repo/sub/dir/deep/file"); break;
      default: m.set("t", "f").set("p", "/repo/lockfile"); break;
    }
    if(m.get("t") == "f") m.set("n", (int64_t)r.below(100)).set("c", (int64_t)r.below(9));
    // never replaces something the history needs
    Ino ex0 = ex.s.w.fs.lookup(m.get("p"), false);
    if(ex0 && m.get("p") != "/repo/tmp-file" && m.get("p") != "/repo/lockfile") continue;
    ex.step(m);
  }
  if(r.chance(0.8)) ex.step(Step("sync").set("p", "/repo/x"));
}
static void gen08(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = 9;
  o.collide = 0.1;
  Gen g(ex, r, o);
  g.initWorld("ord=" + std::to_string(r.below(2)));
  g.tree();
  g.config();
  g.history(2 + (int)r.below(4), 5, true);
  for(int k = 0; k < 3 && !ex.bad(); k++)
  {
    if(r.chance(0.8)) litter(ex, r);
    if(r.chance(0.3)) { g.edit(3); g.config(); } // the next backup loses or replaces states
    bool backup = r.chance(0.4);
    if(backup)
    {
      g.edit(1 + (int)r.below(4));
      if(r.chance(0.5)) g.config();
      g.fixConfig();
    }
    ex.step(Step("clk").set("d", 1000000000LL * (int64_t)(1 + r.below(50000))));
    Step b = envStep(r, runStep(backup ? "backup" : "gc"));
    auto d = ex.dry(ex.s.w, b);
    if(d->o.ok() && !d->o.trace.empty())
    {
      int n = ex.thorough ? 20 : 8;
      for(int i = 0; i < n && !ex.bad(); i++)
      {
        Step v = r.chance(0.6) ? crashVariant(r, d->o.trace, b, "v") : failVariant(ex, r, d->o, b);
        v.op = r.chance(0.1) ? "run" : "v";
        if(v.has("f")) ex.step(v);
      }
    }
    if(!ex.bad()) ex.step(b);
  }
}

// ---- C11 -----------------------------------------------------------------
static void run11(Ex &ex, St &s, const Step &x)
{
  if(x.get("cmd") != "multi") { if(hasFaults(x)) ex.nb(s.w, x); else ex.plain(s.w, x); return; }
  std::vector<Step> subs;
  for(auto &c : x.all("c")) subs.push_back(Step::parse(c));
  if(subs.empty()) return;
  s.w.fs.syncAll(); // what killed runs of an earlier step left pending does not vanish in this one
  World before = s.w;
  std::vector<std::unique_ptr<Proc>> procs;
  std::vector<Proc *> ps;
  std::vector<std::vector<SysRec>> traces(subs.size());
  for(size_t i = 0; i < subs.size(); i++)
  {
    procs.emplace_back(new Proc);
    setupProc(*procs[i], s.w, subs[i]);
    procs[i]->env.pid = 1000 + (uint32_t)i;
    procs[i]->trace = &traces[i];
    ps.push_back(procs[i].get());
  }
  // the schedule: segments of (process, number of calls)
  struct Seg { size_t p; uint64_t n; };
  std::vector<Seg> segs;
  for(auto &t : x.all("s"))
  {
    size_t c = t.find('x');
    segs.push_back({(size_t)strtoul(t.c_str(), nullptr, 10) % subs.size(), c == std::string::npos ? 1 : strtoull(t.c_str() + c + 1, nullptr, 10)});
  }
  size_t at = 0;
  uint64_t switches = 0; Proc *lastP = nullptr;
  runMulti(ps, [&](const std::vector<Proc *> &run) -> size_t {
    size_t pick = 0;
    for(;;)
    {
      if(at >= segs.size()) { break; }
      Seg &g = segs[at];
      if(g.n == 0) { at++; continue; }
      bool found = false;
      for(size_t i = 0; i < run.size(); i++) if(run[i] == ps[g.p]) { pick = i; found = true; }
      if(!found) { at++; continue; }
      g.n--;
      break;
    }
    if(run[pick] != lastP) { switches++; lastP = run[pick]; }
    return pick;
  });
  ex.st.procs += subs.size();
  ex.st.count["context switches"] += switches;
  Hash th;
  for(size_t i = 0; i < ps.size(); i++)
  {
    Proc &p = *ps[i];
    ex.st.syscalls += p.nsys;
    ex.h.add(p.hash.h);
    for(auto &f : p.fired) ex.st.faults[std::string(f.first == FK::Kill ? "kill:" : f.first == FK::Power ? "power:" : "error:") + sysNames[f.second]]++;
    th.add(p.nsys); th.add(p.firstStep); th.add(p.useFirst); th.add(p.useLast); th.add((uint64_t)p.code);
    if(showRuns) printf("---- process %zu %s end %d code %d use %lu-%lu steps %lu-%lu %s\n%s", i, subs[i].text().c_str(), (int)p.end, p.code, (unsigned long)p.useFirst, (unsigned long)p.useLast, (unsigned long)p.firstStep, (unsigned long)p.lastStep, p.crash.c_str(), p.err.c_str());
    if(showRuns && getenv("NB_TRACE")) for(auto &t : traces[i]) printf("  %s %s %d\n", sysNames[t.s], t.path.c_str(), t.err);
    if(p.end == End::Unsupported) throw Abort{"unsupported: " + p.crash};
    if(p.end == End::Crashed || p.end == End::Hang) return ex.fail("process " + std::to_string(i) + " crashed or hung: " + p.crash);
  }
  ex.st.traces.insert(th.h);
  ex.st.states.insert(worldHash(s.w));
  ex.st.count["multi"]++;
  bool power = false;
  for(auto p : ps) if(p->end == End::Power) power = true;
  if(power) { s.w.fs.powerLoss((int)x.num("cm"), (uint64_t)x.num("cs")); s.w.locks.clear(); }
  s.w.locks.clear();
  s.w.freeBytes = -1;
  // exclusive use
  for(size_t i = 0; i < ps.size(); i++)
    for(size_t j = i + 1; j < ps.size(); j++)
    {
      if(!ps[i]->useFirst || !ps[j]->useFirst) continue;
      if(ps[i]->useFirst <= ps[j]->useLast && ps[j]->useFirst <= ps[i]->useLast)
        return ex.fail("processes " + std::to_string(i) + " and " + std::to_string(j) + " used the repository at the same time");
    }
  size_t nok = 0;
  for(auto p : ps) if(p->end == End::Exited && p->code == 0) nok++;
  ex.st.count["succeeded " + std::to_string(nok)]++;
  // equivalent to running them one after another; interrupted ones may or may not have taken effect
  std::vector<size_t> order, maybe;
  for(size_t i = 0; i < ps.size(); i++) order.push_back(i);
  std::sort(order.begin(), order.end(), [&](size_t a, size_t b) { return ps[a]->useFirst < ps[b]->useFirst; });
  for(size_t i : order)
  {
    if(ps[i]->end == End::Exited && ps[i]->code == 0) continue;
    if(ps[i]->useFirst && subs[i].get("cmd") == "backup") maybe.push_back(i);
    if(ps[i]->end == End::Exited && ps[i]->useFirst == 0)
    {
      // a process that lost has to say so
      if(ps[i]->err.empty() && !hasFaults(subs[i]) && saysYes(subs[i])) return ex.fail("process " + std::to_string(i) + " failed without a message");
    }
  }
  if(maybe.size() > 3) return;
  Hist h = ex.observe(s.w);
  if(!h.ok) return ex.fail("concurrent runs left an unreadable history: " + h.err);
  std::string why, first;
  bool restoreKilled = false;
  for(size_t i : order) if(!(ps[i]->end == End::Exited && ps[i]->code == 0) && subs[i].get("cmd") == "restore" && ps[i]->useFirst) restoreKilled = true;
  if(restoreKilled) return; // the source tree is in an intermediate state
  // Directories modified by a restore got their modification time at different moments.
  auto level = [&](Hist &x) {
    for(auto &t : x.ids) for(auto &e : t) if(e.second.type == FT::Dir && e.second.mtime >= secs(before.clock) * 1000000000LL) e.second.mtime = before.clock;
  };
  level(h);
  for(uint32_t m = 0; m < (1u << maybe.size()); m++)
  {
    World w = before;
    bool fine = true;
    for(size_t i : order)
    {
      bool okk = ps[i]->end == End::Exited && ps[i]->code == 0;
      size_t mi = (size_t)(std::find(maybe.begin(), maybe.end(), i) - maybe.begin());
      if(!okk && !(mi < maybe.size() && (m >> mi & 1))) continue;
      Step y = withoutFaults(subs[i]);
      Out o = ex.nb(w, y);
      if(!o.ok()) { if(okk) { fine = false; if(first.empty()) first = "serial run of process " + std::to_string(i) + " " + o.brief(); } break; }
      if(okk && ps[i]->out.find("(y/n)") != std::string::npos && !o.asked()) { fine = false; if(first.empty()) first = "process " + std::to_string(i) + " asked, but a serial run finds nothing to do"; break; }
      w.locks.clear();
    }
    if(!fine) continue;
    Hist e = ex.observe(w);
    level(e);
    if(sameHist(e, h, why)) return;
    if(showRuns) printf("mask %u: %s\n", m, why.c_str());
    if(first.empty()) first = why;
  }
  ex.fail("the result equals no one-after-another execution of the runs that succeeded: " + first);
}
static void finish11(Ex &ex, St &s)
{
  // whatever was left behind never blocks a later run
  for(const char *c : {"gc", "integrity"})
  {
    World w = s.w;
    if(!ex.observe(w).meta) break;
    Out o = ex.nb(w, runStep(c));
    if(!o.ok()) return ex.fail(std::string("a later ") + c + " is blocked: " + o.brief());
  }
  World w = s.w;
  Out o = ex.nb(w, runStep("backup"));
  if(!o.ok()) ex.fail("a later backup is blocked: " + o.brief());
}
static void gen11(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = 5;
  o.collide = 0.1;
  Gen g(ex, r, o);
  g.initWorld("ord=1");
  g.tree();
  g.config();
  g.history((int)r.below(3), 3, false);
  if(!hasMeta(ex.s.w)) g.fixConfig();
  for(int k = 0; k < (ex.thorough ? 12 : 6) && !ex.bad(); k++)
  {
    if(r.chance(0.6))
    {
      g.edit(1 + (int)r.below(3));
      g.fixConfig();
      ex.step(Step("clk").set("d", 1000000000LL * (int64_t)(1 + r.below(50000))));
    }
    if(r.chance(0.2)) ex.step(Step("mk").set("t", "f").set("p", "/repo/lockfile").set("m", r.pick({"600", "644", "600"})));
    int n = 2 + (int)r.below(3);
    Step m(!hasMeta(ex.s.w) && r.chance(0.7) ? "v" : "run");
    m.set("cmd", "multi");
    std::vector<size_t> len;
    for(int i = 0; i < n; i++)
    {
      std::string cmd = r.pick({"backup", "backup", "gc", "integrity", "restore"});
      Step b = envStep(r, runStep(cmd));
      if(cmd == "restore") { g.dropDirLinks(); b.set("id", 0); }
      auto d = ex.dry(ex.s.w, b);
      len.push_back(d->o.trace.size() + 1);
      if(r.chance(0.15)) b.add("f", "kill@" + std::to_string(1 + r.below(d->o.trace.size())));
      else if(r.chance(0.04)) { b.add("f", "power@" + std::to_string(1 + r.below(d->o.trace.size()))); m.set("cm", 1).set("cs", (int64_t)r.below(10000)); }
      else if(r.chance(0.08) && !d->o.trace.empty())
      {
        std::string f = errFault(r, d->o.trace, 1 + (uint32_t)r.below(d->o.trace.size()));
        // a read-only file system is never locked, so there must not be a writer at the same time
        if(!f.empty() && f.substr(f.find(':') + 1) != std::to_string(EROFS)) b.add("f", f);
      }
      if(r.chance(0.1) && (cmd == "backup" || cmd == "restore")) b.set("ans", "n\n");
      if(r.chance(0.12) && (cmd == "integrity" || cmd == "restore")) b.set("uid", 7).set("gid", 7); // somebody else
      m.add("c", b.text());
    }
    // schedules: mostly a few long segments with switches near the beginning and the end of a process
    int style = (int)r.below(3);
    int segs = style == 0 ? 4 + (int)r.below(12) : 8 + (int)r.below(40);
    for(int i = 0; i < segs; i++)
    {
      size_t p = r.below((uint64_t)n);
      uint64_t l;
      if(style == 0)
      {
        int e = (int)r.below(4);
        l = e == 0 ? 1 + r.below(12) : e == 1 ? (len[p] > 12 ? len[p] - r.below(12) : 5) : e == 2 ? 1 + r.below(len[p]) : 1 + r.below(4);
      }
      else if(style == 1) l = 1 + r.below(6);
      else l = r.chance(0.3) ? 1 + r.below(len[p]) : 1 + r.below(10);
      m.add("s", std::to_string(p) + "x" + std::to_string(l));
    }
    ex.step(m);
  }
}

// ---- C16 -----------------------------------------------------------------
static void run16(Ex &ex, St &s, const Step &x)
{
  std::string cmd = x.get("cmd");
  if(cmd != "restore") { ex.plain(s.w, x); return; }
  std::string why;
  auto timed = timedDirs(s.w, x);
  Tree repo = snap(s.w, "/repo");
  auto d = ex.dry(s.w, x);
  if(!d->o.ok()) return ex.fail("an ordinary undisturbed restore " + d->o.brief());
  Out o = ex.nb(s.w, x);
  if(o.end == End::Crashed || o.end == End::Hang) return ex.fail("restore " + o.brief());
  if(o.ok() && !sameOutside(d->w, s.w, timed, why)) return ex.fail("a disturbed restore exited with 0 without reaching the right state: " + why);
  ex.st.count[o.ok() ? "completed" : "interrupted"]++;
  Tree now = snap(s.w, "/repo");
  for(auto t : {&repo, &now}) t->erase("/repo/lockfile");
  now["/repo"].mtime = repo["/repo"].mtime;
  if(!identical(repo, now, why)) return ex.fail("restore changed the repository: " + why);
  World w = s.w;
  Step again = withoutFaults(x);
  Out o2 = ex.nb(w, again);
  if(!o2.ok()) return ex.fail("repeating the interrupted restore " + o2.brief());
  auto loose = looseDirs(w);
  for(auto &e : snap(w, "/", "/repo")) // reached through a symlink that stands in place of a directory
    if(e.second.type == FT::Lnk && *e.second.data == "/other/place")
      for(auto &p : std::set<std::string>(loose)) if(inPath(p, e.first)) loose.insert("/other/place" + p.substr(e.first.size()));
  if(!sameOutside(d->w, w, timed, why, loose)) return ex.fail("repeating the interrupted restore does not reach the state of an undisturbed one: " + why);
  Out o3 = ex.nb(w, again);
  if(!o3.ok() || o3.asked()) return ex.fail("a restore right after a completed one still finds something to do");
}
static void gen16(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = 10;
  Gen g(ex, r, o);
  o.hardlinks = g.o.hardlinks = false; // hard links are not kept, so that their other names would change as well
  g.initWorld("ord=" + std::to_string(r.below(2)));
  g.tree();
  g.config();
  g.history(1 + (int)r.below(4), 5, true);
  ex.step(Step("sync").set("p", "/repo/x"));
  for(int k = 0; k < 2 && !ex.bad(); k++)
  {
    if(!hasMeta(ex.s.w)) return;
    Step b = restoreStep(ex, g, r);
    disturb(ex, g, r);
    if(r.chance(0.15)) dirLink(ex, g, r);
    ex.step(Step("clk").set("d", 1000000000LL * (int64_t)(1 + r.below(50000))));
    auto d = ex.dry(ex.s.w, b);
    if(!d->o.ok()) { ex.step(b); return; }
    int n = ex.thorough ? 30 : 12;
    for(int i = 0; i < n && !ex.bad(); i++)
    {
      Step v = r.chance(0.6) ? crashVariant(r, d->o.trace, b, "v") : failVariant(ex, r, d->o, b);
      v.op = "v";
      if(v.has("f")) ex.step(v);
    }
    if(!ex.bad() && r.chance(0.6)) { Step v = crashVariant(r, d->o.trace, b, "run"); ex.step(v); }
  }
}

// ---- C19 -----------------------------------------------------------------
static void run19(Ex &ex, St &s, const Step &x)
{
  Out o = ex.nb(s.w, x);
  badEnd(ex, o, "the run");
  if(!ex.bad() && !hasFaults(x) && x.get("cmd") == "backup" && !o.ok()) ex.fail("an undisturbed backup " + o.brief());
}
static void finish19(Ex &ex, St &s)
{
  std::string why, err;
  Conf c = parseConf(ex.config(s.w));
  auto found = searchFs(s.w.fs, c, err);
  if(!c.ok || !err.empty()) return;
  World w = s.w;
  Step b = runStep("backup");
  Tree all = snap(w, "/");
  uint64_t bytes = 0;
  for(auto &e : all) if(e.second.data) bytes += e.second.data->size();
  Out o = ex.nb(w, b);
  if(!o.ok()) return ex.fail("the next undisturbed backup " + o.brief());
  uint64_t bound = 3000 + 120 * all.size() + bytes / 64;
  ex.st.count["healing syscalls"] += o.nsys;
  if(o.nsys > bound) return ex.fail("the next undisturbed backup needed " + std::to_string(o.nsys) + " system calls (bound " + std::to_string(bound) + ")");
  if(!ex.observe(w).meta)
  {
    if(!found.empty()) { bool any = false; for(auto &f : found) if(!f.second.other && f.second.pol != P_none) any = true; if(any) return ex.fail("the next undisturbed backup recorded nothing"); }
    return;
  }
  o = ex.nb(w, runStep("integrity"));
  if(!o.ok()) return ex.fail("after the next backup, integrity " + o.brief() + o.out.substr(0, 200));
  o = ex.nb(w, runStep("gc"));
  if(!o.ok()) return ex.fail("after the next backup, gc " + o.brief());
  if(!onlyNeeded(w, why)) return ex.fail("after the next gc: " + why);
  Hist h = ex.observe(w);
  if(!h.ok) return ex.fail("after the next backup: " + h.err);
  if(h.ids.empty()) { bool any = false; for(auto &f : found) if(!f.second.other && f.second.pol != P_none) any = true; if(any) ex.fail("the next undisturbed backup recorded nothing"); return; }
  for(auto &f : found)
  {
    if(f.second.other || f.second.pol == P_none) continue;
    auto it = h.ids[0].find(f.first);
    if(it == h.ids[0].end()) return ex.fail("the next backup does not contain " + f.first);
    Ino i = w.fs.lookup(f.first, f.second.st.type != ST_lnk);
    const Inode *n = w.fs.vol.get(i);
    Entry e{n->type, n->mode, n->uid, n->gid, n->mtime, n->data};
    if(!sameEntry(e, it->second, true, why)) return ex.fail("the next backup recorded a wrong state of " + f.first + ": " + why);
  }
  ex.st.count["healed"]++;
}
static void gen19(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = 7;
  Gen g(ex, r, o);
  g.initWorld("ord=" + std::to_string(r.below(2)));
  g.tree();
  g.config();
  int n = 3 + (int)r.below(ex.thorough ? 14 : 8);
  for(int i = 0; i < n && !ex.bad(); i++)
  {
    if(r.chance(0.6)) g.edit(1 + (int)r.below(3));
    if(r.chance(0.15)) g.config();
    g.fixConfig();
    ex.step(Step("clk").set("d", 1000000000LL * (int64_t)(1 + r.below(50000))));
    std::string cmd = r.pick({"backup", "backup", "backup", "gc", "restore", "integrity"});
    bool ex2;
    fileAt(ex.s.w, "/repo/metadata", &ex2);
    if(!ex2) cmd = "backup";
    Step b = envStep(r, runStep(cmd));
    if(cmd == "restore") { g.dropDirLinks(); b.set("id", 0); }
    auto d = ex.dry(ex.s.w, b);
    if(d->o.trace.empty()) return;
    if(r.chance(0.9))
    {
      if(r.chance(0.65)) b = crashVariant(r, d->o.trace, b, "run");
      else b = failVariant(ex, r, d->o, b);
    }
    b.op = "run";
    ex.step(b);
    if(r.chance(0.3)) ex.step(Step("check"));
  }
}

// ---- C20 -----------------------------------------------------------------
static void copyTree(FS &fs, Ino from, Ino toDir, const std::string &name, int64_t now)
{
  Inode n = *fs.vol.get(from);
  Ino i = fs.create(toDir, name, n.type, n.mode, n.uid, n.gid, n.mtime, n.type == FT::Lnk ? *n.data : "");
  if(n.type == FT::Reg && n.data && !n.data->empty()) fs.write(i, 0, n.data->data(), n.data->size(), n.mtime);
  for(auto &e : n.ents) copyTree(fs, e.second, i, e.first, now);
}
// One missing file after another, like cp -rn. Returns false once the budget is used up.
static bool cpMissing(FS &fs, Ino from, Ino toDir, int64_t now, int64_t &budget, Rng &order)
{
  std::vector<std::pair<std::string, Ino>> es;
  for(auto &e : fs.vol.get(from)->ents) es.push_back({e.first, e.second});
  order.shuffle(es);
  for(auto &e : es)
  {
    Inode n = *fs.vol.get(e.second);
    auto &te = fs.vol.get(toDir)->ents;
    auto it = te.find(e.first);
    if(n.type == FT::Dir)
    {
      Ino d;
      if(it == te.end()) { if(budget-- <= 0) return false; d = fs.create(toDir, e.first, FT::Dir, n.mode, 0, 0, now); }
      else d = it->second;
      if(!cpMissing(fs, e.second, d, now, budget, order)) return false;
    }
    else if(it == te.end())
    {
      if(budget-- <= 0) return false;
      copyTree(fs, e.second, toDir, e.first, now);
    }
  }
  return true;
}
static void cpOver(FS &fs, Ino from, Ino to, const char *name, int64_t now)
{
  auto &fe = fs.vol.get(from)->ents;
  if(!fe.count(name)) return;
  Ino s = fe.at(name);
  fs.removeTree(to, name, now);
  copyTree(fs, s, to, name, now);
}
static World asRepo(const World &w0, const char *name)
{
  World w = w0;
  w.fs.track = false;
  Ino d = w.fs.lookup(std::string("/") + name, false);
  if(!d) return w;
  w.fs.removeTree(1, "repo", 0);
  w.fs.rename(1, name, 1, "repo", 0);
  w.fs.dur = w.fs.vol;
  w.fs.log.clear();
  w.fs.track = true;
  w.locks.clear();
  return w;
}
static void run20(Ex &ex, St &s, const Step &x)
{
  std::string cmd = x.get("cmd"), why, why2;
  if(cmd == "clone") // the older copy
  {
    s.w.fs.removeTree(1, "old", s.w.clock);
    copyTree(s.w.fs, s.w.fs.lookup("/repo", false), 1, "old", s.w.clock);
    s.w.fs.syncAll();
    return;
  }
  if(cmd != "sync") { ex.plain(s.w, x); return; }
  Ino from = s.w.fs.lookup("/repo", false), to = s.w.fs.lookup("/old", false);
  if(!from || !to) return;
  Hist newer = ex.observe(s.w);
  Hist older = ex.observe(asRepo(s.w, "old"));
  if(!newer.ok || !older.ok) return ex.fail("a repository is unreadable before the synchronisation: " + newer.err + older.err);
  if(!newer.meta || !older.meta) return;
  // copies are durable as soon as they are made; interruptions happen between files and inside gc
  int64_t budget = x.num("at", 1 << 30);
  Rng order(mix((uint64_t)x.num("o"), 5));
  bool whole = cpMissing(s.w.fs, from, to, s.w.clock, budget, order);
  bool metaFirst = x.num("mf") != 0;
  if(whole && budget-- > 0) cpOver(s.w.fs, from, to, metaFirst ? "metadata" : "config", s.w.clock); else whole = false;
  if(whole && budget-- > 0) cpOver(s.w.fs, from, to, metaFirst ? "config" : "metadata", s.w.clock); else whole = false;
  s.w.fs.syncAll();
  bool gcDone = false;
  if(whole)
  {
    Step g = runStep("gc");
    for(auto &f : x.all("f")) g.add("f", f);
    g.set("cm", x.get("cm")).set("cs", x.get("cs"));
    if(x.has("es")) g.set("es", x.get("es"));
    World c = asRepo(s.w, "old");
    Out o = ex.nb(c, g);
    badEnd(ex, o, "gc");
    if(ex.bad()) return;
    if(!hasFaults(x) && !o.ok()) return ex.fail("gc on the synchronised copy " + o.brief());
    gcDone = o.ok();
    // take the result over into the copy
    std::set<std::string> have;
    Ino root = c.fs.lookup("/repo", false);
    World t = s.w;
    t.fs.removeTree(1, "old", t.clock);
    struct Cp { static void rec(const FS &a, Ino f, FS &b, Ino td, const std::string &nm) {
      const Inode *n = a.vol.get(f);
      Ino i = b.create(td, nm, n->type, n->mode, n->uid, n->gid, n->mtime, n->type == FT::Lnk ? *n->data : "");
      if(n->type == FT::Reg && n->data && !n->data->empty()) b.write(i, 0, n->data->data(), n->data->size(), n->mtime);
      for(auto &e : n->ents) rec(a, e.second, b, i, e.first);
    } };
    Cp::rec(c.fs, root, t.fs, 1, "old");
    t.fs.syncAll();
    s.w = t;
  }
  World c = asRepo(s.w, "old");
  Hist h = ex.observe(c);
  bool isOld = sameHist(older, h, why), isNew = sameHist(newer, h, why2);
  ex.st.count[whole ? gcDone ? "complete" : "gc interrupted" : "copy interrupted"]++;
  if(whole && !isNew) return ex.fail("the synchronised copy does not hold the newer history: " + why2);
  if(!isOld && !isNew) return ex.fail("an interrupted synchronisation left neither history: " + why + " / " + why2);
  if(h.meta)
  {
    World t = c;
    Out o = ex.nb(t, runStep("integrity"));
    if(!o.ok()) return ex.fail("integrity of the synchronised copy " + o.brief() + o.out.substr(0, 200));
  }
  if(gcDone && !onlyNeeded(c, why)) return ex.fail("after gc the synchronised copy holds unneeded files: " + why);
}
static void gen20(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = 8;
  o.collide = 0; // "cp -n" tells objects apart by name: with the full hash equal names mean equal contents
  Gen g(ex, r, o);
  g.initWorld("ord=1");
  g.tree();
  g.config();
  g.history(1 + (int)r.below(3), 4, true);
  ex.step(runStep("clone"));
  for(int k = 0; k < 2 && !ex.bad(); k++)
  {
    int n = (int)r.below(4);
    for(int i = 0; i < n && !ex.bad(); i++)
    {
      g.edit(1 + (int)r.below(4));
      if(r.chance(0.4)) g.config();
      g.fixConfig();
      ex.step(Step("clk").set("d", 1000000000LL * (int64_t)(1 + r.below(50000))));
      ex.step(runStep("backup"));
    }
    Step b = envStep(r, runStep("sync"));
    b.set("o", (int64_t)r.below(1000)).set("mf", (int64_t)r.below(2));
    for(int i = 0; i < 4 && !ex.bad(); i++)
    {
      Step v = b;
      v.op = i == 3 && r.chance(0.5) ? "run" : "v";
      if(r.chance(0.5)) v.set("at", (int64_t)r.below(25));
      else
      {
        v.add("f", std::string(r.pick({"kill@", "power@", "kill@"})) + std::to_string(1 + r.below(120)));
        v.set("cm", powerSuffix(r)).set("cs", (int64_t)r.below(1000));
      }
      ex.step(v);
    }
    if(!ex.bad()) ex.step(b);
  }
}

extern const Prop propC01 = {"C01", gen01, run01, nullptr};
extern const Prop propC02 = {"C02", gen02, run02, nullptr};
extern const Prop propC03 = {"C03", gen03, run03, nullptr};
extern const Prop propC08 = {"C08", gen08, run08, nullptr};
extern const Prop propC11 = {"C11", gen11, run11, finish11};
extern const Prop propC16 = {"C16", gen16, run16, nullptr};
extern const Prop propC19 = {"C19", gen19, run19, finish19};
extern const Prop propC20 = {"C20", gen20, run20, nullptr};
