// The printed list of changes (C17) and independence from the environment (C18).
#include "exec.h"
#include "props.h"
#include <algorithm>
#include <cerrno>
#include <set>

static std::string quiet(const std::string &s) { return s.substr(0, 240); }
static std::string parentOf(const std::string &p) { size_t q = p.rfind('/'); return q == 0 || q == std::string::npos ? "/" : p.substr(0, q); }
std::string plainText(const std::string &s); // props5.cpp

// ---- C17 -----------------------------------------------------------------
// Compares the output of a run with the expected lines (in any order), totals and question.
static bool sameOutput(const RunResult &rr, const std::string &text, const std::string &question, bool totals, std::string &why)
{
  std::string out = plainText(text), rest = out;
  std::vector<std::string> want;
  for(auto &l : rr.lines) want.push_back(l.text() + "\n");
  std::sort(want.begin(), want.end(), [](const std::string &a, const std::string &b) { return a.size() > b.size(); });
  for(auto &l : want)
  {
    size_t i = 0;
    while((i = rest.find(l, i)) != std::string::npos && i && rest[i - 1] != '\n') i++;
    if(i == std::string::npos) { why = "the list lacks \"" + l.substr(0, l.size() - 1) + "\": " + quiet(out); return false; }
    rest.erase(i, l.size());
  }
  std::string tail;
  if(rr.asks)
  {
    tail = "\n";
    std::string t;
    if(totals)
      for(auto &e : std::vector<std::pair<const char *, Totals>>{{"New", rr.sum.added}, {"Removed", rr.sum.removed}, {"Lost", rr.sum.lost}})
        if(e.second.n) t += (t.empty() ? "" : ", ") + std::string(e.first) + ": " + std::to_string(e.second.n) + " (" + humanSize(e.second.size) + ")";
    if(!t.empty()) tail += t + "\n\n";
    tail += question + " (y/n) ";
  }
  if(rr.asks ? rest.compare(0, tail.size(), tail) != 0 : !rest.empty())
  {
    why = "besides the expected changes, the output is \"" + quiet(rest) + "\" instead of \"" + tail + "\"";
    return false;
  }
  return true;
}
// Whether a line speaks for a path.
static bool covers(const RunResult &rr, const Conf &c, const std::string &p)
{
  for(auto &l : rr.lines)
  {
    if(l.path == p) return true;
    if(inPath(p, l.path) && (l.mark == "++" || l.mark == "--" || l.mark == "xx" || l.mark == "??" || l.mark == "<>" || (l.mark == "@@" && !l.owner && !l.perm && !l.time) || l.policy || c.summarized(l.path) || l.plus >= 0 || l.minus >= 0 || l.changed >= 0 || l.metaChanged >= 0)) return true;
  }
  return false;
}
static void run17(Ex &ex, St &s, const Step &x)
{
  std::string cmd = x.get("cmd"), why;
  Conf conf = parseConf(fileAt(s.w, "/repo/config"));
  if(cmd == "backup")
  {
    std::string was = fileAt(s.w, "/repo/metadata");
    FMeta om = hasMeta(s.w) ? parseMeta(was) : FMeta();
    Ran r;
    if(!modelBackup(ex, s, x, r, false)) return;
    if(r.skipped || hasFaults(x) || r.rr.dies) return;
    ex.st.modelChecks++;
    ex.st.count["lines"] += r.rr.lines.size();
    for(auto &l : r.rr.lines) ex.st.count["line " + l.mark]++;
    if(!sameOutput(r.rr, r.o.out, "proceed?", true, why)) return ex.fail("a backup: " + why);
    // whatever the run recorded was announced
    std::string is = fileAt(s.w, "/repo/metadata");
    if(is == was) return;
    FMeta nm = parseMeta(is);
    if(!nm.ok) return ex.fail("the metadata file is malformed (" + nm.err + ")");
    std::map<std::string, const FNode *> a, b;
    for(auto &n : om.nodes) a[n.path] = &n;
    for(auto &n : nm.nodes) b[n.path] = &n;
    auto announced = [&](const std::string &p, const char *what) {
      ex.st.count["recorded changes"]++;
      if(!covers(r.rr, conf, p)) ex.fail("the list does not mention " + p + ", which was " + what);
    };
    for(auto &n : a)
      if(!b.count(n.first)) { if(n.second->pol != P_none || !n.second->hist.empty()) announced(n.first, "forgotten"); }
    for(auto &n : b)
    {
      if(n.second->pol == P_none) continue;
      auto it = a.find(n.first);
      if(it == a.end()) { announced(n.first, "added"); continue; }
      if(it->second->pol != n.second->pol) { announced(n.first, "given another policy"); continue; }
      const MState &u = it->second->hist[0].st, &v = n.second->hist[0].st;
      if(u.type != v.type) { announced(n.first, "added, removed or replaced"); continue; }
      // a timestamp which changed along with something below is not worth a line
      bool below = false;
      for(auto &l : r.rr.lines) below |= l.path != n.first && inPath(l.path, n.first);
      if(u.uid == v.uid && u.gid == v.gid && v.type == ST_reg && (u.mode & 07777) == (v.mode & 07777) && u.size == v.size && it->second->hist[0].hash == n.second->hist[0].hash && below) continue;
      if(u.uid != v.uid || u.gid != v.gid || (v.type != ST_lnk && (u.mode & 07777) != (v.mode & 07777)) || (v.type == ST_reg && (u.mtime != v.mtime || u.size != v.size || it->second->hist[0].hash != n.second->hist[0].hash)) || (v.type == ST_lnk && *u.data != *v.data)) announced(n.first, "changed");
    }
    return;
  }
  if(!hasMeta(s.w)) return;
  if(cmd != "restore" || hasFaults(x)) { otherRun(ex, s, x); return; }
  std::string path = x.get("path", "/");
  while(!path.empty() && path.back() == '/') path.pop_back();
  RunResult rr = s.m.restore(s.w.fs, (int)x.num("id"), path);
  Tree before = snap(s.w, "/", "/repo");
  const World w0 = s.w;
  Out o = ex.nb(s.w, x);
  if(o.end != End::Exited) return ex.fail("a restore " + o.brief());
  if(rr.dies)
  {
    if(o.ok()) return ex.fail("a restore of " + rr.why + ", which that backup does not contain, succeeded");
    if(!o.out.empty()) return ex.fail("a restore of " + rr.why + ", which that backup does not contain, printed changes");
    return;
  }
  if(!o.ok() && (!rr.asks || saysYes(x))) return ex.fail("an ordinary undisturbed restore " + o.brief());
  ex.st.modelChecks++;
  ex.st.count["restore lines"] += rr.lines.size();
  if(!sameOutput(rr, o.out, "restore?", false, why)) return ex.fail("a restore of backup " + x.get("id") + ": " + why);
  if(!o.ok()) return;
  Tree after = snap(s.w, "/", "/repo");
  // directories above selected paths, which were not selected themselves, are created as needed
  std::set<std::string> none;
  s.m.forAll([&](const MNode &n) { if(n.pol == P_none) none.insert(n.path); });
  auto isNone = [&](const std::string &p) { return none.count(p) > 0; };
  bool alias = false; // changing one name changes others
  std::set<Ino> seen;
  for(auto &e : before)
  {
    if(e.second.type == FT::Reg && !seen.insert(w0.fs.lookup(e.first, false)).second) alias = true;
    Ino i = e.second.type == FT::Lnk ? w0.fs.lookup(e.first, true) : 0;
    if(i && w0.fs.vol.get(i)->type == FT::Dir) alias = true;
  }
  if(!alias) for(auto &e : before)
  {
    auto it = after.find(e.first);
    Entry u = e.second, v = it == after.end() ? Entry() : it->second;
    if(u.type != FT::Reg) u.mtime = v.mtime = 0;
    if(it != after.end() && sameEntry(u, v, true, why)) continue;
    ex.st.count["restored changes"]++;
    if(it != after.end() && it->second.type == FT::Dir && isNone(e.first)) continue;
    if(!covers(rr, conf, e.first)) return ex.fail("a restore changed " + e.first + " without listing it");
  }
  if(!alias) for(auto &e : after) if(!before.count(e.first) && !covers(rr, conf, e.first) && !(e.second.type == FT::Dir && isNone(e.first))) return ex.fail("a restore created " + e.first + " without listing it");
  if(!alias) for(auto &l : rr.lines)
  {
    bool u = before.count(l.path), v = after.count(l.path);
    if(!v || (l.mark == "++") == u) return ex.fail("a restore lists " + l.mark + " " + l.path + ", which it did not do");
  }
}
static void gen17(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = 12;
  o.summarize = r.chance(0.6);
  o.sameSecondEdits = r.chance(0.2);
  Gen g(ex, r, o);
  if(g.crowd()) return;
  g.initWorld("ord=" + std::to_string(r.below(2)));
  g.tree();
  g.config();
  int n = 2 + (int)r.below(ex.thorough ? 12 : 6);
  for(int i = 0; i < n && !ex.bad(); i++)
  {
    if(i) { g.edit(1 + (int)r.below(6)); if(r.chance(0.35)) g.config(); }
    g.fixConfig();
    tick(ex, r);
    for(int j = 0; j < 2; j++)
    {
      Step v = envStep(r, runStep("backup"), 0.8);
      if(j) v.op = "v";
      else { v.op = "run"; if(r.chance(0.1)) v.set("ans", r.pick({"n\n", "", "no\n", "what\nno\n"})); }
      if(r.chance(0.2)) v.set("tty", 1);
      if(!j && i + 1 < n && r.chance(0.3)) { v.op = "v"; ex.step(v); v.op = "run"; }
      ex.step(v);
      if(ex.bad()) return;
      if(!r.chance(0.25)) break;
    }
    if(!hasMeta(ex.s.w)) continue;
    g.dropDirLinks();
    int k = (int)r.below(4);
    for(int j = 0; j < k && !ex.bad(); j++)
    {
      int id = 0;
      std::string p = g.anyRepoPath(id);
      Step v = runStep("restore", id);
      if(r.chance(0.4) && !p.empty()) { if(r.chance(0.2)) id = (int)r.below((uint64_t)g.ids() + 1); v = runStep("restore", id, r.chance(0.2) ? parentOf(p) : p); }
      v = envStep(r, v, 0.7);
      if(r.chance(0.2)) v.set("tty", 1);
      if(r.chance(0.1)) v.set("ans", "n\n");
      v.op = r.chance(0.2) ? "run" : "v";
      ex.step(v);
      if(r.chance(0.4)) g.edit(1 + (int)r.below(4));
      g.dropDirLinks();
    }
  }
}
extern const Prop propC17 = {"C17", gen17, run17, nullptr};

// ---- C18 -----------------------------------------------------------------
// The commands and edits of a plan happen in two worlds, which differ in everything that should not matter. Arguments
// ending in 2 describe the environment of the second one.
// What somebody sees in the end: a terminal overwrites lines which show a progress.
static std::string onScreen(const std::string &s, bool tty)
{
  std::string r;
  for(size_t i = 0; i < s.size(); i++)
  {
    if(tty && s.compare(i, 8, "\033[1F\033[2K") == 0) // to the previous line, cleared
    {
      size_t e = r.rfind('\n'); // end of the previous line
      if(e != std::string::npos) { size_t b = e ? r.rfind('\n', e - 1) : std::string::npos; r.erase(b == std::string::npos ? 0 : b + 1); }
      i += 7;
      continue;
    }
    r += s[i];
    // somebody confirms an answer with the enter key
    if(tty && r.size() >= 6 && r.compare(r.size() - 6, 6, "(y/n) ") == 0) r += '\n';
  }
  return plainText(r);
}
static std::string sortedLines(const std::string &s, bool amounts = true, bool tty = false)
{
  std::vector<std::string> l;
  std::string p = onScreen(s, tty), c;
  for(char ch : p) { c += ch; if(ch == '\n') { l.push_back(c); c.clear(); } }
  l.push_back(c);
  std::sort(l.begin(), l.end());
  c.clear();
  for(auto &e : l) if(amounts || (e.find("Checking integrity") && e.find("Discarding"))) c += e;
  return c;
}
static void run18(Ex &ex, St &s, const Step &x)
{
  if(s.alt.empty()) s.alt.push_back(s.w);
  World &w2 = s.alt[0];
  Step a(x.op), b(x.op);
  for(auto &e : x.kv)
  {
    if(!isdigit((unsigned char)e.first.back())) { a.add(e.first, e.second); if(e.first != "es" && e.first != "f" && e.first != "tick" && e.first != "tty") b.add(e.first, e.second); }
    else if(e.first != "clk2") b.add(e.first.substr(0, e.first.size() - 1), e.second);
  }
  w2.clock = std::max<int64_t>(0, w2.clock + x.num("clk2"));
  std::string cmd = x.get("cmd"), why;
  if(cmd == "backup")
  {
    std::string err;
    searchFs(s.w.fs, parseConf(fileAt(s.w, "/repo/config")), err);
    if(err == "the repository itself is selected") { ex.st.skipped++; return; }
  }
  Out o1 = ex.nb(s.w, a), o2 = ex.nb(w2, b);
  ex.st.count["pairs"]++;
  if(o1.end != o2.end || o1.code != o2.code) return ex.fail("the same " + cmd + " " + o1.brief() + " in one environment and " + o2.brief() + " in another");
  if(o1.end != End::Exited) return;
  if(o1.ok()) ex.st.count["pairs ok"]++;
  // which of several files with the same hash came first decides about the slots, and thus about what is stored anew
  if(sortedLines(o1.out, !s.w.hashMask, a.num("tty")) != sortedLines(o2.out, !s.w.hashMask, b.num("tty"))) return ex.fail("the same " + cmd + " printed \"" + quiet(plainText(o1.out)) + "\" in one environment and \"" + quiet(plainText(o2.out)) + "\" in another");
  if(o1.ok() && sortedLines(o1.err) != sortedLines(o2.err)) return ex.fail("the same " + cmd + " warned \"" + quiet(o1.err) + "\" in one environment and \"" + quiet(o2.err) + "\" in another");
  // the files of the user
  Tree t1 = snap(s.w, "/", "/repo"), t2 = snap(w2, "/", "/repo");
  if(o1.ok() || cmd != "restore")
  {
    if(!sameTree(t1, t2, why, false)) return ex.fail("the same " + cmd + " left different files behind: " + why);
  }
  else { s.alt.clear(); return; } // which files a failed restore reached is up to the order
  for(auto &e : t1)
  {
    if(e.second.type != FT::Dir) continue;
    Ino i = w2.fs.lookup(e.first, false);
    const Inode *n = w2.fs.vol.get(i);
    if(n && n->mtime != e.second.mtime) w2.fs.setAttr(i, n->mode, n->uid, n->gid, e.second.mtime);
  }
  w2.fs.syncOutside(w2.fs.lookup("/repo", false));
  // the repository
  Tree r1 = snap(s.w, "/repo"), r2 = snap(w2, "/repo");
  std::map<std::string, int> c1, c2;
  for(auto &e : r1) if(e.second.type == FT::Reg && e.first != "/repo/metadata") c1[*e.second.data]++;
  for(auto &e : r2) if(e.second.type == FT::Reg && e.first != "/repo/metadata") c2[*e.second.data]++;
  if(!s.w.hashMask && o1.ok() && c1 != c2) return ex.fail("the same " + cmd + " left different stored content behind");
  if(!s.w.hashMask && o1.ok())
  {
    for(auto &e : r1) if(!r2.count(e.first)) return ex.fail("the same " + cmd + " left " + e.first + " behind in one environment only");
    for(auto &e : r2) if(!r1.count(e.first)) return ex.fail("the same " + cmd + " left " + e.first + " behind in one environment only");
  }
  if(!hasMeta(s.w) && !hasMeta(w2)) return;
  FMeta m1 = parseMeta(fileAt(s.w, "/repo/metadata")), m2 = parseMeta(fileAt(w2, "/repo/metadata"));
  if(!m1.ok || !m2.ok) return ex.fail("the metadata file is malformed");
  if(m1.times.size() != m2.times.size()) return ex.fail("the same commands led to " + std::to_string(m1.times.size()) + " backups in one environment and to " + std::to_string(m2.times.size()) + " in another");
  if(s.vars.count("damaged")) return;
  Hist h1 = ex.observe(s.w), h2 = ex.observe(w2);
  if(!sameHist(h1, h2, why)) return ex.fail("the same commands led to different histories in two environments: " + why);
}
static std::string clockFault(Rng &r)
{
  int64_t by = (int64_t)r.below(4) == 0 ? (int64_t)r.below(3000000000ULL) : (int64_t)r.below(400000000ULL) * 1000000000LL;
  return "jump@" + std::to_string(1 + r.below(200)) + ":" + std::to_string(r.chance(0.5) ? by : -by);
}
static void gen18(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = 16;
  o.summarize = r.chance(0.3);
  o.hardlinks = false;
  o.rootPolicy = r.chance(0.1);
  Gen g(ex, r, o);
  g.initWorld("ord=" + std::to_string(r.below(2)) + (r.chance(0.2) ? " hm=" + std::to_string(3 + r.below(12)) : ""));
  bool coll = ex.s.w.hashMask != 0;
  g.tree();
  g.config();
  auto env = [&](Step v) {
    if(r.chance(0.5)) v.set("es", (int64_t)(1 + r.below(100000)));
    v.set("es2", (int64_t)(1 + r.below(100000)));
    if(r.chance(0.3)) v.set("clk2", ((int64_t)r.below(200000000) - 100000000) * 1000000000LL);
    if(r.chance(0.2)) v.set("tick2", r.chance(0.5) ? 0 : (int64_t)r.below(3000000000ULL));
    if(r.chance(0.2)) v.set("tick", r.chance(0.5) ? 0 : (int64_t)r.below(3000000000ULL));
    if(r.chance(0.3)) v.add("f2", clockFault(r));
    if(r.chance(0.15)) v.add("f2", clockFault(r));
    if(r.chance(0.15)) v.add("f", clockFault(r));
    if(r.chance(0.2)) v.set("tty", 1);
    if(r.chance(0.3)) v.set("tty2", 1);
    return v;
  };
  int n = 2 + (int)r.below(ex.thorough ? 14 : 7);
  for(int i = 0; i < n && !ex.bad(); i++)
  {
    if(i) { g.edit(1 + (int)r.below(7)); if(r.chance(0.3)) g.config(); }
    if(r.chance(0.85)) g.fixConfig();
    if(r.chance(0.1)) ex.step(Step("clk").set("d", -1000000000LL * (int64_t)r.below(5000000)));
    else if(r.chance(0.8)) tick(ex, r);
    Step v = env(runStep("backup"));
    if(r.chance(0.08)) v.set("ans", r.pick({"n\n", "", "maybe\n\ny\n"}));
    v.op = "run";
    ex.step(v);
    if(ex.bad() || !hasMeta(ex.s.w)) continue;
    int k = (int)r.below(4);
    for(int j = 0; j < k && !ex.bad(); j++)
    {
      switch(r.below(6))
      {
        case 0: if(r.chance(0.5)) litter(ex, r); ex.step(env(runStep("gc"))); break;
        case 1: ex.step(env(runStep("integrity"))); break;
        default:
        {
          int id = 0;
          std::string p = g.anyRepoPath(id);
          Step q = runStep("restore", id);
          if(r.chance(0.4) && !p.empty()) q = runStep("restore", id, p);
          q = env(q);
          q.op = r.chance(0.4) ? "run" : "v";
          if(r.chance(0.4)) g.edit(1 + (int)r.below(4));
          g.dropDirLinks();
          ex.step(q);
        }
      }
    }
  }
  if(ex.bad() || !hasMeta(ex.s.w) || coll || !r.chance(0.3)) return;
  // damage is found alike
  std::vector<std::string> objs;
  for(auto &e : snap(ex.s.w, "/repo")) if(e.second.type == FT::Reg && e.first.find('x') != std::string::npos && e.second.data->size()) objs.push_back(e.first);
  if(objs.empty()) return;
  ex.step(Step("var").set("k", "damaged").set("v", "1"));
  for(int i = 0; i < 2 && !ex.bad(); i++)
  {
    std::string p = objs[r.below(objs.size())];
    uint64_t len = fileAt(ex.s.w, p).size();
    if(r.chance(0.3) || !len) ex.step(Step("rm").set("p", p));
    else ex.step(Step("flip").set("p", p).set("o", (int64_t)r.below(len)).set("x", (int64_t)(1 + r.below(255))));
    ex.step(env(runStep("integrity")));
  }
}
extern const Prop propC18 = {"C18", gen18, run18, nullptr};
