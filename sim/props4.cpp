// Restoring (C04), the tracked past (C05), selection (C07).
#include "exec.h"
#include "props.h"
#include <algorithm>
#include <cerrno>

static std::string parentOf(const std::string &p) { size_t q = p.rfind('/'); return q == 0 || q == std::string::npos ? "/" : p.substr(0, q); }

// ---- C04 -----------------------------------------------------------------
// The state a restore has to produce. `loose`: directories whose modification time is not determined;
// `either`: files whose change cannot be noticed (same size and modification time).
struct Want { bool dies = false; std::string why; Tree t; std::set<std::string> loose, either; bool acts = false; };
static Want expected(const Tree &before, const Model &m, int id, std::string path)
{
  Want r;
  r.t = before;
  auto tree = m.tree(id);
  while(path.size() > 1 && path.back() == '/') path.pop_back();
  bool all = path.empty() || path == "/";
  if(!all)
  {
    for(std::string p = parentOf(path); p != "/"; p = parentOf(p))
    {
      auto it = tree.find(p);
      if(it == tree.end() || it->second.first.type != ST_dir) { r.dies = true; r.why = p; }
    }
    if(!tree.count(path)) { r.dies = true; r.why = path; }
    if(r.dies) return r;
  }
  for(auto &e : tree) // parents first
  {
    if(!all && !inPath(e.first, path) && !inPath(path, e.first)) continue;
    const MState &s = e.second.first;
    int pol = e.second.second;
    FT t = s.type == ST_reg ? FT::Reg : s.type == ST_dir ? FT::Dir : FT::Lnk;
    auto it = r.t.find(e.first);
    Entry n;
    n.type = t; n.uid = s.uid; n.gid = s.gid; n.mode = s.mode & 07777; n.mtime = s.mtime * 1000000000LL;
    if(t != FT::Dir) n.data = s.data;
    bool create = it == r.t.end();
    if(!create && it->second.type != t)
    {
      for(auto j = r.t.begin(); j != r.t.end();) if(inPath(j->first, e.first)) j = r.t.erase(j); else ++j;
      create = true;
    }
    if(create) { r.loose.insert(parentOf(e.first)); r.t[e.first] = n; r.acts = true; if(pol == P_none) r.loose.insert(e.first); continue; }
    if(pol == P_none) continue;
    Entry &c = it->second;
    if(t == FT::Reg && c.data->size() == n.data->size() && secs(c.mtime) == s.mtime && *c.data != *n.data) r.either.insert(e.first);
    if(t == FT::Lnk && *c.data != *n.data) r.loose.insert(parentOf(e.first)); // has to be recreated
    std::string why;
    if(!sameEntry(c, n, true, why)) r.acts = true;
    if(t == FT::Lnk) { c.data = n.data; c.uid = n.uid; c.gid = n.gid; }
    else { int64_t keep = c.mtime; c = n; if(secs(keep) == secs(n.mtime)) c.mtime = keep; }
  }
  // directories the backup contains get their recorded time
  for(auto &e : tree)
    if(e.second.second != P_none && (all || inPath(e.first, path) || inPath(path, e.first))) r.loose.erase(e.first);
  return r;
}
// Symlinks that exist where a backup holds a directory.
static int dirLinks(const World &w, const Model &m, std::string &link, std::string &to)
{
  int c = 0;
  m.forAll([&](const MNode &n) {
    bool dir = false;
    for(auto &p : n.hist) dir = dir || p.st.type == ST_dir;
    Ino i = dir ? w.fs.lookup(n.path, false) : 0;
    if(i && w.fs.vol.get(i)->type == FT::Lnk && w.fs.lookup(n.path, true)) { c++; link = n.path; to = *w.fs.vol.get(i)->data; }
  });
  return c;
}
// Shows the directory a symlink leads to in place of the symlink.
static void resolve(Tree &t, const std::string &link, const std::string &to)
{
  t.erase(link);
  for(auto i = t.begin(); i != t.end();)
  {
    if(!inPath(i->first, to)) { ++i; continue; }
    t[link + i->first.substr(to.size())] = i->second;
    i = t.erase(i);
  }
}
static void run04(Ex &ex, St &s, const Step &x)
{
  std::string cmd = x.get("cmd"), why;
  if(cmd == "backup") { Ran r; modelBackup(ex, s, x, r, false); return; }
  if(cmd != "restore" || hasFaults(x)) { if(hasMeta(s.w)) ex.nb(s.w, x); return; }
  std::string link, to;
  int links = hasMeta(s.w) ? dirLinks(s.w, s.m, link, to) : 2;
  if(links > 1) return;
  if(links)
  {
    Ino i = inPath(to, "/other/place") ? s.w.fs.lookup(to, false) : 0;
    if(!i || s.w.fs.vol.get(i)->type != FT::Dir) return;
    for(auto &p : snap(s.w, to)) if(p.second.type == FT::Lnk && *p.second.data != "nowhere") return;
  }
  std::string path = x.get("path", "/");
  if(path[0] != '/') path = (x.get("cwd", "/") == "/" ? "" : x.get("cwd")) + "/" + path;
  int id = (int)x.num("id");
  Tree a = snap(s.w, "/", "/repo");
  if(links) resolve(a, link, to);
  Want e = expected(a, s.m, id, path);
  World start = s.w;
  Out o = ex.nb(s.w, x);
  std::string what = "restoring " + path + " of backup " + x.get("id");
  if(e.dies)
  {
    ex.st.count["not in that backup"]++;
    if(!o.failed()) return ex.fail(what + ", which it does not contain (" + e.why + "), " + o.brief());
    if(o.err.empty()) return ex.fail(what + " failed without an error message");
    if(!identical(snap(start, "/", "/repo"), snap(s.w, "/", "/repo"), why)) return ex.fail(what + ", which it does not contain: " + why);
    return;
  }
  if(!o.ok()) return ex.fail(what + " " + o.brief());
  ex.st.count["restored"]++;
  ex.st.modelChecks++;
  Tree got = snap(s.w, "/", "/repo");
  if(links)
  {
    ex.st.count["symlink to a directory"]++;
    auto i = got.find(link), j = e.t.find(link);
    if(j != e.t.end() && j->second.type == FT::Dir)
    {
      if(i == got.end() || i->second.type != FT::Lnk || *i->second.data != to) return ex.fail(what + ": " + link + " is no longer the symlink leading to the directory it stands for");
      resolve(got, link, to);
    }
    else // it made way for something else, or went with its parent
    {
      if(!identical(snap(start, to), snap(s.w, to), why)) return ex.fail(what + ": the directory which the replaced symlink " + link + " led to was changed: " + why);
      for(auto k = got.begin(); k != got.end();) if(inPath(k->first, to)) k = got.erase(k); else ++k;
    }
  }
  e.loose.insert("/");
  for(auto &p : e.loose) { auto i = e.t.find(p), j = got.find(p); if(i != e.t.end() && j != got.end()) j->second.mtime = i->second.mtime; }
  for(auto &p : e.either) { auto i = e.t.find(p), j = got.find(p); if(i != e.t.end() && j != got.end()) j->second.data = i->second.data; }
  if(!sameTree(e.t, got, why)) return ex.fail(what + ": " + why);
  // what was not touched keeps its exact time
  for(auto &f : a)
  {
    auto i = e.t.find(f.first), j = got.find(f.first);
    if(i == e.t.end() || j == got.end() || e.loose.count(f.first) || i->second.type == FT::Lnk) continue;
    if(i->second.mtime == f.second.mtime && i->second.type == FT::Reg && f.second.data && i->second.data && *i->second.data == *f.second.data && j->second.mtime != f.second.mtime && !inPath(f.first, path)) return ex.fail(what + ": the modification time of " + f.first + " changed");
  }
}
// Puts a symlink to a directory in place of a directory some backup holds.
void dirLink(Ex &ex, Gen &g, Rng &r)
{
  std::vector<std::string> d;
  Hist h = ex.observe(ex.s.w);
  for(auto &t : h.ids) for(auto &e : t) if(e.second.type == FT::Dir && e.first != "/") d.push_back(e.first);
  if(d.empty()) return;
  std::string p = d[r.below(d.size())], to = "/other/place";
  Ino i = ex.s.w.fs.lookup(p, false);
  if(!i && !ex.s.w.fs.lookup(parentOf(p), false)) return;
  ex.step(Step("mk").set("t", "d").set("p", "/other"));
  if(i && ex.s.w.fs.vol.get(i)->type == FT::Dir && r.chance(0.7)) ex.step(Step("mv").set("p", p).set("q", to));
  else
  {
    ex.step(Step("mk").set("t", "d").set("p", to));
    if(r.chance(0.7)) ex.step(Step("mk").set("t", "f").set("p", to + "/" + g.name()).set("n", (int64_t)r.below(60)));
  }
  ex.step(Step("mk").set("t", "l").set("p", p).set("to", to).set("x", 1));
}
static void gen04(Ex &ex, Rng &r)
{
  GenOpts o;
  o.hardlinks = false;
  o.maxFiles = 12;
  Gen g(ex, r, o);
  if(g.crowd()) return;
  g.initWorld("ord=1");
  g.tree();
  g.config();
  int n = 1 + (int)r.below(4);
  for(int i = 0; i < n && !ex.bad(); i++)
  {
    if(i) { g.edit(1 + (int)r.below(5)); if(r.chance(0.3)) g.config(); }
    g.fixConfig();
    tick(ex, r);
    ex.step(envStep(r, runStep("backup")));
  }
  for(int k = 0; k < 3 && !ex.bad(); k++)
  {
    if(!hasMeta(ex.s.w)) return;
    tick(ex, r);
    int how = (int)r.below(6);
    if(how == 0) for(auto &x : g.roots) ex.step(Step("rm").set("p", x));
    else if(how <= 3) g.edit(1 + (int)r.below(6));
    else disturbPaths(ex, g, r);
    g.dropDirLinks();
    if(r.chance(0.25)) dirLink(ex, g, r);
    int m = ex.thorough ? 12 : 6;
    for(int i = 0; i < m && !ex.bad(); i++)
    {
      int id = 0;
      std::string p = g.anyRepoPath(id);
      Step v = runStep("restore", id);
      if(r.chance(0.55) && !p.empty())
      {
        if(r.chance(0.15)) id = (int)r.below((uint64_t)g.ids() + 2); // perhaps not in that one
        if(r.chance(0.05)) p += r.chance(0.5) ? "x" : "/x";
        if(r.chance(0.2)) p = parentOf(p);
        v = runStep("restore", id, p);
        if(r.chance(0.15))
        {
          // relative to the current directory
          std::string d = g.roots[r.below(g.roots.size())];
          Ino di = ex.s.w.fs.lookup(d, false);
          if(inPath(p, d) && p != d && di && ex.s.w.fs.vol.get(di)->type == FT::Dir) { v.set("cwd", d); v.set("path", p.substr(d.size() + 1)); }
        }
        else if(r.chance(0.1)) v.set("path", p + std::string(1 + r.below(2), '/'));
      }
      else if(r.chance(0.1)) v.set("id", (int64_t)g.ids() + (int64_t)r.below(3));
      if(r.chance(0.1)) v.set("repo", r.pick({"/repo/", "/repo//", "/../repo", "/./repo"}));
      v = envStep(r, v, 0.7);
      v.op = r.chance(0.15) ? "run" : "v";
      ex.step(v);
      if(v.op == "run") break;
    }
  }
}

// ---- C05 -----------------------------------------------------------------
// The policy a configuration gives to a path, whether it exists or not. -1: ambiguous.
static int policyFor(const Conf &c, const std::string &path)
{
  const CNode *node = c.root.get();
  int pol = node->pol;
  size_t i = 1;
  while(i <= path.size())
  {
    size_t e = path.find('/', i);
    if(e == std::string::npos) e = path.size();
    std::string el = path.substr(i, e - i);
    const CNode *hit = nullptr;
    if(node)
      for(auto &k : node->subs)
        if(k->rx ? k->rx->match(el) : k->name == el) { if(hit) return -1; hit = k.get(); }
    if(hit) { node = hit; pol = hit->pol; }
    else
    {
      if(pol == P_none || c.ignored(path.substr(0, e))) return P_none;
      node = nullptr;
    }
    i = e + 1;
  }
  return pol;
}
static void run05(Ex &ex, St &s, const Step &x)
{
  std::string cmd = x.get("cmd"), why;
  if(cmd != "backup" && !hasMeta(s.w)) return;
  if(x.has("quick")) // on the way to a long history
  {
    Out o = ex.nb(s.w, x);
    if(!o.ok()) ex.fail("an ordinary undisturbed " + cmd + " run " + o.brief());
    return;
  }
  Hist old = ex.observe(s.w);
  if(!old.ok) return ex.fail("before " + cmd + ": " + old.err);
  std::string was = fileAt(s.w, "/repo/metadata");
  FMeta om = old.meta ? parseMeta(was) : FMeta();
  Conf c = parseConf(ex.config(s.w));
  Out o = ex.nb(s.w, x);
  if(o.end == End::Crashed || o.end == End::Hang) return ex.fail("a " + cmd + " run " + o.brief());
  if(!hasFaults(x) && cmd != "backup" && !o.ok()) return ex.fail("an ordinary undisturbed " + cmd + " run " + o.brief());
  if(o.end != End::Exited || o.code) { s.w.fs.syncAll(); s.w.locks.clear(); }
  Hist now = ex.observe(s.w);
  if(!now.ok) return ex.fail("after " + cmd + ": " + now.err);
  std::string is = fileAt(s.w, "/repo/metadata");
  if(cmd != "backup" || is == was)
  {
    if(!sameHist(old, now, why)) return ex.fail("after " + cmd + ", which recorded nothing: " + why);
    return;
  }
  FMeta nm = parseMeta(is);
  std::map<std::string, int> pn;
  std::set<std::string> other; // was not a directory in the newest backup
  std::map<std::string, const MState *> latest;
  for(auto &n : om.nodes) if(!n.hist.empty()) { latest[n.path] = &n.hist[0].st; if(n.hist[0].st.type != ST_dir) other.insert(n.path); }
  for(auto t : {&om, &nm}) for(auto &n : t->nodes) if(n.pol != P_track) s.vars["once not tracked " + n.path] = "1";
  for(auto &n : nm.nodes) pn[n.path] = n.pol;
  auto tracked = [&](const std::string &p) {
    if(policyFor(c, p) != P_track || s.vars.count("once not tracked " + p)) return false;
    for(std::string q = p;; q = parentOf(q))
    {
      auto it = pn.find(q);
      if(it != pn.end() && it->second != P_track && (q == p || it->second != P_none)) return false;
      int pol = policyFor(c, q);
      if(q != p && pol != P_track && pol != P_none) return false;
      if(q != p && pol == P_none) // an unselected directory stays in place
      {
        Ino i = s.w.fs.lookup(q, true);
        if(!i || s.w.fs.vol.get(i)->type != FT::Dir || other.count(q)) return false;
      }
      if(parentOf(q) == "/") break;
    }
    return true;
  };
  std::map<std::string, bool> cache;
  auto keep = [&](const std::string &p) {
    auto it = cache.find(p);
    if(it == cache.end()) it = cache.emplace(p, tracked(p)).first;
    return it->second;
  };
  size_t n = 0;
  for(auto &t : old.ids) for(auto &e : t) n += keep(e.first);
  ex.st.count["tracked states compared"] += n;
  if(old.meta && !pastKept(om, old, nm, now, keep, why)) return ex.fail("after another backup: " + why);
  if(nm.times.size() > om.times.size() + 1) return ex.fail("a single run added " + std::to_string(nm.times.size() - om.times.size()) + " backups");
  // the newest one is what is there now
  if(hasFaults(x) || !o.ok()) return;
  std::string err;
  int followed = 0;
  auto found = searchFs(s.w.fs, c, err, &followed);
  if(!err.empty() || now.ids.empty()) return;
  for(auto &f : found)
  {
    if(f.second.other || f.second.pol != P_track) continue;
    std::map<std::string, std::pair<MState, int>> want;
    want[f.first] = {f.second.st, f.second.pol};
    Tree got;
    auto it = now.ids[0].find(f.first);
    if(it != now.ids[0].end()) got.insert(*it);
    // a change of the content alone cannot be noticed
    auto l = latest.find(f.first);
    if(l != latest.end() && l->second->type == ST_reg && f.second.st.type == ST_reg && l->second->size == f.second.st.size && l->second->mtime == f.second.st.mtime && !got.empty()) want[f.first].first.data = got.begin()->second.data;
    if(!sameAsModel(got, want, why)) return ex.fail("the new backup does not hold the current state: " + why);
  }
  for(auto &e : now.ids[0]) if(keep(e.first) && !found.count(e.first))
  {
    // unless an unselected directory above it is gone
    bool gone = false;
    for(std::string q = parentOf(e.first); q != "/"; q = parentOf(q))
      if(pn.count(q) && pn[q] == P_none && (!found.count(q) || found[q].st.type != ST_dir)) gone = true;
    if(!gone) return ex.fail("the new backup holds " + e.first + ", which does not exist");
  }
}
// More backups than fit into a byte.
static void longHistory(Ex &ex, Rng &r)
{
  GenOpts o;
  Gen g(ex, r, o);
  g.initWorld("ord=" + std::to_string(r.below(2)));
  ex.step(Step("cfg").add("l", "[track]").add("l", g.roots[0]));
  std::string f = g.roots[0] + "/" + g.name(), e = g.roots[0] + "/second";
  int n = 259 + (int)r.below(4), at = (int)r.below(250);
  for(int i = 0; i < n && !ex.bad(); i++)
  {
    ex.step(Step("mk").set("t", "f").set("p", f).set("n", (int64_t)(1 + r.below(60))).set("c", i).set("ts", 1500000000LL + i).set("x", 1));
    if(r.chance(0.05)) ex.step(Step("mk").set("t", "f").set("p", e).set("n", 30).set("c", i).set("ts", 1500000000LL + i).set("x", 1));
    tick(ex, r);
    Step b = runStep("backup");
    bool near = (i >= 126 && i < 130) || i >= 253 || (i >= at && i < at + 3);
    if(!near) b.set("quick", 1);
    else b = envStep(r, b);
    ex.step(b);
  }
  if(r.chance(0.5)) ex.step(runStep("gc"));
}
static void gen05(Ex &ex, Rng &r)
{
  if(r.chance(0.002)) return longHistory(ex, r);
  GenOpts o;
  o.maxFiles = 10;
  o.symlinkDirs = false;
  if(r.chance(0.4)) o.copy = o.mirror = false;
  Gen g(ex, r, o);
  if(g.crowd()) return;
  g.initWorld("ord=" + std::to_string(r.below(2)));
  g.tree();
  g.config();
  int n = 4 + (int)r.below(ex.thorough ? 16 : 8);
  for(int i = 0; i < n && !ex.bad(); i++)
  {
    if(i) { g.edit((int)r.below(5)); if(r.chance(0.25)) g.config(); }
    g.fixConfig();
    tick(ex, r);
    if(i && r.chance(0.12)) { ex.step(envStep(r, runStep(r.pick({"gc", "integrity"})))); continue; }
    if(i && r.chance(0.1) && hasMeta(ex.s.w)) { g.dropDirLinks(); ex.step(restoreStep(ex, g, r)); continue; }
    Step b = envStep(r, runStep("backup"));
    if(r.chance(0.15))
    {
      auto d = ex.dry(ex.s.w, b);
      if(!d->o.trace.empty()) { ex.step(crashOrFail(r, d->o.trace, b)); continue; }
    }
    if(r.chance(0.05)) b.set("ans", "n\n");
    ex.step(b);
  }
}

// ---- C07 -----------------------------------------------------------------
static void run07(Ex &ex, St &s, const Step &x)
{
  if(x.get("cmd") != "backup" || hasFaults(x) || hasMeta(s.w)) { ex.nb(s.w, x); return; }
  Conf c = parseConf(ex.config(s.w));
  std::string err, why;
  int followed = 0;
  if(!c.ok) throw Abort{"the configuration is invalid: " + c.err};
  auto found = searchFs(s.w.fs, c, err, &followed);
  if(err == "the repository itself is selected" || err == "loop") return;
  Tree before = snap(s.w, "/repo");
  Out o = ex.nb(s.w, x);
  if(!err.empty())
  {
    ex.st.count["unusable configurations"]++;
    if(!o.failed()) return ex.fail("a backup with " + err + " " + o.brief());
    if(o.err.empty()) return ex.fail("a backup with " + err + " failed without an error message");
    if(hasMeta(s.w)) return ex.fail("a backup with " + err + " was recorded");
    return;
  }
  if(!o.ok()) return ex.fail("an ordinary undisturbed backup " + o.brief());
  std::map<std::string, std::pair<MState, int>> want;
  for(auto &f : found)
  {
    if(f.second.other || f.second.pol == P_none) continue;
    want[f.first] = {f.second.st, f.second.pol};
    for(std::string p = parentOf(f.first); p != "/"; p = parentOf(p)) if(!want.count(p)) want[p] = {found.at(p).st, found.at(p).pol};
  }
  ex.st.count["paths selected"] += want.size();
  ex.st.count["paths not selected"] += snap(s.w, "/", "/repo").size() - std::min(want.size(), snap(s.w, "/", "/repo").size());
  if(followed) ex.st.count["symlinks followed"] += (uint64_t)followed;
  ex.st.modelChecks++;
  Hist h = ex.observe(s.w);
  if(!h.ok) return ex.fail("after a backup: " + h.err);
  if(!h.meta)
  {
    if(!want.empty()) return ex.fail("nothing was recorded although " + want.begin()->first + " is selected");
    return;
  }
  FMeta m = parseMeta(fileAt(s.w, "/repo/metadata"));
  for(auto &n : m.nodes)
  {
    auto it = want.find(n.path);
    if(it == want.end()) return ex.fail("the backup contains " + n.path + ", which is not selected");
    if(n.pol != it->second.second) return ex.fail("the backup contains " + n.path + " with policy " + std::to_string(n.pol) + " instead of " + std::to_string(it->second.second));
  }
  if(h.ids.size() > 1) return ex.fail("a first backup left " + std::to_string(h.ids.size()) + " backups");
  const Tree none;
  if(!sameAsModel(h.ids.empty() ? none : h.ids[0], want, why)) return ex.fail("the first backup: " + why);
}
static void gen07(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = 20;
  o.symlinkDirs = r.chance(0.5);
  o.big = false;
  o.collide = 0.1;
  Gen g(ex, r, o);
  g.initWorld("ord=1");
  g.tree();
  if(r.chance(0.3)) // directories reached through symlinks
  {
    auto d = g.paths(true, false);
    if(d.size() > 1) ex.step(Step("mk").set("t", "l").set("p", g.newPath()).set("to", d[r.below(d.size())]));
  }
  bool many = r.chance(0.002);
  if(many) ex.step(Step("many").set("p", g.roots[0]).set("n", 45000).set("pre", "f").set("ts", 1500000000));
  int k = many ? 1 : 3 + (int)r.below(4);
  for(int i = 0; i < k && !ex.bad(); i++)
  {
    if(many)
      ex.step(r.chance(0.5) ? Step("cfg").add("l", "[copy]").add("l", g.roots[0]).add("l", "[ignore]").add("l", "/f[0-9]*$") : Step("cfg").add("l", "[track]").add("l", g.roots[0] + "//^[a-e]$"));
    else
    {
      g.config();
      if(!o.symlinkDirs || r.chance(0.6))
      {
        // a richer one: several rules per path, expressions in the middle of paths
        std::vector<std::string> l;
        auto any = g.paths(true, true, true);
        static const std::vector<std::string> pol = {"[copy]", "[mirror]", "[track]"};
        static const std::vector<std::string> rx = {"^[a-c]$", "\\.c$", "^f[0-9]$", ".*", "^x", "a|b", "^\\.", "^[^.]+$", "notes", "t$", "[[:digit:]]", "^(a|b|c|d)$", "txt"};
        for(int attempt = 0; attempt < 10; attempt++)
        {
          l.clear();
          std::set<std::string> used;
          int n = 1 + (int)r.below(5);
          for(int j = 0; j < n; j++)
          {
            std::string p = any[r.below(any.size())], q;
            if(p.find('\n') != std::string::npos) continue;
            size_t a = 1;
            while(a <= p.size())
            {
              size_t e = p.find('/', a);
              if(e == std::string::npos) e = p.size();
              if(r.chance(0.2)) q += "//" + rx[r.below(rx.size())]; else q += "/" + p.substr(a, e - a);
              a = e + 1;
              if(r.chance(0.12)) break;
            }
            if(r.chance(0.15)) q += "/" + g.name();
            if(q.find('\n') != std::string::npos) continue;
            if(r.chance(0.1)) q += "/";
            if(q.find("/./") != std::string::npos || q.find("/../") != std::string::npos || !used.insert(q).second) continue;
            l.push_back(pol[r.below(3)]);
            l.push_back(q);
          }
          int ig = (int)r.below(3);
          if(ig) l.push_back("[ignore]");
          static const std::vector<std::string> igs = {"\\.c$", "/a$", "/b/", "^/home", "notes", "/\\.[^/]*$", "^/etc/[a-c]$", "/[^/]*/[^/]*/[^/]*/", "x", "^/srv/data/[^/]+$", "img"};
          for(int j = 0; j < ig; j++) { std::string e = igs[r.below(igs.size())]; if(used.insert(e).second) l.push_back(e); }
          if(l.empty()) continue;
          std::string t;
          for(auto &z : l) t += z + "\n";
          Conf c = parseConf(t);
          if(!c.ok) continue;
          if(!g.usable(c) && r.chance(0.8)) continue;
          Step st("cfg");
          for(auto &z : l) st.add("l", z);
          ex.step(st);
          break;
        }
      }
    }
    // the same with several orders of directory entries
    for(int j = 0; j < 2; j++) { Step v = envStep(r, runStep("backup"), 0.9); v.op = "v"; ex.step(v); }
    if(r.chance(0.5)) g.edit(2);
  }
}

extern const Prop propC04 = {"C04", gen04, run04, nullptr};
extern const Prop propC05 = {"C05", gen05, run05, nullptr};
extern const Prop propC07 = {"C07", gen07, run07, nullptr};
