// Other programs at work during a backup (C12), containment (C13), no-op runs (C14), shared contents (C15).
#include "exec.h"
#include "props.h"
#include <algorithm>
#include <cerrno>

extern "C" uint64_t maskedHash(const void *p, size_t n, uint32_t mask);
static std::string quiet(const std::string &s) { return s.substr(0, 240); }

bool pastKept(const FMeta &om, const Hist &old, const FMeta &nm, const Hist &now, const std::function<bool(const std::string &)> &keep, std::string &why)
{
  if(om.times.size() != old.ids.size() || nm.times.size() != now.ids.size()) { why = "the number of backups is inconsistent"; return false; }
  // Match the backups by completion time, oldest first. One that nothing refers to any more vanishes: its id then
  // belongs to the next older one. Only the newest can be new. Equal times: any consistent assignment will do.
  auto pick = [&](const Tree &t) { Tree r; for(auto &e : t) if(keep(e.first)) r.insert(e); return r; };
  std::vector<Tree> a, b;
  for(auto &t : old.ids) a.push_back(pick(t));
  for(auto &t : now.ids) b.push_back(pick(t));
  b.push_back(Tree());
  std::set<std::pair<int, int>> dead;
  int best = (int)a.size();
  why = "the order of the backups changed";
  std::function<bool(int, int)> go = [&](int k, int j) { // backups older than k were matched with those older than j
    if(k < 0) return j <= 0;
    if(dead.count({k, j})) return false;
    auto same = [&](int i) {
      std::string w;
      if(sameTree(a[(size_t)k], b[(size_t)i], w)) return true;
      if(k <= best) { best = k; why = "backup " + std::to_string(k) + " (now " + std::to_string(i) + "): " + w; }
      return false;
    };
    if(j >= 0 && om.times[(size_t)k] == nm.times[(size_t)j] && same(j) && go(k - 1, j - 1)) return true;
    if(same(j + 1) && go(k - 1, j)) return true;
    dead.insert({k, j});
    return false;
  };
  return go((int)a.size() - 1, (int)nm.times.size() - 1);
}

// ---- C12 -----------------------------------------------------------------
static bool timeIn(const std::vector<const Inode *> &v, int64_t t) { for(auto n : v) if(secs(n->mtime) == t) return true; return false; }
static void run12(Ex &ex, St &s, const Step &x)
{
  std::string cmd = x.get("cmd"), why, err;
  if(!hasFaults(x)) { ex.plain(s.w, x); return; }
  Hist old = ex.observe(s.w);
  if(!old.ok) return ex.fail("history unreadable before the run: " + old.err);
  FMeta om = parseMeta(fileAt(s.w, "/repo/metadata"));
  if(!old.meta) om = FMeta();
  Conf c = parseConf(ex.config(s.w));
  std::vector<FS> moments = {s.w.fs};
  mutateHook = [&](World &w, const std::string &op) {
    worldOp(w, Step::parse(op));
    moments.push_back(w.fs);
  };
  Out o = ex.nb(s.w, x);
  mutateHook = nullptr;
  // A pipe put in place of a file makes the run wait for its other end; it is killed then.
  bool pipe = o.end == End::Hang && o.crash.find("FIFO") != std::string::npos;
  if(o.end == End::Crashed || (o.end == End::Hang && !pipe)) return ex.fail("a backup of changing files " + o.brief());
  Hist h = ex.observe(s.w);
  if(pipe) { s.w.locks.clear(); ex.st.count["waited for a pipe"]++; }
  if(o.code != 0 || pipe)
  {
    ex.st.count["refused"]++;
    if(!sameHist(old, h, why)) return ex.fail("a backup that failed changed the history: " + why);
    if(o.err.empty() && !pipe) return ex.fail("a backup failed without an error message");
  }
  else
  {
    ex.st.count["succeeded"]++;
    if(!h.ok) return ex.fail("after a successful backup of changing files: " + h.err);
    if(h.meta)
    {
      World w = s.w;
      Out i = ex.nb(w, runStep("integrity"));
      if(!i.ok()) return ex.fail("after a successful backup of changing files, integrity " + i.brief() + ": " + quiet(i.out));
      FMeta m = parseMeta(fileAt(s.w, "/repo/metadata"));
      bool recorded = o.asked();
      std::map<std::string, int> pol;
      for(auto &n : m.nodes) pol[n.path] = n.pol;
      // earlier backups; everything is tracked in these runs
      auto keep = [&](const std::string &p) { auto it = pol.find(p); return it == pol.end() || it->second != P_none; };
      if(recorded ? m.times.size() > om.times.size() + 1 : m.times != om.times) return ex.fail("the backup of changing files left " + std::to_string(h.ids.size()) + " backups after " + std::to_string(old.ids.size()));
      if(!pastKept(om, old, m, h, keep, why)) return ex.fail("a backup of changing files altered earlier " + why);
      // the newest one holds states that existed
      std::set<std::string> always, ever;
      bool waiting = true; // everything changed while the run waited for consent
      for(auto &f : o.fired) waiting = waiting && f.second == S_readin;
      for(size_t k = 0; k < moments.size(); k++)
      {
        int followed = 0;
        auto f = searchFs(moments[k], c, err, &followed);
        std::set<std::string> now;
        if(!err.empty() || followed) { always.clear(); break; }
        for(auto &e : f) if(!e.second.other && e.second.pol != P_none) now.insert(e.first);
        ever.insert(now.begin(), now.end());
        if(!k) always = now;
        else for(auto it = always.begin(); it != always.end();) if(!now.count(*it)) it = always.erase(it); else ++it;
      }
      const Tree none;
      const Tree &t = h.ids.empty() ? none : h.ids[0];
      for(auto &p : always) if(!t.count(p)) return ex.fail("the newest backup lacks " + p + ", which existed during the whole run");
      for(auto &e : t)
      {
        if(!pol.count(e.first) || pol[e.first] == P_none) continue;
        std::vector<const Inode *> v;
        bool self = false; // reached the repository through a symlink
        for(auto &f : moments)
        {
          Ino rp = f.lookup("/repo", false);
          for(size_t q = e.first.find('/', 1); !self; q = e.first.find('/', q + 1))
          {
            self = f.lookup(e.first.substr(0, q), true) == rp;
            if(q == std::string::npos) break;
          }
          Ino a = f.lookup(e.first, false), b = f.lookup(e.first, true);
          const Inode *n;
          if(a && (n = f.vol.get(a))->type == e.second.type) v.push_back(n);
          if(b && b != a && (n = f.vol.get(b))->type == e.second.type) v.push_back(n);
        }
        if(self) continue;
        if(v.empty()) return ex.fail("the newest backup holds " + e.first + ", which never had this type during the run");
        // what the last backup found there, if it looked the same
        Inode was;
        if(!old.ids.empty() && old.ids[0].count(e.first) && e.second.type == FT::Reg)
        {
          const Entry &q = old.ids[0].at(e.first);
          bool same = false;
          for(auto n : v) same = same || (q.type == FT::Reg && n->data->size() == q.data->size() && secs(n->mtime) == secs(q.mtime));
          if(same) { was.type = q.type; was.mode = q.mode; was.uid = q.uid; was.gid = q.gid; was.mtime = q.mtime; was.data = q.data; v.push_back(&was); }
        }
        bool own = false, mode = e.second.type == FT::Lnk, data = e.second.type == FT::Dir;
        for(auto n : v)
        {
          own = own || (n->uid == e.second.uid && n->gid == e.second.gid);
          mode = mode || n->mode == e.second.mode;
          if(e.second.type == FT::Lnk) data = data || *n->data == *e.second.data;
        }
        if(!own) return ex.fail("the newest backup holds " + e.first + " with owners it never had during the run");
        if(!mode) return ex.fail("the newest backup holds " + e.first + " with permissions it never had during the run");
        if(e.second.type != FT::Lnk && !timeIn(v, secs(e.second.mtime))) return ex.fail("the newest backup holds " + e.first + " with a modification time it never had during the run");
        if(e.second.type == FT::Reg)
        {
          const std::string &d = *e.second.data;
          bool size = false;
          for(auto n : v) size = size || n->data->size() == d.size();
          if(!size) return ex.fail("the newest backup holds " + e.first + " with a size it never had during the run");
          data = true;
          for(size_t i = 0; i < d.size() && data; i++)
          {
            bool any = false;
            for(auto n : v) any = any || (i < n->data->size() && (*n->data)[i] == d[i]);
            data = any;
          }
        }
        if(!data) return ex.fail("the newest backup holds " + e.first + " with content it never had during the run");
        if(e.second.type == FT::Reg && waiting)
        {
          bool together = false;
          for(auto n : v) together = together || (*n->data == *e.second.data && secs(n->mtime) == secs(e.second.mtime));
          if(!together) return ex.fail("the newest backup holds " + e.first + " with a content and a modification time which it never had together, although it only changed while the run was waiting");
        }
        if(e.second.type == FT::Lnk)
        {
          // its size tells one symlink from another put in its place
          bool together = false;
          for(auto n : v) together = together || (n->data->size() == e.second.data->size() && n->uid == e.second.uid && n->gid == e.second.gid);
          if(!together) return ex.fail("the newest backup holds the symlink " + e.first + " with the owners of one and the longer or shorter target of another that took its place");
        }
      }
    }
  }
  // the next ordinary run works
  if(x.num("next"))
  {
    searchFs(s.w.fs, c, err);
    if(!err.empty()) return;
    World w = s.w;
    w.clock += 10000000000LL;
    Out n = ex.nb(w, runStep("backup"));
    if(!n.ok()) return ex.fail("the next backup after one of changing files " + n.brief());
    Hist g = ex.observe(w);
    if(!g.ok) return ex.fail("after the next backup: " + g.err);
    if(g.meta) { n = ex.nb(w, runStep("integrity")); if(!n.ok()) return ex.fail("after the next backup, integrity " + n.brief() + ": " + quiet(n.out)); }
  }
}
// What another program does to a path (or anywhere, if there is none).
static Step meddle(Ex &ex, Gen &g, Rng &r, const std::string &p)
{
  const FS &fs = ex.s.w.fs;
  Ino i = p.empty() ? 0 : fs.lookup(p, false);
  const Inode *n = i ? fs.vol.get(i) : nullptr;
  int64_t now = secs(ex.s.w.clock);
  if(!n) { Step s = g.oneEdit(); return s; }
  if(n->type == FT::Reg && r.chance(0.7))
  {
    int k = (int)r.below(7);
    uint64_t len = n->data->size();
    if(k <= 2) // another content of the same size
    {
      Step s("wr");
      s.set("p", p).set("n", (int64_t)len).set("c", (int64_t)r.below(8));
      if(k == 0) s.set("keep", 1); else if(k == 1) s.set("ts", now);
      return s;
    }
    if(k == 3) return Step("app").set("p", p).set("n", (int64_t)(1 + r.below(60))).set("c", (int64_t)r.below(8));
    if(k == 4) return Step("cut").set("p", p).set("n", (int64_t)r.below(len + 1));
    if(k == 5) return Step("flip").set("p", p).set("o", (int64_t)r.below(len + 1)).set("x", (int64_t)(1 + r.below(255)));
    return Step("wr").set("p", p).set("n", (int64_t)g.size()).set("c", (int64_t)r.below(8)).set("ts", secs(n->mtime));
  }
  int k = n->type == FT::Lnk && r.chance(0.3) ? 3 : (int)r.below(8);
  switch(k)
  {
    case 0: return Step("rm").set("p", p);
    case 1: return Step("mv").set("p", p).set("q", r.chance(0.5) && p.size() < 200 ? p + "2" : g.newPath());
    case 2: return Step("mk").set("t", "d").set("p", p).set("x", 1);
    case 3: case 4:
    {
      Step s = Step("mk").set("t", "l").set("p", p).set("to", k == 3 ? r.pick({"a", "../b", "nowhere", "/home/a", "/somewhere/far/away"}) : r.pick({"a", "b", "c"}));
      if(n->type == FT::Lnk ? r.chance(0.7) : r.chance(0.2)) s.set("u", (int64_t)r.below(3)).set("g", (int64_t)r.below(3));
      return s;
    }
    case 5: { Step s = g.mkFile(p); if(r.chance(0.5)) s.set("ts", secs(n->mtime)); return s; }
    case 6: return Step("set").set("p", p).set("m", n->type == FT::Dir ? "700" : "600").set("u", (int64_t)r.below(3));
    default: return n->type == FT::Dir ? g.mkAny(p + "/" + g.name()) : Step("set").set("p", p).set("ts", now);
  }
}
static void gen12(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = 8;
  o.copy = o.mirror = o.implicitParents = o.ignore = false;
  Gen g(ex, r, o);
  g.initWorld("ord=1");
  g.tree();
  g.config();
  g.history((int)r.below(3), 4, false);
  for(int k = 0; k < 2 && !ex.bad(); k++)
  {
    g.edit(1 + (int)r.below(5));
    std::string conf = ex.config(ex.s.w);
    g.fixConfig();
    if(conf != ex.config(ex.s.w)) { ex.step(runStep("backup")); g.edit(2); g.fixConfig(); tick(ex, r); ex.step(runStep("backup")); g.edit(1); if(!g.usable(parseConf(ex.config(ex.s.w)))) return; }
    tick(ex, r);
    // some files were modified within the very second the backup starts
    auto f = g.paths(false, true);
    for(int i = 0; i < 2 && !f.empty(); i++) if(r.chance(0.5)) ex.step(Step("set").set("p", f[r.below(f.size())]).set("ts", secs(ex.s.w.clock)));
    Step b = envStep(r, runStep("backup"));
    auto d = ex.dry(ex.s.w, b);
    if(d->o.trace.empty()) return;
    auto &tr = d->o.trace;
    std::vector<uint32_t> src, prompt;
    for(uint32_t i = 0; i < tr.size(); i++)
    {
      if(tr[i].s == S_readin) prompt.push_back(i + 1);
      for(auto &root : g.roots) if(inPath(tr[i].path, root)) { src.push_back(i + 1); break; }
    }
    for(int i = 0; i < (ex.thorough ? 30 : 14) && !ex.bad(); i++)
    {
      Step v = b;
      int n = r.chance(0.6) ? 1 : 2 + (int)r.below(4);
      for(int j = 0; j < n; j++)
      {
        uint32_t at = 1 + (uint32_t)r.below(tr.size());
        std::string p;
        int how = (int)r.below(10);
        if(how < 6 && !src.empty()) { at = src[r.below(src.size())]; p = normPath(tr[at - 1].path); if(r.chance(0.3) && at > 1) at++; }
        else if(how < 8 && !prompt.empty()) at = prompt[r.below(prompt.size())];
        if(p.empty() && !f.empty() && r.chance(0.6)) p = f[r.below(f.size())];
        Step m = meddle(ex, g, r, p);
        bool root = false;
        for(auto &x : g.roots) root = root || (m.get("p") == x && (m.op == "rm" || m.op == "mv" || m.op == "mk"));
        if(root) continue; // the directories above what is tracked stay
        v.add("f", "mut@" + std::to_string(at) + ":" + m.text());
      }
      v.op = i == 5 ? "run" : "v";
      v.set("next", r.chance(0.3) ? 1 : 0);
      ex.step(v);
      if(v.op == "run") break;
    }
  }
}

// ---- C13 -----------------------------------------------------------------
std::map<std::string, std::pair<MState, int>> metaTree(const FMeta &m, uint64_t id)
{
  std::map<std::string, std::pair<MState, int>> t;
  for(auto &n : m.nodes)
  {
    size_t q = n.path.rfind('/');
    if(q) { auto it = t.find(n.path.substr(0, q)); if(it == t.end() || it->second.first.type != ST_dir) continue; }
    const MState *st = nullptr;
    if(n.pol != P_track) { if(!n.hist.empty()) st = &n.hist[0].st; }
    else for(auto &p : n.hist) if(p.id >= id) { st = &p.st; break; }
    if(st && st->type != ST_gone) t[n.path] = {*st, n.pol};
  }
  return t;
}
static std::string parentOf(const std::string &p) { size_t q = p.rfind('/'); return q == 0 || q == std::string::npos ? "/" : p.substr(0, q); }
// Where a path really is: its parents resolved, as far as they exist.
static std::string realDir(const FS &fs, const std::string &d)
{
  Ino i = fs.lookup(d, true);
  if(i && fs.vol.get(i)->type == FT::Dir) return fs.pathOf(i);
  if(d == "/") return d;
  std::string q = realDir(fs, parentOf(d));
  return (q == "/" ? "" : q) + d.substr(d.rfind('/'));
}
static std::string realPath(const FS &fs, const std::string &p)
{
  std::string q = realDir(fs, parentOf(p));
  return (q == "/" ? "" : q) + p.substr(p.rfind('/'));
}
// Nothing but the lockfile (and with it the modification time of the repository) may differ.
static bool onlyLock(const Tree &a, const Tree &b, std::string &why)
{
  Tree x = a, y = b;
  x.erase("/repo/lockfile"); y.erase("/repo/lockfile");
  auto i = x.find("/repo"), j = y.find("/repo");
  if(i != x.end() && j != y.end()) j->second.mtime = i->second.mtime;
  return identical(x, y, why);
}
static void run13(Ex &ex, St &s, const Step &x)
{
  std::string cmd = x.get("cmd"), why;
  World start = s.w;
  Tree before = snap(s.w, "/");
  Out o = ex.nb(s.w, x);
  if(o.end == End::Crashed || o.end == End::Hang) return ex.fail(cmd + " " + o.brief());
  if(o.end == End::Power) return; // what the disk keeps is judged elsewhere
  Tree after = snap(s.w, "/");
  bool yes = saysYes(x);
  bool lost = false; // the terminal failed, so that messages and questions may not have been seen
  for(auto &f : o.fired) lost = lost || f.second == S_writeout;
  if(start.ro1)
  {
    ex.st.count["read-only repository"]++;
    Tree a = before, b = after;
    if(cmd == "backup" || cmd == "gc")
    {
      if(!hasFaults(x) && !o.failed()) return ex.fail(cmd + " of a read-only repository " + o.brief());
      if(o.end == End::Exited && o.code && o.err.empty() && !lost) return ex.fail(cmd + " of a read-only repository failed without an error message");
      if(!identical(before, after, why)) return ex.fail(cmd + " of a read-only repository: " + why);
      return;
    }
    // the same run on a writable one
    if(!hasFaults(x))
    {
      World w = start;
      w.ro1 = false;
      uint64_t keep = ex.h.h;
      Out n = ex.nb(w, x);
      ex.h.h = keep;
      if(n.code != o.code || n.end != o.end) return ex.fail(cmd + " of a read-only repository " + o.brief() + ", but of a writable one it " + n.brief());
      if(n.out != o.out) return ex.fail(cmd + " of a read-only repository prints something else than of a writable one");
      Tree p = snap(w, "/", "/repo"), q = snap(s.w, "/", "/repo");
      for(auto &e : p) { auto it = q.find(e.first); if(it != q.end() && e.second.mtime >= start.clock && it->second.mtime >= start.clock) it->second.mtime = e.second.mtime; }
      if(!identical(p, q, why)) return ex.fail(cmd + " of a read-only repository gives another result than of a writable one: " + why);
    }
  }
  else if(!hasFaults(x) && yes && !o.ok() && !(cmd == "restore" && !hasMeta(start))) return ex.fail("an ordinary undisturbed " + cmd + " run " + o.brief());
  bool agreed = yes && (o.asked() || lost);
  if(cmd == "integrity" || ((cmd == "backup" || cmd == "restore") && !agreed))
  {
    ex.st.count[cmd == "integrity" ? "integrity" : "no consent"]++;
    if(!onlyLock(before, after, why)) return ex.fail((cmd == "integrity" ? cmd : "a " + cmd + " run nobody agreed to") + ": " + why);
    for(auto &t : o.touched) if(t != "/repo/lockfile") return ex.fail((cmd == "integrity" ? cmd : "a " + cmd + " run nobody agreed to") + " wrote to " + t);
    if(o.ok() && o.asked() && !yes) return ex.fail("a " + cmd + " run nobody agreed to exited with status 0");
    return;
  }
  if(cmd == "backup" || cmd == "gc")
  {
    ex.st.count["confined"]++;
    if(!identical(snap(start, "/", "/repo"), snap(s.w, "/", "/repo"), why)) return ex.fail(cmd + ": " + why);
    for(auto &t : o.touched) if(!inPath(normPath(t), "/repo")) return ex.fail(cmd + " wrote to " + t);
    return;
  }
  // restore
  ex.st.count["restored"]++;
  Tree ra = snap(start, "/repo"), rb = snap(s.w, "/repo");
  if(!onlyLock(ra, rb, why)) return ex.fail("restore: " + why);
  FMeta m = parseMeta(fileAt(start, "/repo/metadata"));
  auto tree = metaTree(m, (uint64_t)x.num("id"));
  std::string want = x.get("path", "/");
  while(want.size() > 1 && want.back() == '/') want.pop_back();
  std::map<std::string, int> mine; // what may be created or changed -> policy
  std::set<std::string> kids, replaced;
  for(auto &e : tree)
  {
    if(!inPath(e.first, want) && !inPath(want, e.first)) continue;
    std::string p = realPath(start.fs, e.first);
    auto add = [&](const std::string &q) { mine[q] = mine.count(q) ? std::max(mine[q], e.second.second) : e.second.second; kids.insert(parentOf(q)); };
    add(p);
    auto it = before.find(p);
    if(it == before.end()) continue;
    int t = it->second.type == FT::Reg ? ST_reg : it->second.type == FT::Dir ? ST_dir : it->second.type == FT::Lnk ? ST_lnk : -1;
    Ino r = start.fs.lookup(e.first, true);
    bool dir = e.second.first.type == ST_dir && r && start.fs.vol.get(r)->type == FT::Dir;
    if(dir && t == ST_lnk) add(start.fs.pathOf(r));
    if(t != e.second.first.type && !dir) replaced.insert(p);
  }
  auto below = [&](const std::string &p) { for(auto &r : replaced) if(inPath(p, r)) return true; return false; };
  Tree oa = snap(start, "/", "/repo"), ob = snap(s.w, "/", "/repo");
  std::set<std::string> all;
  for(auto &e : oa) all.insert(e.first);
  for(auto &e : ob) all.insert(e.first);
  for(auto &p : all)
  {
    auto i = oa.find(p), j = ob.find(p);
    if(i != oa.end() && j != ob.end())
    {
      Tree a, b;
      a.insert(*i); b.insert(*j);
      if(identical(a, b, why)) continue;
      if(i->second.type == FT::Dir && j->second.type == FT::Dir)
      {
        auto c = b;
        c.begin()->second.mtime = i->second.mtime;
        bool onlyTime = identical(a, c, why);
        // a directory nobody asked for is touched as a side effect, but not given a time
        bool given = mine.count(p) && mine[p] != P_none;
        if(onlyTime && (kids.count(p) || below(p)) && (given || below(p) || j->second.mtime >= start.clock || x.num("tick"))) continue;
        if(mine.count(p) && (mine[p] != P_none || below(p))) continue;
        identical(a, b, why);
        return ex.fail("restore of backup " + x.get("id") + " path " + want + ": " + why);
      }
      if(mine.count(p)) continue;
      return ex.fail("restore of backup " + x.get("id") + " path " + want + ": " + why);
    }
    if(i == oa.end()) { if(!mine.count(p) && !below(p)) return ex.fail("restore of backup " + x.get("id") + " path " + want + " created " + p); continue; }
    if(mine.count(p) && (i->second.type != FT::Dir || below(p))) continue; // a link or file on the way to being replaced
    if(!below(p)) return ex.fail("restore of backup " + x.get("id") + " path " + want + " removed " + p);
  }
}
static void gen13(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = 9;
  o.hardlinks = false; // another name of a restored file changes with it
  o.summarize = r.chance(0.2);
  Gen g(ex, r, o);
  g.initWorld("ord=1 rdev=1");
  g.tree();
  g.config();
  g.history(1 + (int)r.below(3), 5, true);
  for(int k = 0; k < 3 && !ex.bad(); k++)
  {
    tick(ex, r);
    std::string cmd = r.pick({"backup", "restore", "restore", "gc", "integrity"});
    if(!hasMeta(ex.s.w)) cmd = "backup";
    if(r.chance(0.4)) litter(ex, r);
    Step b = envStep(r, runStep(cmd));
    if(cmd == "restore")
    {
      b = restoreStep(ex, g, r);
      int n = 1 + (int)r.below(6);
      if(r.chance(0.2)) for(auto &x : g.roots) ex.step(Step("rm").set("p", x));
      else g.edit(n);
      g.dropDirLinks();
      if(r.chance(0.3)) { auto d = g.paths(true, false); if(!d.empty()) { std::string q = d[r.below(d.size())]; std::string e = "/other/place" + std::to_string(k); ex.step(Step("mk").set("t", "d").set("p", e)); ex.step(Step("mk").set("t", "f").set("p", e + "/a").set("n", 30).set("c", 2)); ex.step(Step("mk").set("t", "l").set("p", q).set("to", e).set("x", 1)); } }
      if(r.chance(0.1)) b.set("path", b.get("path", "") + "/");
    }
    else if(cmd == "backup") { g.edit(1 + (int)r.below(4)); if(r.chance(0.3)) g.config(); g.fixConfig(); }
    auto d = ex.dry(ex.s.w, b);
    if(d->o.trace.empty()) return;
    int n = ex.thorough ? 24 : 10;
    for(int i = 0; i < n && !ex.bad(); i++)
    {
      Step v = r.chance(0.8) ? failVariant(ex, r, d->o, b, true) : crashVariant(r, d->o.trace, b, "v");
      if(r.chance(0.15)) { v = b; v.set("ans", r.pick({"n\n", "no\n", "", "yes", "yep\n", "maybe\nn\n", "Y\n", " y\n", "y y\n", "yess\n", "yn\n", "y\r\n", "yes\r\n", "no\r\ny\n", "what\r\nyes", "\n\ny\n", "\r\n"}));
        if(r.chance(0.1)) v.set("ans", std::string(r.pick<size_t>({100, 1024, 4096, 5000, 16384}), "yn"[r.below(2)]) + r.pick<std::string>({"", "\n", "\ny\n", "\nn\n"})); }
      v.op = "v";
      ex.step(v);
    }
    if(r.chance(0.5) && !ex.bad())
    {
      ex.step(Step("ro").set("v", 1));
      Step v = b;
      if(r.chance(0.3)) v.set("ans", "n\n");
      v.op = "v";
      ex.step(v);
      if(r.chance(0.4)) { Step v2 = failVariant(ex, r, d->o, b, true); v2.op = "v"; ex.step(v2); }
      ex.step(Step("ro").set("v", 0));
    }
    if(!ex.bad()) ex.step(b);
  }
}

// ---- C14 -----------------------------------------------------------------
// Compares the current state of everything selected with the newest recorded one, without the model.
enum class Upd { Same, Changed, Unclear };
static Upd upToDate(const World &w, const Conf &c, std::string &what)
{
  FMeta m = parseMeta(fileAt(w, "/repo/metadata"));
  std::string err;
  int followed = 0;
  auto found = searchFs(w.fs, c, err, &followed);
  if(!err.empty() || !m.ok) return Upd::Unclear;
  bool unclear = false;
  auto changed = [&](const std::string &t) { what = t; return Upd::Changed; };
  std::map<std::string, const FNode *> nodes;
  for(auto &n : m.nodes) { if(n.hist.empty()) return Upd::Unclear; nodes[n.path] = &n; }
  std::set<std::string> needed; // directories above something selected
  for(auto &f : found)
    if(!f.second.other && f.second.pol != P_none)
      for(std::string p = parentOf(f.first); p != "/"; p = parentOf(p)) needed.insert(p);
  // what was recorded below an unselected directory keeps it, too
  for(auto &n : m.nodes)
  {
    if(n.pol == P_none) continue;
    for(std::string p = parentOf(n.path); p != "/"; p = parentOf(p)) needed.insert(p);
  }
  for(auto &f : found)
  {
    if(f.second.other) continue;
    auto it = nodes.find(f.first);
    const MState &now = f.second.st;
    if(f.second.pol == P_none)
    {
      if(!needed.count(f.first)) { unclear = true; continue; } // asks again and again
      if(it == nodes.end()) { unclear = true; continue; }
      const FNode &n = *it->second;
      if(n.pol != P_none) return changed(f.first + " is no longer selected");
      if(n.hist[0].st.type != now.type) { unclear = true; continue; }
      continue;
    }
    if(it == nodes.end()) return changed(f.first + " is new");
    const FNode &n = *it->second;
    const MState &was = n.hist[0].st;
    if(n.pol != f.second.pol) return changed(f.first + " has another policy");
    if(was.type == ST_gone) return changed(f.first + " is there again");
    if(was.type != now.type) return changed(f.first + " has another type");
    if(was.uid != now.uid || was.gid != now.gid) return changed(f.first + " has another owner");
    if(now.type == ST_lnk) { if(*was.data != *now.data) return changed(f.first + " has another target"); continue; }
    if((was.mode & 07777) != now.mode) return changed(f.first + " has other permissions");
    if(was.mtime != now.mtime) return changed(f.first + " has another modification time");
    if(now.type == ST_reg)
    {
      if(was.size != now.size) return changed(f.first + " has another size");
      std::string obj = objName(n.hist[0]);
      std::string data = obj.empty() ? n.hist[0].inl : fileAt(w, "/repo/" + obj);
      if(data != *now.data) unclear = true; // same size and modification time
    }
  }
  for(auto &n : m.nodes)
  {
    auto it = found.find(n.path);
    if(it != found.end() && !it->second.other) continue;
    if(n.pol == P_none) { unclear = true; continue; }
    // "missing": other types (pipes) count as not there, too
    if(n.hist[0].st.type != ST_gone) { if(it != found.end()) unclear = true; else return changed(n.path + " is gone"); }
    else
    {
      // removed below something which changed its rules?
      unclear = unclear || n.pol != P_track;
      for(std::string p = parentOf(n.path); p != "/"; p = parentOf(p)) if(nodes.count(p) && nodes[p]->pol != P_track && nodes[p]->pol != P_none) unclear = true;
    }
  }
  // a rule removed or changed for a path that does not exist any more changes its policy
  return unclear ? Upd::Unclear : Upd::Same;
}
static void run14(Ex &ex, St &s, const Step &x)
{
  std::string cmd = x.get("cmd"), why, what;
  if(hasFaults(x))
  {
    Out o = ex.nb(s.w, x);
    if(o.end == End::Crashed || o.end == End::Hang) return ex.fail(cmd + " " + o.brief());
    s.w.fs.syncAll();
    s.w.locks.clear();
    return;
  }
  if(cmd != "backup") { if(hasMeta(s.w)) ex.plain(s.w, x); return; }
  Conf c = parseConf(ex.config(s.w));
  std::string conf = ex.config(s.w);
  Upd u = upToDate(s.w, c, what);
  // Rules for paths that were already gone take effect without being visible in the tree.
  if(u == Upd::Same && s.vars["conf"] != conf) u = Upd::Unclear;
  Tree before = snap(s.w, "/repo");
  World start = s.w;
  Out o = ex.nb(s.w, x);
  if(u == Upd::Unclear)
  {
    ex.st.count["unclear"]++;
    if(o.end != End::Exited) return ex.fail("a backup " + o.brief());
    std::string e2;
    searchFs(start.fs, c, e2);
    if(!o.ok() && e2.empty()) return ex.fail("an ordinary undisturbed backup " + o.brief());
  }
  else
  {
    if(!o.ok()) return ex.fail("an ordinary undisturbed backup " + o.brief());
    if(u == Upd::Same)
    {
      ex.st.count["nothing changed"]++;
      if(o.asked()) return ex.fail("a backup asks although nothing changed: " + quiet(o.out));
      Tree after = snap(s.w, "/repo");
      if(!onlyLock(before, after, why)) return ex.fail("a backup without changes altered the repository: " + why);
    }
    else
    {
      ex.st.count["change found"]++;
      if(!o.asked()) return ex.fail("a backup does not ask although " + what);
    }
  }
  if(o.ok())
  {
    s.vars["conf"] = conf;
    // everything selected is in the newest backup as it is now
    std::string err;
    auto found = searchFs(s.w.fs, c, err);
    if(!err.empty() || u == Upd::Unclear) return;
    Hist h = ex.observe(s.w);
    if(!h.ok) return ex.fail("after a backup: " + h.err);
    const Tree none;
    const Tree &t = h.ids.empty() ? none : h.ids[0];
    for(auto &f : found)
    {
      if(f.second.other || f.second.pol == P_none) continue;
      std::map<std::string, std::pair<MState, int>> want;
      want[f.first] = {f.second.st, f.second.pol};
      Tree got;
      auto it = t.find(f.first);
      if(it != t.end()) got.insert(*it);
      if(!sameAsModel(got, want, why)) return ex.fail("after a confirmed backup, the newest one does not hold the current state: " + why);
    }
  }
}
static void gen14(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = 12;
  o.special = false;
  o.summarize = r.chance(0.3);
  if(r.chance(0.5)) o.implicitParents = false;
  Gen g(ex, r, o);
  g.initWorld("ord=1");
  g.tree();
  g.config();
  int n = 3 + (int)r.below(ex.thorough ? 10 : 5);
  auto shift = [&]() {
    if(r.chance(0.8)) tick(ex, r);
    else ex.step(Step("clk").set("d", -1000000000LL * (int64_t)(1 + r.below(5000))));
  };
  for(int i = 0; i < n && !ex.bad(); i++)
  {
    if(i && r.chance(0.8)) { if(r.chance(0.6)) g.edit(1); else g.edit(1 + (int)r.below(4)); if(r.chance(0.25)) g.config(); }
    g.fixConfig();
    shift();
    if(r.chance(0.1))
    {
      Step b = envStep(r, runStep("backup"));
      auto d = ex.dry(ex.s.w, b);
      if(!d->o.trace.empty()) ex.step(crashOrFail(r, d->o.trace, b));
      shift();
    }
    ex.step(envStep(r, runStep("backup"), 0.8));
    // again, in other environments
    int k = 1 + (int)r.below(2);
    for(int j = 0; j < k && !ex.bad(); j++)
    {
      shift();
      if(r.chance(0.2)) ex.step(envStep(r, runStep(r.pick({"gc", "integrity"}))));
      if(r.chance(0.25) && hasMeta(ex.s.w))
      {
        // restoring a lost tree, then backing it up again
        auto any = g.paths(true, true, true);
        for(int q = 0; q < 3 && !any.empty(); q++) ex.step(Step("rm").set("p", any[r.below(any.size())]));
        g.dropDirLinks();
        ex.step(envStep(r, runStep("restore", 0)));
        shift();
      }
      ex.step(envStep(r, runStep("backup"), 0.8));
    }
  }
}

// ---- C15 -----------------------------------------------------------------
// Every object file of the repository.
static std::set<std::string> objectsIn(const World &w)
{
  std::set<std::string> r;
  Tree t = snap(w, "/repo");
  for(auto &e : t) if(e.second.type == FT::Reg && e.first.size() > 30) r.insert(e.first.substr(6));
  return r;
}
static bool storedOnce(Ex &ex, St &s, std::string &why)
{
  FMeta m = parseMeta(fileAt(s.w, "/repo/metadata"));
  if(!hasMeta(s.w)) return true;
  if(!m.ok) { why = "the metadata is malformed: " + m.err; return false; }
  std::map<std::string, std::string> byName, byData;
  for(auto &n : m.nodes)
    for(auto &p : n.hist)
    {
      std::string o = objName(p);
      if(o.empty() || byName.count(o)) continue;
      bool e;
      std::string d = fileAt(s.w, "/repo/" + o, &e);
      if(!e) { why = "the object " + o + " of " + n.path + " is missing"; return false; }
      byName[o] = d;
      auto it = byData.find(d);
      if(it != byData.end() && !s.vars.count("gap")) { why = "the same content is stored as " + it->second + " and as " + o; return false; }
      byData[d] = o;
    }
  ex.st.count["objects"] += byName.size();
  return true;
}
// Contents that would need the same object name apart from the slot.
static size_t mostColliding(const World &a)
{
  std::map<std::pair<uint64_t, uint64_t>, std::set<std::string>> g;
  for(auto &o : objectsIn(a)) { std::string d = fileAt(a, "/repo/" + o); g[{d.size(), maskedHash(d.data(), d.size(), a.hashMask)}].insert(d); }
  Tree t = snap(a, "/", "/repo");
  for(auto &e : t) if(e.second.type == FT::Reg && e.second.data->size() > 20) g[{e.second.data->size(), maskedHash(e.second.data->data(), e.second.data->size(), a.hashMask)}].insert(*e.second.data);
  size_t n = 0;
  for(auto &e : g) n = std::max(n, e.second.size());
  return n;
}
static void run15(Ex &ex, St &s, const Step &x)
{
  std::string cmd = x.get("cmd"), why;
  auto before = objectsIn(s.w);
  World start = s.w;
  if(s.vars.count("unmodelled")) { ex.nb(s.w, x); return; }
  if(cmd != "backup") otherRun(ex, s, x);
  else
  {
    Model keep = s.m;
    // more than 256 colliding contents cannot be stored
    if(start.hashMask && mostColliding(start) > 256)
    {
      Hist a = ex.observe(s.w);
      Out o = ex.nb(s.w, x);
      if(o.end == End::Crashed || o.end == End::Hang) return ex.fail("a backup " + o.brief());
      ex.st.count["too many collisions"]++;
      if(o.ok()) { s.vars["unmodelled"] = "1"; return; } // some of them were never stored at the same time
      if(o.end == End::Exited && o.err.empty()) return ex.fail("a backup failed without an error message");
      s.w.fs.syncAll();
      Hist b = ex.observe(s.w);
      if(!sameHist(a, b, why)) return ex.fail("a backup that ran out of slots changed the history: " + why);
      return;
    }
    Ran r;
    if(!modelBackup(ex, s, x, r)) return;
  }
  if(ex.bad()) return;
  for(auto &o : before) if(!s.w.fs.lookup("/repo/" + o, false) && s.w.hashMask) s.vars["gap"] = "1";
  if(!storedOnce(ex, s, why)) return ex.fail("after " + cmd + ": " + why);
}
static void gen15(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = 10;
  o.special = o.ignore = false;
  o.types = r.chance(0.5);
  Gen g(ex, r, o);
  int hm = r.chance(0.3) ? 0 : (int)r.pick({1, 1, 2, 3, 7});
  bool many = hm && r.chance(0.02);
  if(many) hm = 1;
  g.initWorld("ord=" + std::to_string(r.below(2)) + " hm=" + std::to_string(hm));
  std::vector<int64_t> sizes = {21, 40, 4096, 5000};
  r.shuffle(sizes);
  sizes.resize(1 + r.below(3));
  auto variant = [&]() { return (int64_t)(r.chance(0.5) ? r.below(9) : r.below(4) + ((1 + r.below(6)) << 20)); };
  auto shared = [&]() { // files of few sizes and contents
    auto f = g.paths(false, true);
    int n = 1 + (int)r.below(6);
    for(int i = 0; i < n && !ex.bad(); i++)
    {
      if(!f.empty() && r.chance(0.4))
        ex.step(Step("wr").set("p", f[r.below(f.size())]).set("n", sizes[r.below(sizes.size())]).set("c", variant()).set("ts", g.stamp()));
      else
        ex.step(Step("mk").set("t", "f").set("p", g.newPath()).set("n", sizes[r.below(sizes.size())]).set("c", variant()).set("ts", g.stamp()));
    }
  };
  g.tree();
  shared();
  if(many)
  {
    int n = 250 + (int)r.below(14);
    for(int i = 0; i < n; i++) ex.step(Step("mk").set("t", "f").set("p", g.roots[0] + "/m" + std::to_string(i)).set("n", 40).set("c", i));
  }
  g.config();
  int n = 3 + (int)r.below(ex.thorough ? 9 : 5);
  if(many) n = 2;
  for(int i = 0; i < n && !ex.bad(); i++)
  {
    if(i) { if(r.chance(0.6)) shared(); g.edit((int)r.below(4)); if(r.chance(0.3)) g.config(); }
    g.fixConfig();
    tick(ex, r);
    if(i && r.chance(0.2)) ex.step(envStep(r, runStep("gc")));
    Step b = envStep(r, runStep("backup"));
    if(r.chance(0.3) && !many)
    {
      auto d = ex.dry(ex.s.w, b);
      if(!d->o.trace.empty()) ex.step(crashOrFail(r, d->o.trace, b));
      if(r.chance(0.5)) g.edit(1);
    }
    g.fixConfig();
    if(!ex.bad()) ex.step(b);
  }
}

extern const Prop propC12 = {"C12", gen12, run12, nullptr};
extern const Prop propC13 = {"C13", gen13, run13, nullptr};
extern const Prop propC14 = {"C14", gen14, run14, nullptr};
extern const Prop propC15 = {"C15", gen15, run15, nullptr};
