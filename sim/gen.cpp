#include "exec.h"
#include <algorithm>
#include <cerrno>
#include <cstring>

bool faultErrValid(Sys s, int e);

static void walkPaths(const FS &fs, Ino i, const std::string &p, bool d, bool f, bool l, std::vector<std::string> &out)
{
  const Inode *n = fs.vol.get(i);
  for(auto &e : n->ents)
  {
    const Inode *c = fs.vol.get(e.second);
    std::string q = p + "/" + e.first;
    if(c->type == FT::Dir) { if(d) out.push_back(q); walkPaths(fs, e.second, q, d, f, l, out); }
    else if(c->type == FT::Lnk ? l : f) out.push_back(q);
  }
}
std::vector<std::string> Gen::paths(bool dirs, bool files, bool links)
{
  std::vector<std::string> v;
  for(auto &root : roots)
  {
    Ino i = ex.s.w.fs.lookup(root, false);
    if(!i || ex.s.w.fs.vol.get(i)->type != FT::Dir) continue;
    if(dirs) v.push_back(root);
    walkPaths(ex.s.w.fs, i, root, dirs, files, links, v);
  }
  return v;
}
std::string Gen::name()
{
  static const std::vector<std::string> base = {"a", "b", "c", "d", "e", "f1", "f2", "notes.txt", "x.c", "y.c", "img.png"};
  static const std::vector<std::string> odd = {".hidden", "with space", "-dash", "config", "metadata", "lockfile", "a.b.c", "\xc3\xa4\xc3\xb6", "back\\slash", "tab\there",
    "[x]", "*", "~", "#h", "%41", "...", "..a", "repo", "x\x01y"};
  if(o.oddNames && r.chance(0.04)) return r.pick<std::string>({"a\nb", "x.c\nz", "q\nx.c", "\nb", "a\n", "f1\n2", "notes.txt\nimg.png"});
  if(o.oddNames && r.chance(0.12))
  {
    if(r.chance(0.05)) return std::string(r.pick({100, 200, 255}), 'L');
    return odd[r.below(odd.size())];
  }
  return base[r.below(base.size())];
}
std::string Gen::newPath()
{
  auto d = paths(true, false);
  std::string b = d.empty() ? roots[r.below(roots.size())] : d[r.below(d.size())];
  for(int i = 0; b.size() > 3500 && i < 9; i++) b = d[r.below(d.size())];
  if(b.size() > 3500) b = roots[0];
  int depth = 0;
  for(char c : b) depth += c == '/';
  b += "/" + name();
  if(depth < 6 && r.chance(0.25)) b += "/" + name();
  return b;
}
uint64_t Gen::size()
{
  switch(r.below(10))
  {
    case 0: return 0;
    case 1: return r.pick({1u, 5u, 19u, 20u});
    case 2: return r.pick({21u, 22u, 40u});
    case 3: case 4: return 21 + r.below(300);
    case 5: return r.pick({4095u, 4096u, 4097u, 8192u});
    case 6: return 20;
    case 7: return 1 + r.below(20);
    case 8: return o.big ? r.pick({10000u, 20000u, 70000u, 1000u}) : 100;
    default: return 21 + r.below(60);
  }
}
int64_t Gen::kind()
{
  int64_t c = (int64_t)(r.chance(0.6) ? r.below(6) : r.below(400));
  if(r.chance(0.15)) c += (int64_t)(1 + r.below(6)) << 20;
  return c;
}
int64_t Gen::stamp()
{
  ts += 1 + (int64_t)r.below(5);
  if(r.chance(0.06)) return r.pick<int64_t>({-1000000, 0, 4294967296LL, 2147483648LL, 1, 8589934592LL}) + ts - 1500000000;
  return ts;
}
static std::string modeStr(Rng &r, bool dir, bool readable)
{
  static const char *f[] = {"644", "600", "755", "444", "640", "4755", "2755", "6711", "1644", "777", "0", "200"};
  static const char *d[] = {"755", "700", "750", "1777", "2775", "555", "777", "0", "300"};
  if(dir) return d[r.below(readable ? 7 : 9)];
  return f[r.below(readable ? 10 : 12)];
}
// Mostly few different ones, sometimes such that need all of their bits.
static int64_t owner(Rng &r, int64_t k)
{
  if(r.chance(0.08)) return r.pick<int64_t>({127, 128, 255, 256, 32768, 65534, 65535, 65536, 100000, 2147483647LL, 2147483648LL, 4294967294LL});
  return (int64_t)r.below(4) * k;
}
Step Gen::mkFile(const std::string &p)
{
  Step s("mk");
  s.set("t", "f").set("p", p).set("n", (int64_t)size()).set("c", kind());
  s.set("ts", stamp());
  if(r.chance(0.4)) s.set("m", modeStr(r, false, o.allReadable));
  if(o.uid) { s.set("u", o.uid); s.set("g", o.uid); s.set("m", r.chance(0.5) ? "644" : "600"); }
  else if(o.owners && r.chance(0.3)) { s.set("u", owner(r, 7)); s.set("g", owner(r, 5)); }
  return s;
}
Step Gen::mkAny(const std::string &p)
{
  int k = (int)r.below(20);
  if(o.types && k < 2)
  {
    Step s("mk");
    static const std::vector<std::string> tg = {"a", "../b", "/home/a", "nowhere", "/", "x y", "./.", "/etc/notes.txt"};
    s.set("t", "l").set("p", p).set("to", r.chance(0.05) ? std::string(r.pick({300, 2000, 4000}), 't') : tg[r.below(tg.size())]);
    s.set("ts", stamp());
    if(o.uid) { s.set("u", o.uid); s.set("g", o.uid); }
    else if(o.owners && r.chance(0.3)) s.set("u", owner(r, 7));
    return s;
  }
  if(o.types && k < 5)
  {
    Step s("mk");
    s.set("t", "d").set("p", p).set("ts", stamp());
    if(r.chance(0.5)) s.set("m", modeStr(r, true, true));
    if(o.uid) { s.set("u", o.uid); s.set("g", o.uid); s.set("m", "755"); }
    else if(o.owners && r.chance(0.3)) { s.set("u", owner(r, 7)); s.set("g", owner(r, 5)); }
    return s;
  }
  if(o.special && k == 5 && r.chance(0.3)) { Step s("mk"); s.set("t", "p").set("p", p); return s; }
  return mkFile(p);
}
void Gen::initWorld(const std::string &extra)
{
  Step w = Step::parse("world " + extra);
  if(o.collide > 0 && r.chance(o.collide)) w.set("hm", (int64_t)(1 + r.below(6)));
  if(o.uid) { w.set("uid", o.uid); w.set("gid", o.uid); }
  ex.step(w);
  static const std::vector<std::string> all = {"/home", "/etc", "/srv/data", "/home2/u/docs"};
  int n = 1 + (int)r.below(2);
  roots.clear();
  std::vector<std::string> c = all;
  r.shuffle(c);
  for(int i = 0; i < n; i++) roots.push_back(c[(size_t)i]);
  for(auto &x : roots)
  {
    Step s("mk");
    s.set("t", "d").set("p", x);
    if(o.uid) { s.set("u", o.uid); s.set("g", o.uid); }
    else if(r.chance(0.3)) s.set("m", "750").set("u", 3);
    ex.step(s);
  }
}
void Gen::tree()
{
  int n = 2 + (int)r.below((uint64_t)o.maxFiles);
  if(r.chance(0.02)) n += 30 + (int)r.below(70);
  for(int i = 0; i < n && !ex.bad(); i++) ex.step(mkAny(newPath()));
  if(o.hardlinks && r.chance(0.2))
  {
    auto f = paths(false, true);
    if(!f.empty()) { Step s("ln"); s.set("p", f[r.below(f.size())]).set("q", newPath()); ex.step(s); }
  }
  if(r.chance(0.03)) deep();
}
// Directories in directories, such that a path gets up to as long as a system call accepts (4095 bytes).
void Gen::deep()
{
  size_t len = 200 + r.below(r.chance(0.3) ? 300 : 3200), part = len < 1200 && r.chance(0.3) ? 9 : 40 + r.below(216);
  std::string p = roots[r.below(roots.size())];
  while(p.size() < len && !ex.bad()) p += "/" + std::string(part, (char)('p' + r.below(4)));
  Step d("mk");
  d.set("t", "d").set("p", p).set("ts", stamp());
  if(o.uid) d.set("u", o.uid).set("g", o.uid);
  ex.step(d);
  size_t room = 4095 - p.size() - 1;
  for(int i = 0; i < 2; i++) ex.step(mkFile(p + "/" + std::string(std::min<size_t>(r.chance(0.5) ? 255 - (size_t)i : 1 + r.below(255), room), (char)('w' + i))));
  if(room > 300 && r.chance(0.5)) // exactly the limit
  {
    while(4095 - p.size() - 1 > 255) p += "/" + std::string(std::min<size_t>(250, 4095 - p.size() - 3), 'v');
    ex.step(mkFile(p + "/" + std::string(4095 - p.size() - 1, 'v')));
  }
}
// One run in some thousand has more files than 16 bits can count. It replaces everything else in this run.
uint64_t runIndex = 0;
bool Gen::crowd()
{
  if(runIndex % 9973 != 4999) return false;
  ex.step(Step::parse("world big=1"));
  roots = {"/home"};
  std::string pol = r.pick<std::string>({"[copy]", "[mirror]", "[track]"});
  if(!o.copy && !o.mirror) pol = "[track]";
  int64_t n = 65530 + (int64_t)r.below(600), z = r.pick({3, 3, 25});
  auto many = [&](int64_t k) { ex.step(Step("many").set("p", "/home/m").set("n", k).set("z", z).set("c", (int64_t)r.below(9)).set("ts", 1500000000)); };
  many(n - (int64_t)r.below(300));
  ex.step(mkFile("/home/a"));
  ex.step(Step("cfg").add("l", pol).add("l", "/home"));
  ex.step(Step("clk").set("d", 5000000000LL));
  ex.step(runStep("backup"));
  many(n);
  for(int i = 0; i < 5; i++) ex.step(oneEdit());
  if(!ex.s.w.fs.lookup("/home", false)) ex.step(Step("mk").set("t", "d").set("p", "/home"));
  ex.step(Step("clk").set("d", 5000000000LL));
  ex.step(runStep("backup"));
  if(r.chance(0.7)) ex.step(Step("rm").set("p", "/home/m"));
  ex.step(Step("clk").set("d", 5000000000LL));
  ex.step(runStep("backup"));
  ex.step(runStep("restore", ids() > 1 ? 1 : 0));
  ex.step(runStep(r.pick({"integrity", "gc"})));
  return true;
}
Step Gen::oneEdit()
{
  auto any = paths(true, true, true);
  auto files = paths(false, true);
  auto dirs = paths(true, false);
  for(auto &x : roots) any.erase(std::remove(any.begin(), any.end(), x), any.end());
  int k = (int)r.below(19);
  if(any.empty() || k <= 2) return mkAny(newPath());
  std::string p = any[r.below(any.size())];
  size_t below = p.size();
  for(auto &x : any) if(x.compare(0, p.size(), p) == 0 && x.size() > below) below = x.size();
  if((k == 5 || k == 14) && below > 3000) k = 3;
  switch(k)
  {
    case 3: case 4: return Step("rm").set("p", p);
    case 5:
    {
      std::string q = newPath();
      if(q.size() + below - p.size() > 4000) return Step("rm").set("p", p);
      return Step("mv").set("p", p).set("q", q);
    }
    case 6: case 7: case 8: // new content
    {
      if(files.empty()) return mkAny(newPath());
      p = files[r.below(files.size())];
      const Inode *n = ex.s.w.fs.vol.get(ex.s.w.fs.lookup(p, false));
      Step s("wr");
      s.set("p", p).set("n", (int64_t)(r.chance(0.5) ? n->data->size() : size())).set("c", kind());
      if(o.sameSecondEdits && r.chance(0.3)) s.set("keep", 1); else s.set("ts", stamp());
      return s;
    }
    case 9: case 10: case 11: case 12: // attributes
    {
      Step s("set");
      s.set("p", p);
      const Inode *n = ex.s.w.fs.vol.get(ex.s.w.fs.lookup(p, false));
      int w = (int)r.below(4);
      if(w == 0 || w == 3) s.set("m", o.uid ? (n->type == FT::Dir ? "755" : r.chance(0.5) ? "644" : "640") : modeStr(r, n->type == FT::Dir, o.allReadable).c_str());
      if((w == 1 || w == 3) && !o.uid) { if(r.chance(0.7)) s.set("u", owner(r, 7)); else s.set("g", owner(r, 5)); }
      if(w == 2 || r.chance(0.2)) s.set("ts", stamp());
      return s;
    }
    case 13: // another type in its place
    {
      Step s = mkAny(p);
      s.set("x", 1);
      return s;
    }
    case 16: case 17: case 18: // the smallest possible difference
    {
      Ino i = ex.s.w.fs.lookup(p, false);
      if(!i) return mkAny(newPath());
      const Inode *n = ex.s.w.fs.vol.get(i);
      if(n->type == FT::Lnk)
      {
        std::string to = *n->data;
        size_t at = r.below(to.size());
        switch(r.below(4))
        {
          case 0: to += r.pick({'z', '/', ' '}); break;
          case 1: if(to.size() > 1) { to.pop_back(); break; } [[fallthrough]];
          default: to[at] = to[at] == 'q' ? 'r' : 'q';
        }
        Step s("mk");
        return s.set("t", "l").set("p", p).set("to", to).set("ts", r.chance(0.5) ? n->mtime / 1000000000 : stamp()).set("u", (int64_t)n->uid).set("g", (int64_t)n->gid).set("x", 1);
      }
      int w = (int)r.below(o.uid ? 3 : 5);
      if(n->type == FT::Reg && w < 3)
      {
        std::string d = *n->data;
        size_t sz = d.size();
        if(w == 0 && sz) // one bit of the content, early, late or in the middle
        {
          size_t at = r.chance(0.4) ? sz - 1 - r.below(std::min<size_t>(sz, 3)) : r.chance(0.3) ? r.below(std::min<size_t>(sz, 25)) : r.below(sz);
          Step s("flip");
          s.set("p", p).set("o", (int64_t)at).set("x", (int64_t)(1 << r.below(8)));
          if(!o.sameSecondEdits || r.chance(0.7)) s.set("ts", stamp());
          return s;
        }
        int64_t by = (int64_t)1 << r.pick({0, 0, 1, 4, 8, 8, 9, 12, 12, 15, 16, 16, 16});
        if(!o.big && by > 4096) by = 256;
        Step s(r.chance(0.5) && (int64_t)sz >= by ? "cut" : "app");
        s.set("p", p).set("n", s.op == "cut" ? (int64_t)sz - by : by).set("c", kind());
        if(r.chance(0.5)) s.set("ts", stamp()); // or the old one: a size is reason enough
        return s;
      }
      Step s("set");
      s.set("p", p);
      if(w < 3) { int64_t by = (int64_t)1 << r.below(r.chance(0.1) ? 34 : 20), t = n->mtime / 1000000000; return s.set("ts", t > 2 * by && r.chance(0.5) ? t - by : t + by); }
      uint32_t bit = 1u << r.below(r.chance(0.2) ? 31 : 17);
      uint32_t id = (w == 3 ? n->uid : n->gid) ^ bit;
      if(id == ~0u) id = 7; // not an id
      s.set(w == 3 ? "u" : "g", (int64_t)id);
      return s;
    }
    case 14: // replace by a directory with children
      if(o.types) return mkFile(p + "/" + name());
      return mkFile(p);
    default: // touch several attributes of a directory
      if(dirs.empty()) return mkAny(newPath());
      return Step("set").set("p", dirs[r.below(dirs.size())]).set("ts", stamp());
  }
}
void Gen::edit(int n)
{
  for(int i = 0; i < n && !ex.bad(); i++) ex.step(oneEdit());
  for(auto &x : roots) // the roots themselves must stay
    if(!ex.s.w.fs.lookup(x, false)) ex.step(Step("mk").set("t", "d").set("p", x));
}
void Gen::writeConfig()
{
  Step s("cfg");
  for(auto &l : cfgLines) s.add("l", l);
  ex.step(s);
}
static std::string rxQuote(const std::string &s)
{
  std::string q;
  for(char c : s)
  {
    if(strchr("\\.[]()*+?{}|^$", c)) q += '\\';
    q += c;
  }
  return q;
}
void Gen::config()
{
  std::vector<std::string> pol;
  if(o.copy) pol.push_back("[copy]");
  if(o.mirror) pol.push_back("[mirror]");
  if(o.track) { pol.push_back("[track]"); pol.push_back("[track]"); }
  for(int attempt = 0; attempt < 8; attempt++)
  {
    cfgLines.clear();
    std::set<std::string> used;
    bool simple = attempt >= 5;
    for(auto &root : roots)
    {
      if(!o.implicitParents || r.chance(0.7))
        if(used.insert(root).second) { cfgLines.push_back(pol[r.below(pol.size())]); cfgLines.push_back(root); }
    }
    auto any = paths(true, true, true);
    int extra = simple ? 0 : (int)r.below(5);
    for(int i = 0; i < extra && !any.empty(); i++)
    {
      std::string p = any[r.below(any.size())];
      if(p.size() > 3500 && !r.chance(0.2)) continue;
      if(p.find('\n') != std::string::npos || p.find("//") != std::string::npos) continue;
      if(o.regex && r.chance(0.3))
      {
        size_t s = p.rfind('/');
        std::string n = p.substr(s + 1);
        static const std::vector<std::string> rx = {"^[a-c]$", "\\.c$", "^f[0-9]$", ".*", "^x", "a|b", "^\\.", "[[:digit:]]"};
        std::string e = r.chance(0.4) ? "^" + rxQuote(n) + "$" : rx[r.below(rx.size())];
        p = p.substr(0, s) + "//" + e;
        if(r.chance(0.3)) p += "/" + name();
      }
      else if(r.chance(0.2)) p += "/" + name();
      if(p.find("/./") != std::string::npos || p.find("/../") != std::string::npos || p.find('\n') != std::string::npos) continue;
      if(!used.insert(p).second) continue;
      cfgLines.push_back(pol[r.below(pol.size())]);
      cfgLines.push_back(p);
    }
    if(o.ignore && !simple && r.chance(0.4))
    {
      static const std::vector<std::string> ig = {"\\.c$", "/a$", "/b/", "^/home/.*png$", "notes", "/\\.[^/]*$", "^/etc/[a-c]$"};
      cfgLines.push_back("[ignore]");
      cfgLines.push_back(ig[r.below(ig.size())]);
    }
    if(o.summarize && r.chance(0.5) && !any.empty())
    {
      cfgLines.push_back("[summarize]");
      std::string p = any[r.below(any.size())];
      cfgLines.push_back(r.chance(0.5) ? "^" + rxQuote(p) + "$" : r.chance(0.5) ? "/[a-c]$" : "^" + rxQuote(roots[0]) + "$");
    }
    if(cfgLines.empty()) { cfgLines.push_back(pol[r.below(pol.size())]); cfgLines.push_back(roots[0]); }
    std::string t;
    for(auto &l : cfgLines) t += l + "\n";
    Conf c = parseConf(t);
    if(!c.ok) continue;
    if(usable(c)) break;
  }
  writeConfig();
}
bool Gen::usable(const Conf &c)
{
  if(!c.ok) return false;
  std::string err;
  int followed = 0;
  searchFs(ex.s.w.fs, c, err, &followed);
  return err.empty() && (o.symlinkDirs || !followed);
}
// Replaces a configuration that the current tree makes unusable (ambiguous rules etc.).
void Gen::fixConfig()
{
  if(!usable(parseConf(ex.config(ex.s.w)))) config();
}
void Gen::editConfig() { config(); }
// A symlink that leads to a directory counts as this directory where a backup holds one; removes those.
void Gen::dropDirLinks()
{
  FMeta m = parseMeta(fileAt(ex.s.w, "/repo/metadata"));
  for(auto &n : m.nodes)
  {
    bool dir = false;
    for(auto &p : n.hist) dir = dir || p.st.type == ST_dir;
    if(!dir) continue;
    Ino i = ex.s.w.fs.lookup(n.path, false);
    const Inode *e = i ? ex.s.w.fs.vol.get(i) : nullptr;
    if(e && e->type == FT::Lnk && *e->data != "nowhere" && *e->data != "x y") ex.step(Step("rm").set("p", n.path));
  }
}
int Gen::ids()
{
  FMeta m = parseMeta(fileAt(ex.s.w, "/repo/metadata"));
  return m.ok ? (int)m.times.size() : 0;
}
std::string Gen::anyRepoPath(int &id)
{
  int n = ids();
  if(!n) return "";
  id = (int)r.below((uint64_t)n);
  Hist h = ex.observe(ex.s.w);
  if(!h.ok || h.ids.size() <= (size_t)id || h.ids[(size_t)id].empty()) return "";
  auto it = h.ids[(size_t)id].begin();
  std::advance(it, (long)r.below(h.ids[(size_t)id].size()));
  return it->first;
}
void Gen::history(int backups, int editsPer, bool cfgEdits)
{
  for(int i = 0; i < backups && !ex.bad(); i++)
  {
    if(i)
    {
      edit(1 + (int)r.below((uint64_t)editsPer));
      if(cfgEdits && r.chance(0.4)) editConfig();
    }
    fixConfig();
    ex.step(Step("clk").set("d", (int64_t)(1 + r.below(100000)) * 1000000000LL));
    ex.step(runStep("backup"));
  }
}
std::vector<uint32_t> pickCalls(Rng &r, const std::vector<SysRec> &tr, int n, bool mutOnly)
{
  std::vector<uint32_t> mut, any, out;
  for(uint32_t i = 0; i < tr.size(); i++)
  {
    if(tr[i].s == S_exit) continue;
    bool out2 = tr[i].s == S_writeout || tr[i].s == S_isatty;
    if(sysMutates(tr[i].s) && !out2) mut.push_back(i + 1);
    else if(!out2 || r.chance(0.1)) any.push_back(i + 1);
  }
  for(int i = 0; i < n; i++)
  {
    bool m = mutOnly || r.chance(0.75);
    if(m && !mut.empty()) out.push_back(mut[r.below(mut.size())] + (r.chance(0.2) ? 1 : 0));
    else if(!any.empty()) out.push_back(any[r.below(any.size())]);
    else if(!tr.empty()) out.push_back(1 + (uint32_t)r.below(tr.size()));
  }
  return out;
}
std::string powerSuffix(Rng &r)
{
  return std::to_string(r.pick({0, 0, 0, 1, 1, 2, 2, 3}));
}
std::string errFault(Rng &r, const std::vector<SysRec> &tr, uint32_t at)
{
  static const std::vector<int> es = {EIO, ENOSPC, EACCES, EROFS, ENOMEM, EINTR, EMFILE, EDQUOT, EPERM, ELOOP, EOVERFLOW, EBUSY, ENOLCK, EFBIG, EINVAL, ENOENT, EBADF, ENFILE, EDEADLK, EMLINK};
  if(!at || at > tr.size()) return "";
  Sys s = tr[at - 1].s;
  if((s == S_read || s == S_write || s == S_readin) && tr[at - 1].size > 1 && r.chance(0.35)) return "short@" + std::to_string(at) + ":" + std::to_string(r.below(5000));
  for(int i = 0; i < 60; i++)
  {
    int e = es[r.below(es.size())];
    if(faultErrValid(s, e)) return std::string(r.chance(0.15) ? "err!@" : "err@") + std::to_string(at) + ":" + std::to_string(e);
  }
  return "";
}
