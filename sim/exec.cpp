#include "exec.h"
#include <cstring>

int64_t secs(int64_t ns)
{
  int64_t t = ns / 1000000000LL;
  if(ns % 1000000000LL < 0) t--;
  return t;
}
bool inPath(const std::string &p, const std::string &base)
{
  if(base == "/") return true;
  return p.compare(0, base.size(), base) == 0 && (p.size() == base.size() || p[base.size()] == '/');
}
std::string Out::brief() const
{
  static const char *n[] = {"running", "exited", "killed", "crashed", "hung", "power loss", "unsupported", "blocked"};
  std::string r = n[(int)end];
  if(end == End::Exited) r += " with status " + std::to_string(code);
  if(!crash.empty()) r += " (" + crash + ")";
  std::string e = err;
  while(!e.empty() && e.back() == '\n') e.pop_back();
  if(!e.empty()) r += ": " + e.substr(0, 200);
  return r;
}
uint64_t repoHash(const World &w, bool attrs)
{
  Hash h;
  Ino i = w.fs.lookup("/repo", false);
  if(i) w.fs.hashTree(i, h, attrs);
  h.add(w.hashMask);
  return h.h;
}
uint64_t worldHash(const World &w)
{
  Hash h;
  w.fs.hashTree(1, h, true);
  return h.h;
}
std::string fileAt(const World &w, const std::string &path, bool *exists)
{
  Ino i = w.fs.lookup(path, true);
  const Inode *n = i ? w.fs.vol.get(i) : nullptr;
  if(exists) *exists = n && n->type == FT::Reg;
  return n && n->data ? *n->data : std::string();
}
Tree snap(const World &w, const std::string &path, const std::string &exclude)
{
  Tree t;
  w.fs.snapshot(path, t, exclude);
  return t;
}
static std::string ents(const Entry &e)
{
  char b[160];
  snprintf(b, sizeof b, "%s mode %o owner %u:%u mtime %lld.%09lld", e.type == FT::Reg ? "file" : e.type == FT::Dir ? "dir" : e.type == FT::Lnk ? "symlink" : "fifo", e.mode, e.uid, e.gid, (long long)secs(e.mtime), (long long)(e.mtime - secs(e.mtime) * 1000000000LL));
  std::string r = b;
  if(e.data) r += " size " + std::to_string(e.data->size());
  return r;
}
bool sameEntry(const Entry &a, const Entry &b, bool time, std::string &why)
{
  if(a.type != b.type) { why = "type differs"; return false; }
  if(a.uid != b.uid || a.gid != b.gid) { why = "owner differs"; return false; }
  if(a.type != FT::Lnk && a.mode != b.mode) { why = "permissions differ"; return false; }
  if(a.type != FT::Lnk && time && secs(a.mtime) != secs(b.mtime)) { why = "modification time differs"; return false; }
  if(a.data && b.data && a.data != b.data && *a.data != *b.data) { why = a.type == FT::Lnk ? "symlink target differs" : "content differs"; return false; }
  return true;
}
bool sameTree(const Tree &a, const Tree &b, std::string &why, bool dirTimes)
{
  for(auto &e : a)
  {
    auto it = b.find(e.first);
    if(it == b.end()) { why = e.first + " is missing"; return false; }
    std::string x;
    if(!sameEntry(e.second, it->second, dirTimes || e.second.type != FT::Dir, x))
    {
      why = e.first + ": " + x + " (" + ents(e.second) + " | " + ents(it->second) + ")";
      return false;
    }
  }
  for(auto &e : b) if(!a.count(e.first)) { why = e.first + " is unexpected"; return false; }
  return true;
}
bool identical(const Tree &a, const Tree &b, std::string &why)
{
  for(auto &e : a)
  {
    auto it = b.find(e.first);
    if(it == b.end()) { why = e.first + " was removed"; return false; }
    const Entry &x = e.second, &y = it->second;
    if(x.type != y.type || x.mode != y.mode || x.uid != y.uid || x.gid != y.gid || x.mtime != y.mtime ||
       (x.data && y.data && x.data != y.data && *x.data != *y.data))
    {
      why = e.first + " was changed (" + ents(x) + " -> " + ents(y) + ")";
      return false;
    }
  }
  for(auto &e : b) if(!a.count(e.first)) { why = e.first + " was created"; return false; }
  return true;
}
bool sameHist(const Hist &a, const Hist &b, std::string &why)
{
  if(!a.ok) { why = a.err; return false; }
  if(!b.ok) { why = b.err; return false; }
  if(a.ids.size() != b.ids.size()) { why = "history has " + std::to_string(b.ids.size()) + " backups instead of " + std::to_string(a.ids.size()); return false; }
  for(size_t i = 0; i < a.ids.size(); i++)
    if(!sameTree(a.ids[i], b.ids[i], why)) { why = "backup " + std::to_string(i) + ": " + why; return false; }
  return true;
}
void wipeExceptRepo(World &w)
{
  std::vector<std::string> names;
  for(auto &e : w.fs.vol.get(1)->ents) if(e.first != "repo") names.push_back(e.first);
  for(auto &n : names) w.fs.removeTree(1, n, 0);
  w.fs.setAttr(1, 0755, 0, 0, 0);
}
Step runStep(const std::string &cmd, int id, const std::string &path)
{
  Step s("run");
  s.set("cmd", cmd);
  if(id >= 0) s.set("id", id);
  if(!path.empty()) s.set("path", path);
  return s;
}

static std::string pathClass(const std::string &p)
{
  if(p.compare(0, 6, "/repo/") == 0)
  {
    std::string q = p.substr(6);
    if(q == "config" || q == "metadata" || q == "lockfile" || q == "tmp-file") return q;
    int n = 0;
    for(char c : q) n += c == '/';
    return "obj" + std::to_string(n);
  }
  if(p == "/repo") return "repo";
  return p.empty() ? "" : "src";
}

bool showRuns = false;
std::string teeFile;
void setupProc(Proc &p, World &w, const Step &x)
{
  p.w = &w;
  p.env = makeEnv((uint64_t)x.num("es"));
  if(x.has("uid")) p.env.uid = (uint32_t)x.num("uid");
  if(x.has("gid")) p.env.gid = (uint32_t)x.num("gid");
  if(x.has("tty")) p.env.tty = x.num("tty") != 0;
  if(x.has("tick")) p.env.tick = x.num("tick");
  if(x.has("blk")) { p.env.blksize = (uint32_t)x.num("blk"); p.env.blkmix = 0; }
  if(x.has("iobuf")) p.env.iobuf = (uint32_t)x.num("iobuf");
  if(x.has("fill")) p.env.fill = (uint8_t)x.num("fill");
  if(x.has("pid")) p.env.pid = (uint32_t)x.num("pid");
  if(x.has("umask")) p.env.umask = (uint32_t)strtol(x.get("umask").c_str(), nullptr, 8);
  if(x.has("nofile")) p.env.nofile = (uint32_t)x.num("nofile");
  if(x.has("memmax")) p.env.memMax = (uint64_t)x.num("memmax");
  p.umask_ = p.env.umask;
  if(x.has("cwd")) p.env.cwd = x.get("cwd");
  std::string cmd = x.get("cmd", "backup");
  const char *const spelling[] = {"/repo", "/repo", "/repo", "/repo", "/repo", "/repo/", "/repo//", x.has("cwd") ? "/./repo/" : "./repo/"};
  std::string repo = x.get("repo", spelling[(uint64_t)x.num("es") / 3 % 8]);
  p.argv = {repo};
  if(cmd == "gc" || cmd == "integrity") p.argv.push_back(cmd);
  else if(cmd == "restore")
  {
    p.argv.push_back(x.get("id", "0"));
    if(x.has("path")) p.argv.push_back(x.get("path"));
  }
  if(x.has("lit")) p.argv = x.all("a"); // given literally
  p.in = x.has("ans") ? x.get("ans") : "y\n";
  for(auto &f : x.all("f"))
    p.faults.push_back(parseFault(f));
}
Out Ex::nb(World &w, const Step &x, bool trace)
{
  Proc p;
  setupProc(p, w, x);
  std::string cmd = x.get("cmd", "backup");
  Out o;
  std::vector<SysRec> tr;
  p.trace = &tr;
  p.touched = &o.touched;
  runProc(p);
  if(p.end == End::Power)
  {
    w.fs.powerLoss((int)x.num("cm"), (uint64_t)x.num("cs"));
    w.locks.clear();
  }
  w.freeBytes = -1;
  o.end = p.end; o.code = p.code; o.crash = p.crash; o.out = p.out; o.err = p.err;
  o.nsys = p.nsys; o.nmem = p.nmem; o.nrx = p.nrx; o.hash = p.hash.h;
  o.fired = p.fired;
  o.memPeak = p.memPeak; o.fdPeak = p.fdPeak;
  st.procs++;
  st.syscalls += p.nsys;
  st.simNs += (int64_t)p.nsys * p.env.tick;
  Hash th;
  for(auto &t : tr) { th.add((uint64_t)t.s); th.add(t.path); }
  st.traces.insert(th.h);
  for(auto &f : p.fired)
  {
    static const char *kn[] = {"none", "error", "short", "kill", "power", "alloc", "regex", "clockjump", "mutate", "diskfull", "stop"};
    st.faults[std::string(kn[(int)f.first]) + ":" + (f.first == FK::Mem ? "malloc" : f.first == FK::Regex ? "regexec" : sysNames[f.second])]++;
  }
  for(auto &f : p.faults)
    if(f.at && f.at <= tr.size())
    {
      Hash sh;
      sh.add(cmd); sh.add((uint64_t)f.k); sh.add((uint64_t)tr[f.at - 1].s); sh.add(pathClass(tr[f.at - 1].path)); sh.add((uint64_t)f.arg & 0xff);
      st.sites.insert(sh.h);
    }
  st.states.insert(repoHash(w) * 3 + worldHash(w));
  h.add(o.hash);
  h.add((uint64_t)o.end * 7 + (uint64_t)o.code);
  if(showRuns)
  {
    printf("---- %s -> %s (%u calls)\n", x.text().c_str(), o.brief().c_str(), o.nsys);
    if(!o.out.empty()) printf("%s\n", o.out.c_str());
    if(showRuns && getenv("NB_TRACE")) for(size_t i = 0; i < tr.size(); i++) printf("  %zu %s %s %d\n", i + 1, sysNames[tr[i].s], tr[i].path.c_str(), tr[i].err);
  }
  if(trace) o.trace = std::move(tr);
  if(o.end == End::Unsupported) throw Abort{"the code calls an unsupported library function: " + o.crash};
  return o;
}

static std::unordered_map<uint64_t, Hist> obsCache;
Hist Ex::observe(const World &w0)
{
  uint64_t key = repoHash(w0);
  auto it = obsCache.find(key);
  if(it != obsCache.end()) return it->second;
  if(obsCache.size() > 3000) obsCache.clear();
  Hist hi;
  st.observations++;
  World base = w0;
  base.locks.clear();
  base.freeBytes = -1;
  base.ro1 = false;
  base.clock = 1900000000LL * 1000000000LL;
  base.fs.syncAll();
  wipeExceptRepo(base);
  base.fs.syncAll();
  base.fs.compact();
  base.fs.track = false;
  bool ex;
  std::string meta = fileAt(base, "/repo/metadata", &ex);
  uint64_t keepH = h.h;
  if(ex)
  {
    hi.meta = true;
    FMeta fm = parseMeta(meta);
    if(!fm.ok) { hi.ok = false; hi.err = "the metadata file is malformed (" + fm.err + ")"; }
    for(size_t i = 0; hi.ok && i < fm.times.size(); i++)
    {
      World c = base;
      Step x = runStep("restore", (int)i);
      x.set("tick", "0");
      Stats keep; std::swap(keep.faults, st.faults);
      Out o = nb(c, x);
      std::swap(keep.faults, st.faults);
      if(!o.ok())
      {
        hi.ok = false;
        hi.err = "restoring backup " + std::to_string(i) + " " + o.brief();
        break;
      }
      Tree t = snap(c, "/", "/repo");
      t.erase("/");
      hi.ids.push_back(std::move(t));
    }
  }
  h.h = keepH;
  obsCache[key] = hi;
  return hi;
}
Out Ex::plain(World &w, const Step &x)
{
  Out o = nb(w, x);
  if(!o.ok()) fail("an ordinary undisturbed " + x.get("cmd") + " run " + o.brief());
  return o;
}
std::string Ex::config(const World &w) { return fileAt(w, "/repo/config"); }

Step withoutFaults(const Step &x)
{
  Step y(x.op);
  for(auto &e : x.kv) if(e.first != "f" && e.first != "cm" && e.first != "cs") y.kv.push_back(e);
  return y;
}
std::shared_ptr<const Ex::Dry> Ex::dry(const World &w, const Step &x)
{
  Step y = withoutFaults(x);
  y.op = "run";
  Hash k;
  k.add(worldHash(w)); k.add((uint64_t)w.clock); k.add(y.text()); k.add(w.hashMask); k.add(w.ro1); k.add((uint64_t)w.freeBytes);
  for(auto &e : dryCache) if(e.first == k.h) { return e.second; }
  auto d = std::make_shared<Dry>();
  d->w = w;
  uint64_t keep = h.h;
  d->o = nb(d->w, y, true);
  h.h = keep;
  if(dryCache.size() >= 8) dryCache.erase(dryCache.begin());
  dryCache.push_back({k.h, d});
  return d;
}

void Ex::exec(const Step &x)
{
  if(bad()) return;
  st.count["step:" + x.op]++;
  if(x.op == "world")
  {
    s = St();
    World &w = s.w;
    w.ordered = x.num("ord") != 0;
    w.hashMask = (uint32_t)x.num("hm");
    s.m.hashMask = w.hashMask;
    w.clock = x.num("clock", 1600000000) * 1000000000LL + 5000;
    uint32_t u = (uint32_t)x.num("uid"), g = (uint32_t)x.num("gid");
    Ino rp = w.fs.create(1, "repo", FT::Dir, 0755, u, g, w.clock);
    w.fs.track = !x.has("big"); // many thousand files, no power cuts: nothing pending to remember
    if(x.num("rdev")) { w.fs.vol.w(rp).dev = 1; w.fs.dur.w(rp).dev = 1; }
    w.fs.syncAll();
    return;
  }
  if(x.op == "cfg")
  {
    Step m("mk");
    std::string t;
    for(auto &l : x.all("l")) t += l + "\n";
    if(x.has("raw")) t = x.get("raw");
    m.set("p", "/repo/config"); m.set("raw", t); m.set("m", "644");
    const Inode *rp = s.w.fs.vol.get(s.w.fs.lookup("/repo", false));
    m.set("u", (int64_t)rp->uid); m.set("g", (int64_t)rp->gid);
    // The edited configuration itself is durable, other pending changes of the repository are not.
    for(auto &w : s.alt) { int64_t keep = w.clock; w.clock = s.w.clock; worldOp(w, m); w.fs.syncAll(); w.clock = keep; }
    worldOp(s.w, m);
    Ino rp2 = s.w.fs.lookup("/repo", false);
    s.w.fs.syncData(s.w.fs.lookup("/repo/config", false), false);
    s.w.fs.syncEntry(rp2, "config");
    s.w.fs.compact();
    return;
  }
  if(x.op == "ro") { s.w.ro1 = x.num("v") != 0; return; }
  if(x.op == "var") { s.vars[x.get("k")] = x.get("v"); return; }
  if(x.op == "keep") { s.vars[x.get("k")] = fileAt(s.w, x.get("p")); return; }
  if(x.op == "put") // the file as it was kept
  {
    auto it = s.vars.find(x.get("k"));
    if(it == s.vars.end()) return;
    Step m("mk");
    m.set("p", x.get("p")).set("raw", it->second).set("x", 1);
    worldOp(s.w, m);
    return;
  }
  if(x.op == "run") { prop->run(*this, s, x); return; }
  if(x.op == "check") { if(prop->finish) prop->finish(*this, s); return; }
  if(x.op == "v")
  {
    St c = s;
    Step y = x; y.op = "run";
    prop->run(*this, c, y);
    return;
  }
  std::string p = x.get("p");
  bool repoOp = p.compare(0, 6, "/repo/") == 0;
  for(auto &w : s.alt) // the same edit, at the same moment
  {
    int64_t keep = w.clock;
    w.clock = s.w.clock;
    worldOp(w, x);
    if(!repoOp) { w.fs.syncOutside(w.fs.lookup("/repo", false)); w.fs.compact(); }
    w.clock = keep + (x.op == "clk" ? x.num("d") : 0);
  }
  if(worldOp(s.w, x))
  {
    // The user's own files are always durable unless the plan says otherwise.
    if(!repoOp) { s.w.fs.syncOutside(s.w.fs.lookup("/repo", false)); s.w.fs.compact(); }
    return;
  }
  throw Abort{"unknown step: " + x.op};
}
bool Ex::step(const Step &x)
{
  if(bad()) return false;
  plan.steps.push_back(x);
  if(!teeFile.empty())
  {
    FILE *f = fopen(teeFile.c_str(), "wb");
    std::string t = plan.text();
    if(f) { fwrite(t.data(), 1, t.size(), f); fclose(f); }
  }
  exec(x);
  return !bad();
}
void Ex::end()
{
  if(!bad() && prop->finish) prop->finish(*this, s);
  h.add(worldHash(s.w));
  st.runs++;
}
const Prop *findProp(const std::string &id)
{
  for(auto p : allProps) if(id == p->id) return p;
  return nullptr;
}
