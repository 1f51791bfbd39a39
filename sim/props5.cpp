// Damaged repositories: the integrity check (C09) and unreadable metadata (C10).
#include "exec.h"
#include "props.h"
#include <algorithm>
#include <cerrno>

static std::string quiet(const std::string &s) { return s.substr(0, 240); }
extern "C" uint64_t maskedHash(const void *p, size_t n, uint32_t mask); // libc.cpp
std::string plainText(const std::string &s) // without colors
{
  std::string r;
  for(size_t i = 0; i < s.size(); i++)
  {
    if(s[i] == 27 && i + 1 < s.size() && s[i + 1] == '[') { while(i < s.size() && !isalpha((unsigned char)s[i])) i++; continue; }
    r += s[i];
  }
  return r;
}

// ---- C09 -----------------------------------------------------------------
static void run09(Ex &ex, St &s, const Step &x)
{
  std::string cmd = x.get("cmd"), why;
  if(cmd != "integrity")
  {
    ex.nb(s.w, x);
    Needed n;
    if(!needed(s.w, n, why)) throw Abort{why};
    for(auto &o : n.objs) s.vars["object " + o.first] = o.second;
    return;
  }
  if(!hasMeta(s.w)) return;
  FMeta m = parseMeta(fileAt(s.w, "/repo/metadata"));
  if(!m.ok) throw Abort{"metadata"};
  std::map<std::string, int> good; // 1: as stored, 0: damaged
  std::set<std::string> bad;
  for(auto &n : m.nodes)
    for(auto &p : n.hist)
    {
      std::string o = objName(p);
      if(o.empty()) continue;
      o = "/repo/" + o;
      if(!good.count(o))
      {
        // a file in place of one of the directories is reported as an error instead
        for(std::string d = o.substr(0, o.rfind('/')); d.size() > 5; d = d.substr(0, d.rfind('/')))
        {
          Ino i = s.w.fs.lookup(d, true);
          if(i && s.w.fs.vol.get(i)->type != FT::Dir) return;
          if(!i && s.w.fs.lookup(d, false)) return; // a symlink leading nowhere, or in circles
        }
        auto it = s.vars.find("object " + o);
        if(it == s.vars.end()) throw Abort{"unknown object"};
        Ino i = s.w.fs.lookup(o, false);
        bool ok = i && s.w.fs.vol.get(i)->type == FT::Reg;
        if(ok)
        {
          const std::string &d = *s.w.fs.vol.get(i)->data;
          ok = d == it->second;
          if(!ok && s.w.hashMask && d.size() == it->second.size()) ok = maskedHash(d.data(), d.size(), s.w.hashMask) == maskedHash(it->second.data(), d.size(), s.w.hashMask);
        }
        good[o] = ok;
      }
      if(!good[o]) bad.insert(n.path);
    }
  Tree before = snap(s.w, "/");
  Out o = ex.nb(s.w, x);
  std::string out = plainText(o.out);
  ex.st.modelChecks++;
  if(o.end != End::Exited) return ex.fail("integrity " + o.brief());
  Tree after = snap(s.w, "/");
  before.erase("/repo/lockfile"); after.erase("/repo/lockfile");
  if(before.count("/repo") && after.count("/repo")) after["/repo"].mtime = before["/repo"].mtime;
  if(!identical(before, after, why)) return ex.fail("integrity changed something: " + why);
  size_t at = out.find("Status of repository: ");
  if(at == std::string::npos) return ex.fail("integrity printed no verdict: " + quiet(out) + " / " + quiet(o.err));
  std::string rest = out.substr(at + 22);
  if(bad.empty())
  {
    ex.st.count["healthy"]++;
    if(!o.ok() || rest != "Healthy\n") return ex.fail("the repository is intact, but integrity " + o.brief() + ": " + quiet(rest));
    return;
  }
  ex.st.count["damaged"]++;
  ex.st.count["damaged paths"] += bad.size();
  if(o.ok()) return ex.fail("integrity succeeded although " + *bad.begin() + " is damaged");
  if(rest.substr(0, 12) != "Incomplete\n\n") return ex.fail("integrity reported " + quiet(rest) + " although " + *bad.begin() + " is damaged");
  rest = rest.substr(12);
  // longest first: a name can contain what looks like another line
  std::vector<std::string> want;
  for(auto &p : bad) want.push_back("?? " + p + " (corrupted)\n");
  std::sort(want.begin(), want.end(), [](const std::string &a, const std::string &b) { return a.size() > b.size(); });
  for(auto &l : want)
  {
    size_t i = rest.find(l);
    if(i == std::string::npos) return ex.fail("integrity does not list a damaged path: " + l.substr(0, l.size() - 1));
    rest.erase(i, l.size());
  }
  if(rest != "\n") return ex.fail("integrity lists paths that are not damaged: " + quiet(rest));
  if(o.err.find("found " + std::to_string(bad.size()) + (bad.size() == 1 ? " item " : " items ")) == std::string::npos) return ex.fail("integrity found " + std::to_string(bad.size()) + " damaged paths, but says: " + quiet(o.err));
}
static std::vector<std::string> objects(const World &w)
{
  std::vector<std::string> r;
  for(auto &e : snap(w, "/repo")) if(e.second.type == FT::Reg && e.first.size() > 7 && e.first.find('/', 6) != std::string::npos) r.push_back(e.first);
  return r;
}
static void gen09(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = 14;
  o.special = false;
  Gen g(ex, r, o);
  g.initWorld(r.chance(0.15) ? "hm=" + std::to_string(2 + r.below(9)) : "");
  g.history(1 + (int)r.below(5), 5, true);
  if(ex.bad() || !hasMeta(ex.s.w)) return;
  // enough that is stored outside the metadata, some of it several times
  for(int i = 0; i < 3 && objects(ex.s.w).size() < 4; i++)
  {
    for(int j = 0; j < 3; j++) { Step f = g.mkFile(g.newPath()); f.set("n", (int64_t)r.pick({21, 22, 100, 4096, 4097, 20000, 70000})); ex.step(f); }
    g.fixConfig();
    tick(ex, r);
    ex.step(envStep(r, runStep("backup")));
    if(ex.bad()) return;
  }
  if(r.chance(0.3)) litter(ex, r);
  auto check = [&](const char *op) {
    Step v = envStep(r, runStep("integrity"), 0.7);
    if(r.chance(0.3)) v.set("tty", 1);
    v.op = op;
    ex.step(v);
  };
  check("v");
  int rounds = 2 + (int)r.below(ex.thorough ? 8 : 5);
  for(int k = 0; k < rounds && !ex.bad(); k++)
  {
    auto l = objects(ex.s.w);
    if(l.empty()) return;
    int n = r.chance(0.7) ? 1 : 1 + (int)r.below(4);
    for(int i = 0; i < n; i++)
    {
      std::string p = l[r.below(l.size())], q = l[r.below(l.size())];
      uint64_t len = fileAt(ex.s.w, p).size();
      std::string d1 = p.substr(0, p.rfind('/')), d2 = d1.substr(0, d1.rfind('/'));
      switch(r.below(18))
      {
        case 0: ex.step(Step("rm").set("p", p)); break;
        case 1: case 2: case 3: case 4: ex.step(Step("flip").set("p", p).set("o", (int64_t)(r.chance(0.3) ? (r.chance(0.5) ? 0 : len - 1) : r.below(len))).set("x", (int64_t)(1u << r.below(8)))); break;
        case 5: ex.step(Step("flip").set("p", p).set("o", (int64_t)r.below(len)).set("x", (int64_t)(1 + r.below(255)))); break;
        case 6: ex.step(Step("cut").set("p", p).set("n", (int64_t)(r.chance(0.5) ? len - 1 : r.below(len)))); break;
        case 7: ex.step(Step("cut").set("p", p).set("n", 0)); break;
        case 8: ex.step(Step("app").set("p", p).set("n", (int64_t)(r.chance(0.5) ? 1 : 1 + r.below(5000))).set("c", (int64_t)r.below(9))); break;
        case 9: ex.step(Step("mk").set("t", r.pick({"d", "p"})).set("p", p).set("x", 1)); break;
        case 10: ex.step(Step("mk").set("t", "l").set("p", p).set("to", r.chance(0.5) ? q : "nowhere").set("x", 1)); break;
        case 11: ex.step(Step("mv").set("p", p).set("q", q)); break;
        case 12: ex.step(Step("rm").set("p", r.chance(0.5) ? d1 : d2)); break;
        case 13: ex.step(Step("wr").set("p", p).set("n", (int64_t)len).set("c", (int64_t)r.below(9))); break;
        case 14: // two exchanged
          ex.step(Step("mv").set("p", p).set("q", "/repo/swap")); ex.step(Step("mv").set("p", q).set("q", p)); ex.step(Step("mv").set("p", "/repo/swap").set("q", q)); break;
        case 15: ex.step(Step("set").set("p", p).set("m", r.pick({"0", "777"})).set("u", 5).set("ts", 3)); break; // attributes don't matter
        case 16: // cut and refilled: zeroes in place of the end
          { uint64_t c = r.below(len); ex.step(Step("spl").set("p", p).set("o", (int64_t)c).set("d", (int64_t)len).set("h", std::string(2 * std::min<uint64_t>(len - c, 6000), '0'))); break; }
        default: // a directory moved
          { Ino di = ex.s.w.fs.lookup(d1, false); if(!di || ex.s.w.fs.vol.get(di)->type != FT::Dir) break; }
          // away and replaced by a symlink to it
          ex.step(Step("mv").set("p", d1).set("q", "/other/moved" + std::to_string(k))); ex.step(Step("mk").set("t", "l").set("p", d1).set("to", "/other/moved" + std::to_string(k))); break;
      }
    }
    check(r.chance(0.5) ? "run" : "v");
  }
}

// ---- C10 -----------------------------------------------------------------
// The fields of a metadata file.
struct Field { size_t off, len; char kind; }; // kind: c count, h history length, i id, t type, u owner, m mode, s mtime, z size, # hash, S slot, l length, n name, o policy, g target, T time
struct NodeAt { size_t countOff, off, end; };
struct Fields { std::vector<Field> f; std::vector<NodeAt> nodes; };
static Fields metaFields(const std::string &b)
{
  Fields r;
  size_t p = 0;
  bool bad = false;
  auto num = [&](size_t n, char k) {
    if(n > b.size() - p) { bad = true; return (uint64_t)0; }
    uint64_t v = 0;
    for(size_t i = n; i-- > 0;) v = v << 8 | (unsigned char)b[p + i];
    r.f.push_back({p, n, k});
    p += n;
    return v;
  };
  auto skip = [&](uint64_t n, char k) { if(n > b.size() - p) bad = true; else { r.f.push_back({p, (size_t)n, k}); p += n; } };
  std::function<void()> hist = [&]() {
    uint64_t n = num(8, 'h');
    for(uint64_t i = 0; i < n && !bad; i++)
    {
      num(8, 'i');
      uint64_t t = num(1, 't');
      if(t) { num(4, 'u'); num(4, 'u'); }
      if(t == ST_reg) { num(4, 'm'); num(8, 's'); uint64_t z = num(8, 'z'); if(z > 20) { skip(20, '#'); num(1, 'S'); } else skip(z, '#'); }
      else if(t == ST_lnk) { uint64_t z = num(8, 'l'); skip(z, 'g'); }
      else if(t == ST_dir) { num(4, 'm'); num(8, 's'); }
    }
  };
  std::function<void()> list = [&]() {
    size_t at = p;
    uint64_t n = num(8, 'c');
    for(uint64_t i = 0; i < n && !bad; i++)
    {
      size_t start = p;
      uint64_t l = num(8, 'l');
      skip(l, 'n');
      num(1, 'o');
      hist();
      list();
      r.nodes.push_back({at, start, p});
    }
  };
  uint64_t n = num(8, 'c');
  for(uint64_t i = 0; i < n && !bad; i++) num(8, 'T');
  hist();
  num(8, 'c');
  list();
  return r;
}
static void run10(Ex &ex, St &s, const Step &x)
{
  std::string cmd = x.get("cmd"), why;
  if(!s.vars.count("good")) // the undamaged history
  {
    ex.nb(s.w, x);
    return;
  }
  if(!hasMeta(s.w)) return;
  std::string bytes = fileAt(s.w, "/repo/metadata"), good = s.vars["good"];
  FMeta m = parseMeta(bytes);
  // gc reads the metadata and does nothing else that could fail
  World g = s.w;
  Out go = ex.nb(g, runStep("gc"));
  if(go.end != End::Exited) return ex.fail("gc with damaged metadata " + go.brief());
  bool rejected = !go.ok();
  if(!rejected && m.err == "truncated") return ex.fail("metadata that ends too early was accepted");
  if(!rejected && m.err == "trailing") return ex.fail("metadata with trailing bytes was accepted");
  if(!rejected && !m.ok) return ex.fail("malformed metadata (" + m.err + ") was accepted");
  if(!rejected)
    for(auto &n : m.nodes)
      if(n.pol > P_track || n.hist.empty()) return ex.fail("malformed metadata (" + n.path + ": " + (n.hist.empty() ? "no history" : "policy " + std::to_string(n.pol)) + ") was accepted");
  if(rejected && bytes == good) return ex.fail("intact metadata was rejected: " + quiet(go.err));
  // truncated and extended files are not metadata
  bool prefix = bytes.size() < good.size() && good.compare(0, bytes.size(), bytes) == 0;
  bool longer = bytes.size() > good.size() && bytes.compare(0, good.size(), good) == 0;
  if((prefix || longer) && !rejected) return ex.fail(std::string("metadata ") + (prefix ? "cut off" : "with trailing bytes") + " was accepted");
  Tree before = snap(s.w, "/");
  World twin = s.w;
  Out o = ex.nb(s.w, x);
  std::string what = cmd + " with damaged metadata ";
  if(o.end != End::Exited) return ex.fail(what + o.brief());
  if(o.code && o.err.empty() && !(o.asked() && !saysYes(x))) return ex.fail(what + o.brief() + " without an error message");
  ex.st.count[rejected ? "rejected" : "accepted"]++;
  if(rejected)
  {
    if(!o.failed()) return ex.fail(what + o.brief() + ", but gc rejects it");
    if(o.asked()) return ex.fail(what + "asked before it was rejected");
    Tree after = snap(s.w, "/");
    before.erase("/repo/lockfile"); after.erase("/repo/lockfile");
    if(before.count("/repo") && after.count("/repo")) after["/repo"].mtime = before["/repo"].mtime;
    if(!identical(before, after, why)) return ex.fail(what + "failed, but changed something: " + why);
  }
  else
  {
    // the same in another environment: nothing uninitialised takes part
    Step y = x;
    y.set("es", x.num("es") + 17);
    Out p = ex.nb(twin, y);
    // the path counter is not checked against the paths; close to its limits it overflows or not, depending on the order of changes
    bool nearLimit = m.total + 100000 < 200000;
    auto counter = [&](const Out &q) { return nearLimit && q.err.find("overflow calculating object size") != std::string::npos; };
    if((p.end != o.end || p.code != o.code) && (counter(p) || counter(o))) { ex.st.count["path counter overflow"]++; return; }
    if(p.end != o.end || p.code != o.code) return ex.fail(what + o.brief() + ", but elsewhere " + p.brief());
    if(o.ok() && cmd == "backup")
    {
      FMeta n = parseMeta(fileAt(s.w, "/repo/metadata"));
      if(!n.ok) return ex.fail(what + "wrote malformed metadata (" + n.err + ")");
      World c = s.w;
      Out q = ex.nb(c, runStep("gc"));
      if(!q.ok()) return ex.fail("after a backup with damaged metadata, gc " + q.brief() + ": " + quiet(q.err));
      if(fileAt(s.w, "/repo/metadata") != fileAt(twin, "/repo/metadata") && parseMeta(fileAt(twin, "/repo/metadata")).nodes.size() != n.nodes.size()) return ex.fail(what + "recorded different things in different environments");
    }
  }
}
static std::string hexOf(const std::string &s) { static const char *d = "0123456789abcdef"; std::string r; for(unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
static std::string le(uint64_t v, size_t n) { std::string r; for(size_t i = 0; i < n; i++) r += (char)(v >> (8 * i)); return r; }
static void gen10(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = r.chance(0.5) ? 4 : 10;
  o.special = false;
  o.big = false;
  o.collide = 0.1;
  Gen g(ex, r, o);
  g.initWorld();
  g.history(1 + (int)r.below(4), 4, true);
  if(ex.bad() || !hasMeta(ex.s.w)) return;
  if(r.chance(0.5)) g.edit(2);
  if(r.chance(0.3)) { g.config(); g.fixConfig(); }
  g.dropDirLinks();
  const std::string M = "/repo/metadata";
  std::string good = fileAt(ex.s.w, M);
  Fields f = metaFields(good);
  ex.step(Step("keep").set("k", "good").set("p", M));
  int rounds = 6 + (int)r.below(ex.thorough ? 20 : 8);
  for(int k = 0; k < rounds && !ex.bad(); k++)
  {
    ex.step(Step("put").set("k", "good").set("p", M));
    auto splice = [&](size_t off, size_t del, const std::string &ins) { ex.step(Step("spl").set("p", M).set("o", (int64_t)off).set("d", (int64_t)del).set("h", hexOf(ins))); };
    int n = r.chance(0.75) ? 1 : 2 + (int)r.below(2);
    for(int i = 0; i < n; i++)
    {
      std::string cur = fileAt(ex.s.w, M);
      size_t len = cur.size() ? cur.size() : 1;
      const Field &fd = f.f[r.below(f.f.size())];
      switch(r.below(20))
      {
        case 0: ex.step(Step("cut").set("p", M).set("n", (int64_t)r.below(len))); break;
        case 1: ex.step(Step("cut").set("p", M).set("n", (int64_t)(fd.off + (r.chance(0.5) ? 0 : fd.len)))); break;
        case 2: ex.step(Step("app").set("p", M).set("n", (int64_t)(1 + r.below(r.chance(0.5) ? 1 : 60))).set("c", (int64_t)r.below(9))); break;
        case 3: splice(len, 0, std::string(1 + r.below(16), '\0')); break;
        case 4: case 5: splice(r.below(len), 1, std::string(1, (char)r.below(256))); break;
        case 6: case 7: ex.step(Step("flip").set("p", M).set("o", (int64_t)r.below(len)).set("x", (int64_t)(1u << r.below(8)))); break;
        case 8: { size_t a = r.below(len); splice(a, 1 + r.below(12), ""); break; }
        case 9: { size_t a = r.below(len); splice(a, 0, cur.substr(a, 1 + r.below(12))); break; }
        case 10: // a node twice, or gone, with and without the count
        {
          if(f.nodes.empty() || cur.size() != good.size()) break;
          const NodeAt &nd = f.nodes[r.below(f.nodes.size())];
          uint64_t c = 0;
          for(size_t j = 8; j-- > 0;) c = c << 8 | (unsigned char)cur[nd.countOff + j];
          bool dup = r.chance(0.6), count = r.chance(0.8);
          if(dup) splice(nd.end, 0, cur.substr(nd.off, nd.end - nd.off)); else splice(nd.off, nd.end - nd.off, "");
          if(count) splice(nd.countOff, 8, le(c + (dup ? 1 : (uint64_t)-1), 8));
          break;
        }
        case 11: // directories within directories
        {
          if(r.chance(0.7) || cur.size() != good.size() || f.nodes.empty()) break;
          size_t depth = r.pick({100, 2000, 2040, 6000});
          std::string s;
          for(size_t j = 0; j < depth; j++) s += le(1, 8) + le(1, 8) + "a" + le(P_track, 1) + le(1, 8) + le(0, 8) + le(ST_dir, 1) + le(0, 8) + le(0755, 4) + le(1500000000, 8);
          s += le(0, 8);
          size_t root = 0; // the list of top-level nodes
          for(auto &nd : f.nodes) if(!root || nd.countOff < root) root = nd.countOff;
          splice(root, good.size(), s);
          break;
        }
        default:
        {
          // a single field with a nasty value
          if(fd.off + fd.len > cur.size()) break;
          static const std::vector<uint64_t> nasty = {0, 1, 2, 3, 4, 5, 7, 19, 20, 21, 255, 256, 1000000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0xfffffffffffffff0ull, 0x1000000000000000ull};
          uint64_t v = 0;
          for(size_t j = std::min<size_t>(fd.len, 8); j-- > 0;) v = v << 8 | (unsigned char)cur[fd.off + j];
          uint64_t w = r.chance(0.3) ? v + 1 : r.chance(0.3) ? v - 1 : nasty[r.below(nasty.size())];
          // a count or length whose multiple overflows to something small
          if(fd.kind != 'n' && fd.kind != 'g' && fd.len == 8 && r.chance(0.15)) w = 0xffffffffffffffffull / (2 + r.below(63)) + 1 + r.below(2);
          if(fd.kind == 'n') splice(fd.off, fd.len, r.chance(0.5) ? std::string(r.pick({"..", ".", "/", "a/b", "../../x", "", "metadata", "repo"})) : cur.substr(fd.off, fd.len).replace(r.below(fd.len), 1, 1, (char)(r.chance(0.5) ? 0 : '/')));
          else if(fd.kind == 'g' || fd.kind == '#') { if(fd.len) splice(fd.off + r.below(fd.len), 1, std::string(1, (char)(r.chance(0.5) ? 0 : r.below(256)))); }
          else splice(fd.off, fd.len, le(w, fd.len));
          // names keep their length field in step half of the time
          if(fd.kind == 'n' && r.chance(0.5))
          {
            std::string now = fileAt(ex.s.w, M);
            if(fd.off >= 8) splice(fd.off - 8, 8, le(fd.len + now.size() - cur.size(), 8));
          }
        }
      }
    }
    if(ex.bad()) return;
    for(const char *c : {"backup", "gc", "integrity", "restore"})
    {
      if(r.chance(0.4)) continue;
      Step v = runStep(c);
      if(!strcmp(c, "restore"))
      {
        int id = 0;
        std::string p;
        v = runStep("restore", (int)r.below(4));
        if(r.chance(0.3) && !f.nodes.empty()) { FMeta m = parseMeta(good); if(!m.nodes.empty()) v = runStep("restore", (int)r.below(3), m.nodes[r.below(m.nodes.size())].path); }
      }
      v = envStep(r, v);
      v.op = "v";
      ex.step(v);
      if(ex.bad()) return;
    }
  }
}
extern const Prop propC09 = {"C09", gen09, run09, nullptr};
extern const Prop propC10 = {"C10", gen10, run10, nullptr};
