// Command lines (C25).
#include "exec.h"
#include "props.h"

// The meaning of a command line as documented: the same request in its plainest form.
enum Meaning { M_error, M_plain, M_odd, M_other };
static std::string joined(const std::string &cwd, const std::string &p)
{
  if(!p.empty() && p[0] == '/') return p;
  return (cwd == "/" ? "" : cwd) + "/" + p;
}
static Meaning meaning(const World &w, const Step &x, Step &plain, std::string &why)
{
  std::vector<std::string> a = x.all("a");
  std::string cwd = x.get("cwd", "/");
  plain = Step("run");
  if(x.has("tick")) plain.set("tick", x.get("tick")); // different paths take different numbers of calls
  if(x.has("es")) plain.set("es", x.get("es"));
  if(x.has("ans")) plain.set("ans", x.get("ans"));
  auto err = [&](const char *t) { why = t; return M_error; };
  if(a.empty()) return err("no repository");
  if(a[0].empty()) return err("empty repository path");
  Ino i = w.fs.lookup(joined(cwd, a[0]), true);
  if(!i) return err("no such repository");
  if(w.fs.vol.get(i)->type != FT::Dir) return err("repository is no directory");
  bool slashes = a[0].find_last_not_of('/') == std::string::npos; // the root directory
  if(i != w.fs.lookup("/repo", false))
  {
    auto &e = w.fs.vol.get(i)->ents;
    if(e.count("config") || e.count("metadata") || slashes) return M_other;
    return err("not a repository");
  }
  if(a.size() == 1) { plain.set("cmd", "backup"); return M_plain; }
  if(a[1] == "gc" || a[1] == "integrity")
  {
    if(a.size() > 2) return err("too many arguments");
    plain.set("cmd", a[1]);
    return M_plain;
  }
  if(a[1].empty() || a[1].find_first_not_of("0123456789") != std::string::npos) return err("unknown command");
  if(a.size() > 3) return err("too many paths");
  std::string id = a[1].substr(std::min(a[1].find_first_not_of('0'), a[1].size() - 1));
  if(id.size() > 19 || (id.size() == 19 && id > "9223372036854775807")) return err("number too large");
  plain.set("cmd", "restore").set("id", id);
  if(a.size() < 3) return M_plain;
  std::string p = joined(cwd, a[2]), n;
  bool odd = false;
  while(p.size() > 1 && p.back() == '/') p.pop_back();
  std::vector<std::string> parts;
  for(size_t k = 1; k <= p.size() && p.size() > 1;)
  {
    size_t e = p.find('/', k);
    if(e == std::string::npos) e = p.size();
    std::string c = p.substr(k, e - k);
    if(c.empty() || c == ".") odd = true;
    else if(c == "..") { odd = true; if(!parts.empty()) parts.pop_back(); }
    else parts.push_back(c);
    k = e + 1;
  }
  for(auto &c : parts) n += "/" + c;
  if(!n.empty()) plain.set("path", n);
  return odd ? M_odd : M_plain;
}
static void run25(Ex &ex, St &s, const Step &x)
{
  std::string why, diff;
  if(!x.has("lit")) // an ordinary run in between
  {
    if(x.get("cmd") == "backup") { Ran r; modelBackup(ex, s, x, r, false); }
    else otherRun(ex, s, x);
    return;
  }
  Step plain;
  Meaning k = meaning(s.w, x, plain, why);
  if(k == M_other) return;
  World start = s.w, twin = s.w;
  Out o = ex.nb(s.w, x);
  std::string line = "nb";
  for(auto &a : x.all("a")) line += " \"" + a + "\"";
  line += " in " + x.get("cwd", "/") + " ";
  auto same = [&](const World &a, const World &b) {
    Tree p = snap(a, "/"), q = snap(b, "/");
    for(auto *t : {&p, &q}) { t->erase("/repo/lockfile"); if(t->count("/repo")) (*t)["/repo"].mtime = 0; }
    return identical(p, q, diff);
  };
  auto refused = [&](std::string &w) {
    if(!o.failed() || o.err.compare(0, 4, "nb: ") != 0) { w = line + "(" + why + ") " + o.brief(); return false; }
    if(!o.out.empty()) { w = line + "(" + why + ") prints \"" + o.out.substr(0, 200) + "\""; return false; }
    if(!same(start, s.w)) { w = line + "(" + why + ") changed something: " + diff; return false; }
    return true;
  };
  std::string w1;
  if(k == M_error) { ex.st.count["refused: " + why]++; if(!refused(w1)) ex.fail(w1); return; }
  Out p = ex.nb(twin, plain);
  if(k == M_odd && (why = "unusual path", refused(w1))) { ex.st.count["refused: unusual path"]++; return; }
  ex.st.count[k == M_odd ? "unusual path followed" : "understood " + plain.get("cmd")]++;
  std::string ref = "nb with the arguments of " + plain.get("cmd") + " " + plain.get("id") + " " + plain.get("path") + " ";
  if(o.end != p.end || o.code != p.code) return ex.fail(line + o.brief() + ", but " + ref + p.brief());
  if(o.out != p.out || (o.ok() && o.err != p.err)) return ex.fail(line + "prints something else than " + ref + "does: \"" + o.out.substr(0, 300) + "\" \"" + p.out.substr(0, 300) + "\"");
  if(!same(s.w, twin)) return ex.fail(line + "has another effect than " + ref + "has: " + diff);
}
static void gen25(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = 8;
  o.hardlinks = false;
  o.symlinkDirs = false;
  Gen g(ex, r, o);
  g.initWorld("ord=1");
  g.tree();
  g.config();
  bool longer = r.chance(0.05); // so that numbers have two digits
  g.history(longer ? 9 + (int)r.below(5) : 1 + (int)r.below(4), 3, false);
  if(r.chance(0.1)) ex.step(Step("rm").set("p", "/repo/metadata"));
  ex.step(Step("mk").set("t", "l").set("p", "/alias").set("to", r.pick<std::string>({"/repo", "repo", "./repo/", "../repo"})));
  ex.step(Step("mk").set("t", "l").set("p", "/nowhere").set("to", "/missing"));
  ex.step(Step("mk").set("t", "d").set("p", "/empty dir"));
  int n = ex.thorough ? 25 : 12;
  for(int i = 0; i < n && !ex.bad(); i++)
  {
    if(r.chance(0.5)) g.edit(1 + (int)r.below(3));
    g.fixConfig();
    std::vector<std::string> dirs = {"/", "/", "/repo", "/empty dir"};
    for(auto &d : g.roots) { Ino di = ex.s.w.fs.lookup(d, false); if(di && ex.s.w.fs.vol.get(di)->type == FT::Dir) { dirs.push_back(d); dirs.push_back(d); } }
    std::string cwd = r.pick(dirs);
    std::string up;
    for(char c : cwd) if(c == '/' && cwd != "/") up += "../";
    std::vector<std::string> a;
    if(!r.chance(0.03))
    {
      if(r.chance(0.2)) a.push_back(r.pick<std::string>({"", "/nope", "/repo/config", "/repo/metadata", "/repo/config/", "/repo/none/..", " /repo", "/repo ", "repo\n", "/empty dir", "/nowhere", "/nowhere/", "gc", "0", "integrity", "-", "--help", "~/repo", "/REPO", "/repo/repo"}));
      else if(r.chance(0.3)) a.push_back("/repo" + std::string(r.below(3), '/'));
      else if(r.chance(0.3)) a.push_back(r.pick<std::string>({"/./repo", "//repo", "/repo/.", "/repo/./", "/../repo", "/empty dir/../repo", "/alias", "/alias/", "/alias/.", "/empty dir/../alias//"}));
      else a.push_back(r.pick<std::string>({"", "./", ".//"}) + up + r.pick<std::string>({"repo", "repo/", "./repo//", "alias", "repo/../repo"}));
      int id = 0;
      std::string p = g.anyRepoPath(id);
      if(!r.chance(0.2))
      {
        if(r.chance(0.15)) a.push_back(r.pick<std::string>({"gc", "integrity"}));
        else if(r.chance(0.2)) a.push_back(r.pick<std::string>({"", "GC", "gc ", " gc", "gcc", "g", "-h", "--help", "-1", "+1", "-0", "0x1", "0x0", " 0", "0 ", "0.", "0.0", "1e0", "0\n", "\n0", "0\n0", "zero", "0,1", "0-1", "restore", "backup", "Integrity", "integrity\n", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "4294967296", "99999999999999999999999999", "0000000000000000000000000000", "\xd9\xa0", "0a", "a0", "/", "^[0-9]+$", "[0-9]"}));
        else a.push_back(std::string(r.chance(longer ? 0.5 : 0.1) ? r.below(4) : 0, '0') + std::to_string(r.chance(0.8) ? id : (int)r.below((uint64_t)g.ids() + 2)));
        if(r.chance(a.back() == "gc" || a.back() == "integrity" ? 0.2 : 0.75))
        {
          std::string q = p.empty() ? "/" : p;
          if(r.chance(0.2)) q = r.pick<std::string>({"", ".", "..", "/", "//", "/..", "./", "0", "repo", "/repo/config", "*", q + "x", q + "/x", q.substr(0, q.size() - 1), q + "/.", q + "/..", "/." + q, "/" + q, q + " ", q + "\n", cwd == "/" ? "/" : cwd});
          else if(cwd != "/" && q.compare(0, cwd.size() + 1, cwd + "/") == 0 && r.chance(0.7)) q = std::string(r.chance(0.1) ? "./" : "") + q.substr(cwd.size() + 1);
          else if(r.chance(0.3)) q = r.chance(0.6) ? q.substr(1) : up + q.substr(1);
          if(r.chance(0.2)) q += std::string(1 + r.below(3), '/');
          a.push_back(q);
          if(r.chance(0.1)) a.push_back(r.pick<std::string>({"", "0", "/", "gc", q}));
        }
      }
    }
    Step v("v");
    v.set("lit", 1).set("cwd", cwd).set("tick", 0);
    if(r.chance(0.3)) v.set("es", (int64_t)(1 + r.below(1000)));
    if(r.chance(0.15)) v.set("ans", r.pick<std::string>({"n\n", "", "yes\n", "maybe\n", "y\r\n", "no\r\n"}));
    for(auto &t : a) v.add("a", t);
    ex.step(v);
  }
}
extern const Prop propC25 = {"C25", gen25, run25, nullptr};
