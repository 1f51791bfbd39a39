// Invalid configurations (C22), warnings about rules (C23) and bounded resources (C24).
#include "exec.h"
#include "props.h"
#include <algorithm>
#include <cerrno>

std::string plainText(const std::string &s); // props5.cpp
static std::string quiet(const std::string &s) { return s.substr(0, 300); }
static std::vector<std::string> linesOf(const std::string &t)
{
  std::vector<std::string> v;
  for(size_t i = 0; i < t.size();)
  {
    size_t e = t.find('\n', i);
    if(e == std::string::npos) e = t.size();
    v.push_back(t.substr(i, e - i));
    i = e + 1;
  }
  return v;
}
// Everything besides the lock file, which every run may create.
static Tree withoutLock(const World &w) { Tree t = snap(w, "/"); t.erase("/repo/lockfile"); if(t.count("/repo")) t["/repo"].mtime = 0; return t; }

// ---- C22 -----------------------------------------------------------------
// The error a configuration has to cause: its text starts with this.
static std::string wantedError(const Conf &c)
{
  if(c.err == "null") return "nb: error: config: ";
  return "nb: error: config: line " + std::to_string(c.line) + ": ";
}
static bool rejects(const Out &o, const Conf &c, std::string &why)
{
  std::string e = plainText(o.err), want = wantedError(c);
  if(!o.failed()) { why = "a backup with an invalid configuration (" + c.err + " in line " + std::to_string(c.line) + ") " + o.brief(); return false; }
  if(e.compare(0, want.size(), want) != 0) { why = "a backup with an invalid configuration (" + c.err + ") reports \"" + quiet(e) + "\" instead of \"" + want + "...\""; return false; }
  if(c.otherLine && e.find("line " + std::to_string(c.otherLine), want.size()) == std::string::npos) { why = "the error about a redefinition does not name line " + std::to_string(c.otherLine) + ": " + quiet(e); return false; }
  if(!o.out.empty()) { why = "a backup with an invalid configuration prints \"" + quiet(plainText(o.out)) + "\""; return false; }
  return true;
}
// Names no file system takes: asking for such a path fails, and that ends the run.
static bool overlong(const std::string &text)
{
  size_t n = 0;
  for(char c : text)
  {
    n = c == '/' || c == '\n' ? 0 : n + 1;
    if(n > 255) return true;
  }
  return false;
}
static void run22(Ex &ex, St &s, const Step &x)
{
  std::string cmd = x.get("cmd"), why;
  if(cmd != "backup") return otherRun(ex, s, x); // none of them cares for the configuration
  bool exists;
  std::string text = fileAt(s.w, "/repo/config", &exists);
  Ino ci = s.w.fs.lookup("/repo/config", false);
  if(!ci || s.w.fs.vol.get(ci)->type != FT::Reg) // no configuration at all
  {
    Tree before = snap(s.w, "/");
    Out o = ex.nb(s.w, x);
    if(hasFaults(x) && (o.end == End::Killed || o.end == End::Power)) return;
    if(!o.failed() || (!hasFaults(x) && plainText(o.err).compare(0, 11, "nb: error: ") != 0)) return ex.fail("a backup without a configuration " + o.brief());
    Tree after = withoutLock(s.w);
    before.erase("/repo/lockfile");
    if(before.count("/repo")) before["/repo"].mtime = 0;
    if(!identical(before, after, why)) return ex.fail("a backup without a configuration changed something: " + why);
    ex.st.count["no configuration"]++;
    return;
  }
  Conf c = parseConf(text);
  if(c.ok && overlong(text)) return;
  const Fault *mut = nullptr;
  std::vector<Fault> fs;
  for(auto &f : x.all("f")) { fs.push_back(parseFault(f)); }
  for(auto &f : fs) if(f.k == FK::Mutate) mut = &f;
  if(mut) // somebody replaces the configuration while a backup runs: it uses the old or the new one
  {
    Step m = Step::parse(mut->ext);
    Conf c2 = parseConf(m.get("raw"));
    if(c2.ok && overlong(m.get("raw"))) return;
    std::string err;
    for(auto *k : {&c, &c2}) if(k->ok) { searchFs(s.w.fs, *k, err); if(!err.empty()) return; }
    Model a = s.m, b = s.m;
    RunResult ra = a.backup(s.w.fs, c, true), rb = b.backup(s.w.fs, c2, true);
    Hist before = ex.observe(s.w);
    Out o = ex.nb(s.w, x);
    if(o.end != End::Exited) return ex.fail("a backup " + o.brief());
    Hist after = ex.observe(s.w);
    auto fits = [&](const Conf &k, const Model &m2, std::string &w) {
      if(!k.ok) return rejects(o, k, w) && histEqualsModel(ex, after, s.m, w);
      if(!o.ok()) { w = o.brief(); return false; }
      return histEqualsModel(ex, after, m2, w);
    };
    std::string w1, w2;
    ex.st.count["replaced meanwhile"]++;
    if(fits(c, a, w1)) { if(o.ok()) s.m = a; }
    else if(fits(c2, b, w2)) { if(o.ok()) s.m = b; }
    else return ex.fail("a backup whose configuration was replaced meanwhile follows neither the old one (" + w1 + ") nor the new one (" + w2 + ")");
    return;
  }
  if(c.ok)
  {
    std::string err;
    int followed = 0;
    searchFs(s.w.fs, c, err, &followed);
    if(followed || (!err.empty() && err.find("ambiguous") == std::string::npos)) return;
    ex.st.count[err.empty() ? "valid" : "ambiguous"]++;
    Tree before = withoutLock(s.w);
    Ran r;
    if(!modelBackup(ex, s, x, r)) return;
    if(!err.empty())
    {
      Tree after = withoutLock(s.w);
      if(!identical(before, after, why)) return ex.fail("a backup with ambiguous rules changed something: " + why);
      if(!hasFaults(x) && plainText(r.o.err).find("nb: error: ambiguous rules for path: \"") == std::string::npos
        && plainText(r.o.err).find("nb: error: failed to access \"") == std::string::npos) return ex.fail("a backup with ambiguous rules " + r.o.brief());
    }
    return;
  }
  ex.st.count["invalid: " + c.err]++;
  Tree before = withoutLock(s.w);
  Hist h0 = ex.observe(s.w);
  Out o = ex.nb(s.w, x);
  if(!hasFaults(x)) { if(!rejects(o, c, why)) return ex.fail(why); }
  else
  {
    if(o.end == End::Crashed || o.end == End::Hang || o.ok()) return ex.fail("a backup with an invalid configuration " + o.brief());
    if(o.end == End::Exited && o.asked()) return ex.fail("a backup with an invalid configuration asks for consent");
  }
  if(o.end == End::Power) { Hist h1 = ex.observe(s.w); if(!sameHist(h0, h1, why)) ex.fail("a backup with an invalid configuration changed the history: " + why); return; }
  Tree after = withoutLock(s.w);
  if(!identical(before, after, why)) return ex.fail("a backup with an invalid configuration changed something: " + why);
}
// A configuration with one mistake, or storage damage, or only unusual looks.
static std::string spoiled(Rng &r, Gen &g, std::string text)
{
  if(r.chance(0.1)) // long configurations: more than one block
  {
    std::vector<std::string> t = linesOf(text);
    size_t at = r.below(t.size() + 1), n = r.pick<size_t>({20, 70, 140, 300, 1200});
    std::string fill(r.pick<size_t>({40, 59, 61}), 'c'), all;
    for(size_t i = 0; i <= t.size(); i++)
    {
      if(i == at) for(size_t k = 0; k < n; k++) all += "#" + fill + std::to_string(k) + "\n";
      if(i < t.size()) all += t[i] + "\n";
    }
    text = all;
  }
  std::vector<std::string> l = linesOf(text);
  auto put = [&](const std::string &x) { l.insert(l.begin() + (long)r.below(l.size() + 1), x); };
  auto join = [&](const std::string &nl) { std::string t; for(auto &x : l) t += x + nl; return t; };
  auto pathLine = [&]() { std::vector<std::string> p; for(auto &x : l) if(!x.empty() && x[0] == '/') p.push_back(x); return p.empty() ? std::string("/home") : p[r.below(p.size())]; };
  auto deco = [&]() {
    int n = (int)r.below(5);
    for(int i = 0; i < n; i++) put(r.pick<std::string>({"", "  ", "\t", "# a comment", "#", "#/home/x", " \t ", "# [copy]"}));
  };
  int how = (int)r.below(10);
  if(how < 5) // a mistake
  {
    int k = 1 + (int)r.below(10) / 9;
    for(int i = 0; i < k; i++)
      switch(r.below(12))
      {
        case 0: put(r.pick<std::string>({"[trak]", "[]", "[ copy]", "[Copy]", "[copy ]]", "[mirror]]", "[/home]", "[summarise]"})); break;
        case 1: put(r.pick<std::string>({"home/x", " /home", "~/x", "./x", "../x", "[copy", "copy]", "[", "]", "[track] ", " [copy]", "\t/etc", " # x", "\r", "[copy]\r"})); break;
        case 2: put(pathLine()); break;
        case 3: put(pathLine() + std::string(1 + r.below(3), '/')); break;
        case 4: put(r.pick<std::string>({"/.", "/..", "/home/./x", "/home/../x", "/home/x/.", "/home/x/..", "/../home", "/home//^a$/..", "/./", "/home/x/../"})); break;
        case 5: put(r.pick<std::string>({"/home//(", "/home//[a", "/home/x//*a(", "/etc//a{2,1}", "/home//(a/b", "/home//a\\"})); break;
        case 6: put("[ignore]"); l.push_back("[ignore]"); l.push_back(r.pick<std::string>({"(", "[a", "a{2,1}", "\\"})); break;
        case 7: l.push_back("[summarize]"); l.push_back(r.pick<std::string>({"(", "[a", "a{3,1}", "*)("})); break;
        case 8: l.insert(l.begin(), r.pick<std::string>({"/home/before", "x", " ", " # x", "^a$"})); break;
        case 9: put(std::string("/home/nul") + std::string(1, '\0') + "x"); break;
        case 10: { std::string p = pathLine(); put(r.pick<std::string>({"[copy]", "[mirror]", "[track]"})); l.push_back(r.pick<std::string>({"[copy]", "[mirror]", "[track]"})); l.push_back(p); break; }
        default: { std::string p = pathLine(); l.push_back("[track]"); l.push_back(p + "/zz/y"); l.push_back(p + "/zz"); if(r.chance(0.5)) l.push_back(p + "/zz/y"); break; }
      }
    deco();
    std::string t = join("\n");
    if(r.chance(0.1)) t = "\xEF\xBB\xBF" + t;
    if(r.chance(0.1) && !t.empty()) t.pop_back();
    return t;
  }
  if(how < 8) // damage
  {
    std::string t = text;
    int k = 1 + (int)r.below(3);
    for(int i = 0; i < k && !t.empty(); i++)
    {
      size_t at = r.chance(0.3) ? t.size() - 1 - r.below(std::min<size_t>(t.size(), 40)) : r.below(t.size());
      switch(r.below(8))
      {
        case 0: t.resize(at); break;
        case 1: t[at] = (char)r.below(256); break;
        case 2: t[at] ^= (char)(1 << r.below(8)); break;
        case 3: t.erase(at, 1 + r.below(8)); break;
        case 4: for(size_t j = at; j < t.size(); j++) t[j] = 0; break;
        case 5: t.insert(at, 1, r.pick<char>({'\n', '/', '[', ']', ' ', '.', '*', '(', '#', '\0', '\r'})); break;
        case 6: { std::string part = t.substr(at, 1 + r.below(30)); t.insert(r.below(t.size()), part); break; }
        default: if(r.chance(0.2)) t.clear(); else std::swap(t[at], t[r.below(t.size())]);
      }
    }
    return t;
  }
  deco(); // nothing wrong
  (void)g;
  for(auto &x : l) if(!x.empty() && x[0] == '/' && r.chance(0.2)) x += std::string(1 + r.below(3), '/');
  std::string t = join("\n");
  if(r.chance(0.3)) t = "\xEF\xBB\xBF" + t;
  if(r.chance(0.3) && !t.empty()) t.pop_back();
  return t;
}
static void gen22(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = 8;
  o.summarize = r.chance(0.3);
  Gen g(ex, r, o);
  g.initWorld("ord=" + std::to_string(r.below(2)));
  g.tree();
  g.config();
  std::string good = ex.config(ex.s.w);
  int n = 2 + (int)r.below(ex.thorough ? 12 : 5);
  if(r.chance(0.8)) { tick(ex, r); ex.step(envStep(r, runStep("backup"))); }
  for(int i = 0; i < n && !ex.bad(); i++)
  {
    if(r.chance(0.6)) g.edit(1 + (int)r.below(4));
    if(r.chance(0.3)) { g.config(); good = ex.config(ex.s.w); }
    std::string t = spoiled(r, g, good);
    if(r.chance(0.03)) { ex.step(Step("rm").set("p", "/repo/config")); if(r.chance(0.5)) ex.step(Step("mk").set("p", "/repo/config").set("t", r.pick<std::string>({"d", "l"})).set("to", "nowhere")); }
    else if(r.chance(0.15)) // replaced while the backup runs
    {
      ex.step(Step("cfg").set("raw", good));
      if(!g.usable(parseConf(good))) { g.fixConfig(); good = ex.config(ex.s.w); }
      Conf c2 = parseConf(t);
      if(c2.ok && !g.usable(c2)) continue;
      Step b = envStep(r, runStep("backup"));
      tick(ex, r);
      auto d = ex.dry(ex.s.w, b);
      if(d->o.trace.empty()) continue;
      Step m("mk");
      m.set("p", "/repo/config").set("raw", t).set("x", 1);
      for(int k = 0; k < 3 && !ex.bad(); k++)
      {
        Step v = b;
        v.op = k == 2 ? "run" : "v";
        v.add("f", "mut@" + std::to_string(1 + r.below(r.chance(0.6) ? std::min<size_t>(d->o.trace.size(), 20) : d->o.trace.size())) + ":" + m.text());
        ex.step(v);
      }
      ex.step(Step("cfg").set("raw", good));
      continue;
    }
    else ex.step(Step("cfg").set("raw", t));
    tick(ex, r);
    Conf c = parseConf(t);
    int k = 1 + (int)r.below(3);
    for(int j = 0; j < k && !ex.bad(); j++)
    {
      Step b = envStep(r, runStep("backup"));
      if(r.chance(0.1)) b.set("tty", 1);
      if(!c.ok && r.chance(0.25))
      {
        auto d = ex.dry(ex.s.w, b);
        if(!d->o.trace.empty()) b = crashOrFail(r, d->o.trace, b);
        b.op = "v";
      }
      else if(r.chance(0.1)) b.set("ans", "n\n");
      if(r.chance(0.3)) b.op = "v";
      ex.step(b);
    }
    if(r.chance(0.4) && hasMeta(ex.s.w) && !ex.bad())
    {
      Step v = runStep(r.pick<std::string>({"gc", "integrity", "restore"}), 0);
      if(v.get("cmd") != "restore") v = runStep(v.get("cmd")); else { g.dropDirLinks(); v.op = "v"; }
      ex.step(envStep(r, v));
    }
    if(c.ok) good = g.usable(c) ? t : good;
    if(!g.usable(parseConf(good))) { g.config(); good = ex.config(ex.s.w); }
  }
  ex.step(Step("cfg").set("raw", good));
  g.fixConfig();
  ex.step(runStep("backup"));
}
extern const Prop propC22 = {"C22", gen22, run22, nullptr};

// ---- C23 -----------------------------------------------------------------
static void ruleWarnings(const CNode &n, const std::map<const CNode *, int> &hits, std::vector<std::string> &out)
{
  for(auto &s : n.subs)
  {
    auto it = hits.find(s.get());
    int h = it == hits.end() ? 0 : it->second;
    std::string kind = s->rx ? "regex" : "string", what;
    if(!h) what = std::string(" never matched a ") + (s->subs.empty() ? "file" : "directory");
    else if(s->subs.empty()) continue;
    else if(!(h & 4)) what = " matches, but not a directory";
    else if(h & ~4) what = " matches not only directories";
    if(!what.empty()) out.push_back("config: line " + std::to_string(s->line) + ": " + kind + what + ": \"" + s->name + "\"");
    if(h & 4) ruleWarnings(*s, hits, out);
  }
}
// The warnings about a list of expressions asked about some paths. An expression that only matched what an other one
// matched, too, may or may not be reported.
static void expressionWarnings(const std::vector<RxP> &l, const std::vector<std::string> &asked, const char *what, std::vector<std::string> &must, std::set<std::string> &may)
{
  for(auto &e : l)
  {
    bool any = false, alone = false;
    for(auto &p : asked)
      if(e->match(p))
      {
        any = true;
        bool others = false;
        for(auto &f : l) others |= f != e && f->match(p);
        alone |= !others;
      }
    std::string t = "config: line " + std::to_string(e->line) + ": regex never matched a " + what + ": \"" + e->text + "\"";
    if(!any) must.push_back(t); else if(!alone) may.insert(t);
  }
}
static void findAmbiguous(const CNode &n, int a, int b, const std::string &name, bool &ok)
{
  bool x = false, y = false;
  for(auto &s : n.subs)
  {
    if(s->line == a || s->line == b)
      if(s->rx ? s->rx->match(name) : s->name == name) (s->line == a && (a != b || !x) ? x : y) = true;
  }
  if(x && y) ok = true;
  for(auto &s : n.subs) findAmbiguous(*s, a, b, name, ok);
}
static void run23(Ex &ex, St &s, const Step &x)
{
  std::string cmd = x.get("cmd"), why;
  if(cmd != "backup")
  {
    if(!hasMeta(s.w)) return;
    Out o = ex.nb(s.w, x);
    if(o.end != End::Exited || (!o.ok() && saysYes(x))) return ex.fail("an ordinary undisturbed " + cmd + " run " + o.brief());
    if(!o.err.empty()) return ex.fail("an ordinary " + cmd + " run prints warnings: " + quiet(plainText(o.err)));
    return;
  }
  Conf c = parseConf(ex.config(s.w));
  std::string err;
  SearchLog log;
  int followed = 0;
  if(!c.ok) return; // C22
  searchFs(s.w.fs, c, err, &followed, &log);
  if(!err.empty() && err.find("ambiguous") == std::string::npos) return;
  Ran r;
  if(!modelBackup(ex, s, x, r, false)) return;
  if(hasFaults(x)) return;
  std::vector<std::string> got = linesOf(plainText(r.o.err));
  ex.st.modelChecks++;
  if(!err.empty())
  {
    std::string t = plainText(r.o.err), bad = "ambiguous rules are reported as " + quiet(t);
    if(t.find("nb: error: failed to access") == 0) return; // a dangling symlink came first
    ex.st.count["ambiguous"]++;
    // two rules that match the name, which can contain line breaks, and the path
    static const std::string pre = "nb: error: ambiguous rules for path: \"";
    size_t at = t.rfind(pre);
    while(t.size() && t.back() == '\n' && at != std::string::npos && t.size() > at + pre.size()) t.pop_back();
    if(at == std::string::npos || t.back() != '"') return ex.fail(bad);
    std::string p = t.substr(at + pre.size(), t.size() - at - pre.size() - 1), name = p.substr(p.rfind('/') + 1);
    std::string end = " matches \"" + name + "\"\n", head = t.substr(0, at);
    int ln[2];
    for(int i = 0; i < 2; i++)
    {
      size_t e = head.find(end);
      ln[i] = head.compare(0, 13, "config: line ") == 0 ? atoi(head.c_str() + 13) : 0;
      if(!ln[i] || e == std::string::npos) return ex.fail(bad);
      head = head.substr(e + end.size());
    }
    if(!head.empty()) return ex.fail(bad);
    bool ok = false;
    findAmbiguous(*c.root, ln[0], ln[1], name, ok);
    if(!ok) return ex.fail("the rules named as ambiguous do not both match: " + quiet(t));
    return;
  }
  std::vector<std::string> must;
  std::set<std::string> may;
  ruleWarnings(*c.root, log.hits, must);
  expressionWarnings(c.ignore, log.ignoreTests, "path", must, may);
  expressionWarnings(c.summarize, r.rr.summaryTests, "directory", must, may);
  ex.st.count["warnings"] += must.size();
  for(auto &m : must) ex.st.count[m.find("matched a file") != std::string::npos ? "unmatched file" : m.find("matched a directory") != std::string::npos ? "unmatched directory" : m.find("matched a path") != std::string::npos ? "unmatched ignore" : m.find("not only") != std::string::npos ? "not only directories" : "not a directory"]++;
  for(auto &m : must)
  {
    auto it = std::find(got.begin(), got.end(), m);
    if(it == got.end()) return ex.fail("a backup does not warn: " + m + " (it prints: " + quiet(plainText(r.o.err)) + ")");
    got.erase(it);
  }
  for(auto &l : got)
    if(!may.count(l)) return ex.fail("a backup warns without reason: " + l);
}
static void gen23(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = 10;
  o.summarize = true;
  o.symlinkDirs = true;
  Gen g(ex, r, o);
  g.initWorld();
  g.tree();
  g.config();
  int n = 1 + (int)r.below(ex.thorough ? 8 : 4);
  for(int i = 0; i < n && !ex.bad(); i++)
  {
    if(i) { g.edit(1 + (int)r.below(5)); if(r.chance(0.5)) g.config(); }
    // more rules, many of which find nothing
    std::vector<std::string> keep = g.cfgLines, base = keep;
    for(int attempt = 0; attempt < 6; attempt++)
    {
      g.cfgLines = keep;
      auto any = g.paths(true, true, true);
      int k = (int)r.below(5);
      for(int j = 0; j < k; j++)
      {
        std::string p = any.empty() ? g.roots[0] : any[r.below(any.size())];
        if(p.find('\n') != std::string::npos) continue;
        if(r.chance(0.4)) { size_t q = p.rfind('/'); if(q) p = p.substr(0, q); }
        std::string add = r.chance(0.5) ? "/" + g.name() : "//" + r.pick<std::string>({"^a$", "^[a-c]$", "x", "\\.c$", "^zz$", "q|^b$", ".", "."});
        if(r.chance(0.5)) add += r.chance(0.5) ? "/" + g.name() : "//" + r.pick<std::string>({"^a$", ".", "^[0-9]$", "nn"});
        g.cfgLines.push_back(r.pick<std::string>({"[copy]", "[mirror]", "[track]"}));
        g.cfgLines.push_back(p + add);
        if(r.chance(0.2)) g.cfgLines.insert(g.cfgLines.begin(), r.pick<std::string>({"", "# x"}));
      }
      for(const char *sec : {"[ignore]", "[summarize]"})
        if(r.chance(0.6))
        {
          g.cfgLines.push_back(sec);
          int e = 1 + (int)r.below(3);
          for(int j = 0; j < e; j++) g.cfgLines.push_back(r.pick<std::string>({"/a$", "/[a-c]$", "\\.c$", "^/home", "/b/", "nothing", "^/etc/[^/]*$", "/x", "\\.[ch]$", "^/$", "[0-9]$", "/home$"}));
        }
      std::string t;
      for(auto &l : g.cfgLines) t += l + "\n";
      Conf c = parseConf(t);
      std::string err;
      if(!c.ok) continue;
      searchFs(ex.s.w.fs, c, err);
      if(err.empty() || (err.find("ambiguous") != std::string::npos && r.chance(0.1))) break;
      g.cfgLines = keep;
    }
    g.writeConfig();
    g.cfgLines = base;
    if(r.chance(0.5)) tick(ex, r);
    int k = 1 + (int)r.below(2);
    for(int j = 0; j < k && !ex.bad(); j++)
    {
      Step b = envStep(r, runStep("backup"), 0.7);
      if(r.chance(0.2)) b.set("tty", 1);
      if(r.chance(0.15)) b.set("ans", r.pick<std::string>({"n\n", "", "no\n"}));
      if(r.chance(0.3)) b.op = "v";
      ex.step(b);
    }
    if(r.chance(0.15) && hasMeta(ex.s.w)) { Step v = runStep(r.pick<std::string>({"gc", "integrity"})); ex.step(envStep(r, v)); }
  }
}
extern const Prop propC23 = {"C23", gen23, run23, nullptr};

// ---- C24 -----------------------------------------------------------------
static int depthOf(const std::string &p) { return (int)std::count(p.begin(), p.end(), '/'); }
// What a run may use, given what it has to deal with: neither depends on the sizes of files.
struct Bounds { uint32_t nofile; uint64_t mem; };
static Bounds boundsOf(const World &w, uint32_t blk)
{
  int depth = 4; // objects of the repository
  uint64_t bytes = 0, n = 0;
  std::string meta = fileAt(w, "/repo/metadata");
  FMeta m = parseMeta(meta);
  for(auto &f : m.nodes) { bytes += f.path.size() + 1; n += 1 + f.hist.size(); depth = std::max(depth, depthOf(f.path)); }
  for(auto &e : snap(w, "/", "/repo"))
  {
    depth = std::max(depth, depthOf(e.first));
    bytes += e.first.size() + 1; n++;
    if(e.second.type == FT::Lnk) bytes += e.second.data->size();
  }
  for(auto &e : snap(w, "/repo")) { bytes += 64; n += e.second.type == FT::Dir; }
  n += m.times.size();
  bytes += meta.size() + fileAt(w, "/repo/config").size() * 8;
  return {(uint32_t)(3 + depth + 8), 65536 + 5 * (uint64_t)blk + 500 * n + 16 * bytes};
}
static void run24(Ex &ex, St &s, const Step &x)
{
  std::string cmd = x.get("cmd"), why;
  if(cmd != "backup" && !hasMeta(s.w)) return;
  World w0 = s.w;
  Out o = ex.nb(s.w, x, true);
  if(!o.ok()) return ex.fail("an ordinary undisturbed " + cmd + " run " + o.brief());
  ex.st.modelChecks++;
  // contents which are not needed are not read
  FMeta m = parseMeta(fileAt(w0, "/repo/metadata"));
  std::set<std::string> opened;
  for(auto &t : o.trace) if(t.s == S_open || t.s == S_openw) opened.insert(normPath(t.path));
  if(cmd == "backup")
  {
    Conf c = parseConf(ex.config(w0));
    std::string err;
    auto found = searchFs(w0.fs, c, err);
    for(auto &n : m.nodes)
    {
      auto it = found.find(n.path);
      if(it == found.end() || n.hist.empty() || it->second.other || it->second.pol != n.pol) continue;
      const MState &a = n.hist[0].st, &b = it->second.st;
      if(a.type != ST_reg || b.type != ST_reg || a.size != b.size || a.mtime != b.mtime) continue;
      ex.st.count["unchanged files"]++;
      if(opened.count(n.path)) return ex.fail("a backup opens " + n.path + ", whose size and modification time are as recorded");
    }
  }
  else if(cmd == "restore")
    for(auto &e : metaTree(m, (uint64_t)x.num("id")))
    {
      Ino i = e.second.first.type == ST_reg ? w0.fs.lookup(e.first, false) : 0;
      if(!i) continue;
      MState now = stateOf(w0.fs.vol.get(i));
      if(now.type != ST_reg || now.size != e.second.first.size || now.mtime != e.second.first.mtime) continue;
      ex.st.count["unchanged files"]++;
      if(opened.count(e.first)) return ex.fail("a restore opens " + e.first + ", whose size and modification time are as recorded");
    }
  // the same run again, with no more than it needs
  World w = w0;
  Bounds b = boundsOf(w0, (uint32_t)x.num("blk", 4096));
  Step l = x;
  l.set("nofile", b.nofile).set("memmax", (int64_t)b.mem);
  if(cmd == "backup")
  {
    Tree t0 = snap(w0, "/repo"), t1 = snap(s.w, "/repo");
    int64_t need = 64;
    for(auto &e : t1)
    {
      if(t0.count(e.first) && e.first != "/repo/metadata") continue;
      need += e.second.type == FT::Dir ? 64 : 16 + (int64_t)e.second.data->size();
    }
    l.add("f", "full@1:" + std::to_string(need));
    ex.st.count["limited disks"]++;
  }
  Out p = ex.nb(w, l);
  ex.st.count["limited " + cmd]++;
  auto &mx = ex.st.count["peak memory percent"];
  mx = std::max<uint64_t>(mx, o.memPeak * 100 / b.mem);
  auto &fx = ex.st.count["peak files percent"];
  fx = std::max<uint64_t>(fx, o.fdPeak * 100 / b.nofile);
  if(!p.ok()) return ex.fail("a " + cmd + " which may open " + std::to_string(b.nofile) + " files and use " + std::to_string(b.mem) + " bytes of memory" + (cmd == "backup" ? " and " + l.get("f").substr(7) + " bytes of disk space " : " ") + p.brief() + " (it opened " + std::to_string(o.fdPeak) + " files and used " + std::to_string(o.memPeak) + " bytes)");
  if(!identical(snap(s.w, "/"), snap(w, "/"), why)) return ex.fail("a " + cmd + " with limited resources has another outcome: " + why);
}
static void gen24(Ex &ex, Rng &r)
{
  GenOpts o;
  o.maxFiles = r.chance(0.1) ? 60 : 12;
  o.hardlinks = false;
  Gen g(ex, r, o);
  g.initWorld();
  g.tree();
  if(r.chance(0.04)) ex.step(Step("many").set("p", g.roots[0] + "/many").set("n", (int64_t)(40 + r.below(ex.thorough ? 900 : 300))).set("ts", g.stamp()));
  if(r.chance(0.15)) // files of one size, among them multiples of the block size and of the buffer size
    ex.step(Step("many").set("p", g.roots[0] + "/same").set("n", (int64_t)(8 + r.below(40))).set("c", (int64_t)r.below(1000)).set("z", r.pick<int64_t>({1, 20, 21, 511, 512, 1024, 4095, 4096, 4097, 8192, 8192, 16384, 65536})).set("ts", g.stamp()));
  if(r.chance(0.15)) { std::string p = g.roots[0]; for(int k = 3 + (int)r.below(30); k > 0; k--) p += "/" + g.name(); ex.step(g.mkFile(p)); }
  g.config();
  auto env = [&](Step v) { if(r.chance(0.6)) v.set("es", (int64_t)(1 + r.below(1000))); v.set("blk", r.pick<int64_t>({512, 4096, 4096, 65536})).set("iobuf", 4096); return v; };
  int n = 1 + (int)r.below(ex.thorough ? 8 : 4);
  for(int i = 0; i < n && !ex.bad(); i++)
  {
    if(i) g.edit(1 + (int)r.below(5));
    if(r.chance(0.3)) // a large file, or several copies of it
    {
      int64_t size = 300000 + (int64_t)r.below(3000000), c = g.kind(), k = r.chance(0.3) ? 3 : 1;
      for(int j = 0; j < k; j++) ex.step(Step("mk").set("p", r.chance(0.4) && !g.paths(false, true).empty() ? g.paths(false, true)[0] : g.newPath()).set("n", size).set("c", c).set("ts", g.stamp()));
    }
    if(i && r.chance(0.2)) g.config();
    g.fixConfig();
    if(r.chance(0.3)) tick(ex, r);
    Step b = env(runStep("backup"));
    if(r.chance(0.3)) { b.op = "v"; ex.step(b); b.op = "run"; }
    ex.step(b);
    if(r.chance(0.4)) ex.step(env(runStep("integrity")));
    if(r.chance(0.4)) { if(r.chance(0.3)) litter(ex, r); ex.step(env(runStep("gc"))); }
    if(!hasMeta(ex.s.w)) continue;
    for(int k = (int)r.below(3); k > 0 && !ex.bad(); k--)
    {
      g.edit((int)r.below(5)); g.dropDirLinks();
      Step v = env(runStep("restore", (int)r.below((uint64_t)g.ids())));
      v.op = r.chance(0.2) ? "run" : "v";
      ex.step(v);
    }
  }
}
extern const Prop propC24 = {"C24", gen24, run24, nullptr};
