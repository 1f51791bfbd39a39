#include "plan.h"
#include <cstring>

std::string esc(const std::string &s)
{
  std::string r;
  static const char hex[] = "0123456789abcdef";
  for(unsigned char c : s)
  {
    if(c <= 0x20 || c >= 0x7f || c == '%') { r += '%'; r += hex[c >> 4]; r += hex[c & 15]; }
    else r += (char)c;
  }
  return r;
}
std::string unesc(const std::string &s)
{
  std::string r;
  for(size_t i = 0; i < s.size(); i++)
  {
    if(s[i] == '%' && i + 2 < s.size() + 0 && isxdigit(s[i + 1]) && isxdigit(s[i + 2]))
    {
      r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
      i += 2;
    }
    else r += s[i];
  }
  return r;
}
std::string Step::text() const
{
  std::string r = op;
  for(auto &e : kv) r += " " + e.first + "=" + esc(e.second);
  return r;
}
Step Step::parse(const std::string &line)
{
  Step s;
  size_t i = 0;
  while(i < line.size())
  {
    while(i < line.size() && line[i] == ' ') i++;
    size_t e = line.find(' ', i);
    if(e == std::string::npos) e = line.size();
    std::string t = line.substr(i, e - i);
    if(!t.empty())
    {
      size_t q = t.find('=');
      if(s.op.empty() && q == std::string::npos) s.op = t;
      else if(q != std::string::npos) s.kv.push_back({t.substr(0, q), unesc(t.substr(q + 1))});
    }
    i = e + 1;
  }
  return s;
}
std::string Plan::text() const
{
  std::string r = "nbplan 1 " + prop + "\n";
  for(auto &s : steps) r += s.text() + "\n";
  return r;
}
bool Plan::parse(const std::string &t, Plan &out)
{
  size_t i = 0;
  bool first = true;
  while(i < t.size())
  {
    size_t e = t.find('\n', i);
    if(e == std::string::npos) e = t.size();
    std::string l = t.substr(i, e - i);
    i = e + 1;
    if(l.empty() || l[0] == '#') continue;
    if(first)
    {
      if(l.compare(0, 9, "nbplan 1 ") != 0) return false;
      out.prop = l.substr(9);
      first = false;
      continue;
    }
    out.steps.push_back(Step::parse(l));
  }
  return !first;
}

static const struct { const char *n; FK k; } fkNames[] = {{"err", FK::Err}, {"short", FK::Short}, {"kill", FK::Kill},
  {"power", FK::Power}, {"mem", FK::Mem}, {"rx", FK::Regex}, {"jump", FK::Jump}, {"full", FK::Full}, {"mut", FK::Mutate}};
// kind[!]@number[:argument]
Fault parseFault(const std::string &s)
{
  Fault f;
  size_t a = s.find('@');
  if(a == std::string::npos) return f;
  std::string k = s.substr(0, a);
  if(!k.empty() && k.back() == '!') { f.sticky = true; k.pop_back(); }
  for(auto &n : fkNames) if(k == n.n) f.k = n.k;
  size_t c = s.find(':', a);
  f.at = (uint32_t)strtoul(s.substr(a + 1).c_str(), nullptr, 10);
  if(c != std::string::npos)
  {
    if(f.k == FK::Mutate) f.ext = s.substr(c + 1);
    else f.arg = strtoll(s.substr(c + 1).c_str(), nullptr, 10);
  }
  return f;
}
std::string faultText(const Fault &f)
{
  std::string r;
  for(auto &n : fkNames) if(f.k == n.k) r = n.n;
  if(f.sticky) r += "!";
  r += "@" + std::to_string(f.at);
  if(f.k == FK::Mutate) r += ":" + f.ext;
  else if(f.k == FK::Err || f.k == FK::Short || f.k == FK::Jump || f.k == FK::Full) r += ":" + std::to_string(f.arg);
  return r;
}

// Contents are identified by a number. Bits 20 and above select a byte in which a content differs from its relative.
std::string content(uint64_t id, uint64_t n)
{
  std::string s((size_t)n, '\0');
  uint64_t near = id >> 20;
  id &= 0xfffff;
  uint64_t base = id >> 1;
  if(base % 5 != 0 || n <= 64)
  {
    uint64_t x = base * 0x9e3779b97f4a7c15ULL + 99;
    for(size_t i = 0; i < s.size(); i += 8)
    {
      uint64_t v = splitmix(x);
      memcpy(&s[i], &v, std::min<size_t>(8, s.size() - i));
    }
  }
  if((id & 1) && n) s[(size_t)n - 1] ^= 0x55;
  if(near && n)
  {
    const uint64_t at[] = {0, n / 2, 4095, 4096, 20, n - 1};
    s[(size_t)std::min(at[near % 6], n - 1)] ^= (char)(0x11 + near / 6);
  }
  return s;
}

Env makeEnv(uint64_t es)
{
  Env e;
  if(!es) return e;
  Rng r(mix(es, 0xe47));
  e.seed = 2 + r.below(1 << 20);
  e.blksize = r.pick({512u, 1024u, 4096u, 65536u, 24u, 1u << 20});
  e.iobuf = r.pick({4096u, 1024u, 64u, 65536u, 16u});
  e.fill = r.pick({(uint8_t)0xA5, (uint8_t)0, (uint8_t)0xff, (uint8_t)0x01, (uint8_t)0x2f});
  e.pid = 100 + (uint32_t)r.below(30000);
  e.dtype = r.chance(0.8);
  e.tick = r.pick<int64_t>({1000, 1000000, 50000000, 0, 700000000});
  e.umask = r.pick({022u, 022u, 002u, 077u, 027u, 0u});
  if(r.chance(0.4)) e.blkmix = 1 + r.below(1 << 20);
  e.dirlink = r.chance(0.2);
  e.noblocks = r.chance(0.2);
  return e;
}

static Ino parentOf(World &w, const std::string &path, std::string &name, bool make)
{
  std::string p = normPath(path);
  if(p == "/") return 0;
  if(p.size() > 4095) return 0; // no system call accepts it
  size_t s = p.rfind('/');
  std::string dir = p.substr(0, s);
  name = p.substr(s + 1);
  if(dir.empty()) return 1;
  // Symlinks on the way count as missing, edits never leave the named place.
  Ino d = 1;
  for(size_t i = 1; d && i < dir.size();)
  {
    size_t e = dir.find('/', i);
    if(e == std::string::npos) e = dir.size();
    const Inode *n = w.fs.vol.get(d);
    auto it = n->ents.find(dir.substr(i, e - i));
    d = n->type == FT::Dir && it != n->ents.end() && w.fs.vol.get(it->second)->type == FT::Dir ? it->second : 0;
    i = e + 1;
  }
  if(d) return d;
  if(!make) return 0;
  std::string n2;
  Ino pd = parentOf(w, dir, n2, true);
  if(!pd) return 0;
  if(w.fs.vol.get(pd)->ents.count(n2)) w.fs.removeTree(pd, n2, w.clock);
  return w.fs.create(pd, n2, FT::Dir, 0755, w.fs.vol.get(pd)->uid, w.fs.vol.get(pd)->gid, w.clock);
}
static size_t deepest(const FS &fs, Ino i)
{
  size_t n = 0;
  for(auto &e : fs.vol.get(i)->ents) n = std::max(n, 1 + e.first.size() + deepest(fs, e.second));
  return n;
}
static bool inside(const std::string &p, const std::string &base)
{
  return p.compare(0, base.size(), base) == 0 && (p.size() == base.size() || p[base.size()] == '/' || base == "/");
}
static uint32_t octal(const std::string &s, uint32_t d) { return s.empty() ? d : (uint32_t)strtoul(s.c_str(), nullptr, 8); }
static int64_t tsOf(const Step &s, World &w)
{
  if(!s.has("ts")) return w.clock;
  return s.num("ts") * 1000000000LL + s.num("ns", 123456789);
}

bool worldOp(World &w, const Step &s)
{
  FS &fs = w.fs;
  std::string name;
  if(s.op == "mk")
  {
    std::string p = normPath(s.get("p"));
    Ino d = parentOf(w, p, name, true);
    if(!d) return true;
    std::string t = s.get("t", "f");
    auto &ents = fs.vol.get(d)->ents;
    auto it = ents.find(name);
    if(it != ents.end())
    {
      if(t == "d" && fs.vol.get(it->second)->type == FT::Dir && !s.has("x")) return true;
      fs.removeTree(d, name, w.clock);
    }
    uint32_t m = octal(s.get("m"), t == "d" ? 0755 : 0644);
    FT ft = t == "d" ? FT::Dir : t == "l" ? FT::Lnk : t == "p" ? FT::Fifo : FT::Reg;
    if(ft == FT::Lnk) m = 0777;
    Ino i = fs.create(d, name, ft, m, (uint32_t)s.num("u"), (uint32_t)s.num("g"), tsOf(s, w), s.get("to", "x"));
    if(ft == FT::Reg && s.num("n"))
    {
      std::string c = content((uint64_t)s.num("c"), (uint64_t)s.num("n"));
      fs.write(i, 0, c.data(), c.size(), tsOf(s, w));
    }
    else if(ft == FT::Reg && s.has("raw")) { std::string c = s.get("raw"); fs.write(i, 0, c.data(), c.size(), tsOf(s, w)); }
    return true;
  }
  if(s.op == "many") // a directory with many entries
  {
    Ino d = parentOf(w, normPath(s.get("p")) + "/x" + s.get("pre", "m") + "000000", name, true);
    if(!d) return true;
    for(int64_t k = 0; k < s.num("n"); k++)
    {
      std::string f = s.get("pre", "m") + std::to_string(k);
      if(fs.vol.get(d)->ents.count(f)) continue;
      Ino i = fs.create(d, f, FT::Reg, 0644, 0, 0, tsOf(s, w));
      if(s.num("z")) { std::string c = content((uint64_t)(s.num("c") + k), (uint64_t)s.num("z")); fs.write(i, 0, c.data(), c.size(), tsOf(s, w)); }
    }
    return true;
  }
  if(s.op == "rm")
  {
    Ino d = parentOf(w, s.get("p"), name, false);
    if(d) fs.removeTree(d, name, w.clock);
    return true;
  }
  if(s.op == "mv")
  {
    std::string n2, p = normPath(s.get("p")), q = normPath(s.get("q"));
    Ino d = parentOf(w, p, name, false);
    if(!d || !fs.vol.get(d)->ents.count(name) || inside(q, p) || inside(p, q)) return true;
    Ino e = parentOf(w, q, n2, true);
    d = parentOf(w, p, name, false);
    if(!e || !d || !fs.vol.get(d)->ents.count(name)) return true;
    Ino src = fs.vol.get(d)->ents.at(name);
    // never move a directory below itself (through symlinks)
    for(Ino x = e; x != 1; x = fs.vol.get(x)->parent) if(x == src) return true;
    if(fs.vol.get(src)->dev != fs.vol.get(e)->dev || q.size() + deepest(fs, src) > 4095) return true;
    if(fs.vol.get(e)->ents.count(n2))
    {
      if(fs.vol.get(e)->ents.at(n2) == src) return true;
      fs.removeTree(e, n2, w.clock);
    }
    fs.rename(d, name, e, n2, w.clock);
    return true;
  }
  if(s.op == "ln")
  {
    std::string n2;
    Ino i = fs.lookup(normPath(s.get("p")), false);
    if(!i || fs.vol.get(i)->type != FT::Reg) return true;
    Ino e = parentOf(w, s.get("q"), n2, true);
    if(!e || fs.vol.get(e)->ents.count(n2) || fs.vol.get(e)->dev != fs.vol.get(i)->dev) return true;
    fs.link(i, e, n2, w.clock);
    return true;
  }
  if(s.op == "set" || s.op == "wr")
  {
    Ino i = fs.lookup(normPath(s.get("p")), false);
    if(!i) return true;
    if(s.op == "wr")
    {
      if(fs.vol.get(i)->type != FT::Reg) return true;
      std::string c = content((uint64_t)s.num("c"), (uint64_t)s.num("n"));
      if(s.has("raw")) c = s.get("raw");
      int64_t keep = fs.vol.get(i)->mtime;
      fs.truncate(i, 0, w.clock);
      if(c.size()) fs.write(i, 0, c.data(), c.size(), w.clock);
      const Inode *n = fs.vol.get(i);
      fs.setAttr(i, n->mode, n->uid, n->gid, s.has("keep") ? keep : tsOf(s, w));
      return true;
    }
    const Inode *n = fs.vol.get(i);
    fs.setAttr(i, n->type == FT::Lnk ? n->mode : octal(s.get("m"), n->mode), (uint32_t)s.num("u", n->uid), (uint32_t)s.num("g", n->gid),
               s.has("ts") ? tsOf(s, w) : n->mtime);
    return true;
  }
  if(s.op == "spl") // replaces d bytes at offset o by the bytes given in hexadecimal
  {
    Ino i = fs.lookup(normPath(s.get("p")), false);
    if(!i || fs.vol.get(i)->type != FT::Reg) return true;
    std::string b = *fs.vol.get(i)->data, hex = s.get("h"), ins;
    for(size_t j = 0; j + 1 < hex.size(); j += 2) ins += (char)strtol(hex.substr(j, 2).c_str(), nullptr, 16);
    uint64_t o = std::min((uint64_t)s.num("o"), (uint64_t)b.size()), d = std::min((uint64_t)s.num("d"), (uint64_t)(b.size() - o));
    b = b.substr(0, o) + ins + b.substr(o + d);
    fs.truncate(i, 0, w.clock);
    if(b.size()) fs.write(i, 0, b.data(), b.size(), w.clock);
    return true;
  }
  if(s.op == "flip" || s.op == "cut" || s.op == "app") // damage the content of a file, keeping all attributes
  {
    Ino i = fs.lookup(normPath(s.get("p")), false);
    if(!i || fs.vol.get(i)->type != FT::Reg) return true;
    const Inode *n = fs.vol.get(i);
    int64_t mt = n->mtime;
    uint64_t len = n->data->size();
    if(s.op == "flip")
    {
      if(!len) return true;
      uint64_t o = (uint64_t)s.num("o") % len;
      char c = (char)((*n->data)[o] ^ (char)(s.num("x", 1) ? s.num("x", 1) : 1));
      fs.write(i, o, &c, 1, mt);
    }
    else if(s.op == "cut") fs.truncate(i, (uint64_t)s.num("n") < len ? (uint64_t)s.num("n") : len, mt);
    else
    {
      std::string c = content((uint64_t)s.num("c"), (uint64_t)s.num("n", 1));
      fs.write(i, len, c.data(), c.size(), mt);
    }
    n = fs.vol.get(i);
    fs.setAttr(i, n->mode, n->uid, n->gid, s.has("ts") ? tsOf(s, w) : mt);
    return true;
  }
  if(s.op == "clk") { w.clock = std::max<int64_t>(0, w.clock + s.num("d")); return true; }
  if(s.op == "sync") { fs.syncAll(); return true; }
  return false;
}
