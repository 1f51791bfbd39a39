#include "model.h"
#include <algorithm>
#include <cstring>

bool MState::same(const MState &o) const
{
  if(type != o.type) return false;
  if(type == ST_gone) return true;
  if(uid != o.uid || gid != o.gid) return false;
  if(type == ST_lnk) return *data == *o.data;
  if(mode != o.mode || mtime != o.mtime) return false;
  return type == ST_dir || *data == *o.data;
}

// ---- metadata file -------------------------------------------------------
namespace {
struct Rd
{
  const std::string &b; size_t p = 0; bool bad = false;
  Rd(const std::string &x) : b(x) {}
  bool need(uint64_t n) { if(bad || n > b.size() - p) { bad = true; return false; } return true; }
  uint64_t num(int n)
  {
    if(!need((uint64_t)n)) return 0;
    uint64_t v = 0;
    for(int i = n - 1; i >= 0; i--) v = v << 8 | (unsigned char)b[p + (size_t)i];
    p += (size_t)n;
    return v;
  }
  std::string str(uint64_t n) { if(!need(n)) return ""; std::string s = b.substr(p, (size_t)n); p += (size_t)n; return s; }
};
}
static bool readHist(Rd &r, FMeta &m, std::vector<FPoint> &out, size_t nb)
{
  uint64_t n = r.num(8);
  for(uint64_t i = 0; i < n && !r.bad; i++)
  {
    FPoint p;
    p.id = r.num(8);
    if(!r.bad && p.id >= nb) { m.err = "id range"; return false; }
    p.st.type = (int)r.num(1);
    if(p.st.type > 3) { m.err = "type"; return false; }
    if(p.st.type) { p.st.uid = (uint32_t)r.num(4); p.st.gid = (uint32_t)r.num(4); }
    if(p.st.type == ST_reg)
    {
      p.st.mode = (uint32_t)r.num(4); p.st.mtime = (int64_t)r.num(8); p.st.size = r.num(8);
      if(p.st.size > 20) { p.hash = r.str(20); p.slot = (uint8_t)r.num(1); }
      else p.inl = r.str(p.st.size);
    }
    else if(p.st.type == ST_lnk) { uint64_t l = r.num(8); p.st.data = mkblob(r.str(l)); }
    else if(p.st.type == ST_dir) { p.st.mode = (uint32_t)r.num(4); p.st.mtime = (int64_t)r.num(8); }
    out.push_back(std::move(p));
  }
  return !r.bad;
}
static bool readNodes(Rd &r, FMeta &m, const std::string &parent, int depth)
{
  uint64_t n = r.num(8);
  if(depth > 3000) { m.err = "depth"; return false; }
  for(uint64_t i = 0; i < n && !r.bad; i++)
  {
    uint64_t l = r.num(8);
    FNode f;
    std::string name = r.str(l);
    if(r.bad) return false;
    if(name.empty() || name == "." || name == ".." || name.find('/') != std::string::npos || name.find('\0') != std::string::npos) { m.err = "name"; return false; }
    f.path = parent + "/" + name;
    f.pol = (int)r.num(1);
    if(!readHist(r, m, f.hist, m.times.size())) return false;
    std::string path = f.path;
    m.nodes.push_back(std::move(f));
    if(!readNodes(r, m, path, depth + 1)) return false;
  }
  return !r.bad;
}
FMeta parseMeta(const std::string &b)
{
  FMeta m;
  Rd r(b);
  uint64_t n = r.num(8);
  for(uint64_t i = 0; i < n && !r.bad; i++) m.times.push_back((int64_t)r.num(8));
  if(r.bad) { m.err = "truncated"; return m; }
  std::vector<FPoint> conf;
  if(!readHist(r, m, conf, m.times.size())) return m;
  m.total = r.num(8);
  if(!readNodes(r, m, "", 0)) { if(m.err.empty()) m.err = "truncated"; return m; }
  if(r.p != b.size()) { m.err = "trailing"; return m; }
  m.ok = true;
  return m;
}
std::string objName(const FPoint &p)
{
  if(p.st.type != ST_reg || p.st.size <= 20) return "";
  static const char hx[] = "0123456789abcdef";
  std::string h;
  for(unsigned char c : p.hash) { h += hx[c >> 4]; h += hx[c & 15]; }
  char buf[64];
  snprintf(buf, sizeof buf, "x%llxx%x", (unsigned long long)p.st.size, p.slot);
  return h.substr(0, 1) + "/" + h.substr(1, 2) + "/" + h.substr(3) + buf;
}

// ---- configuration -------------------------------------------------------
Rx::Rx(const std::string &t) : text(t) { ok = regcomp(&re, t.c_str(), REG_EXTENDED | REG_NOSUB) == 0; }
Rx::~Rx() { if(ok) regfree(&re); }
bool Rx::match(const std::string &s) const { return ok && regexec(&re, s.c_str(), 0, nullptr, 0) == 0; }

bool Conf::ignored(const std::string &p) const { for(auto &r : ignore) if(r->match(p)) return true; return false; }
bool Conf::summarized(const std::string &p) const { for(auto &r : summarize) if(r->match(p)) return true; return false; }

static void inherit(CNode &n)
{
  for(auto &c : n.subs)
    if(c->pol == P_none || c->inherited) { c->pol = n.pol; c->inherited = true; inherit(*c); }
}
Conf parseConf(const std::string &text)
{
  Conf c;
  c.root = std::make_shared<CNode>();
  c.root->name = "/";
  if(text.find('\0') != std::string::npos) { c.ok = false; c.err = "null"; return c; }
  std::map<std::string, std::shared_ptr<CNode>> known;
  known[""] = c.root;
  size_t i = text.compare(0, 3, "\xEF\xBB\xBF") == 0 ? 3 : 0;
  int mode = 0; // 1..3 policies, 4 ignore, 5 summarize
  int line = 0;
  auto bad = [&](const std::string &w) { c.ok = false; c.err = w; c.line = line; };
  while(i < text.size() && c.ok)
  {
    size_t e = text.find('\n', i);
    if(e == std::string::npos) e = text.size();
    std::string l = text.substr(i, e - i);
    i = e + 1;
    line++;
    if(l.find_first_not_of(" \t") == std::string::npos || l[0] == '#') continue;
    if(l == "[copy]") mode = 1;
    else if(l == "[mirror]") mode = 2;
    else if(l == "[track]") mode = 3;
    else if(l == "[ignore]") mode = 4;
    else if(l == "[summarize]") mode = 5;
    else if(l[0] == '[' && l.back() == ']') bad("invalid policy");
    else if(!mode) bad("pattern without policy");
    else if(mode >= 4)
    {
      auto r = std::make_shared<Rx>(l);
      r->line = line;
      if(!r->ok) { bad("regex"); break; }
      (mode == 4 ? c.ignore : c.summarize).push_back(r);
    }
    else if(l[0] == '/')
    {
      std::string p = l;
      while(!p.empty() && p.back() == '/') p.pop_back();
      // dot elements
      for(size_t a = 0; a <= p.size();)
      {
        size_t b = p.find('/', a);
        if(b == std::string::npos) b = p.size();
        std::string el = p.substr(a, b - a);
        // an element after two slashes is a regular expression
        bool rx = a >= 2 && p[a - 1] == '/' && p[a - 2] == '/';
        if(!rx && (el == "." || el == "..")) bad("dot element");
        a = b + 1;
      }
      if(!c.ok) break;
      // A slash directly after a slash starts a regular expression element.
      std::shared_ptr<CNode> node;
      if(known.count(p))
      {
        node = known[p];
        if(node->pol != P_none && !node->inherited) { bad("redefinition"); c.otherLine = node->polLine; break; }
      }
      else
      {
        std::vector<std::string> chain; // full paths from the missing one upwards
        std::string q = p;
        while(!known.count(q))
        {
          chain.push_back(q);
          // head/tail at the last slash; if that slash follows another one the tail keeps it
          size_t s = q.rfind('/');
          while(s > 0 && q[s - 1] == '/') s--;
          q = q.substr(0, s);
        }
        std::shared_ptr<CNode> parent = known[q];
        for(size_t k = chain.size(); k-- > 0;)
        {
          auto n = std::make_shared<CNode>();
          n->line = n->polLine = line;
          std::string tail = chain[k].substr(q.size() + 1);
          if(tail.size() >= 2 && tail[0] == '/')
          {
            n->name = tail.substr(1);
            n->rx = std::make_shared<Rx>(n->name);
            if(!n->rx->ok) { bad("regex"); break; }
            parent->rxSub = true;
          }
          else n->name = tail;
          n->pol = parent->pol;
          n->inherited = parent->pol != P_none;
          parent->subs.insert(parent->subs.begin(), n);
          known[chain[k]] = n;
          parent = n;
          q = chain[k];
        }
        if(!c.ok) break;
        node = parent;
      }
      node->pol = mode;
      node->inherited = false;
      node->polLine = line;
      inherit(*node);
    }
    else bad("invalid path");
  }
  return c;
}

// ---- search --------------------------------------------------------------
MState stateOf(const Inode *n)
{
  MState s;
  s.type = n->type == FT::Reg ? ST_reg : n->type == FT::Lnk ? ST_lnk : n->type == FT::Dir ? ST_dir : ST_gone;
  s.uid = n->uid; s.gid = n->gid; s.mode = n->mode;
  int64_t t = n->mtime / 1000000000LL;
  if(n->mtime % 1000000000LL < 0) t--;
  s.mtime = t;
  if(n->data) s.data = n->data;
  s.size = s.type == ST_reg ? n->data->size() : 0;
  if(s.type == ST_lnk) s.mtime = 0, s.mode = 0;
  return s;
}
namespace {
struct Search
{
  const FS &fs; const Conf &c; std::string &err; SearchLog *log;
  std::map<std::string, Found> out; int followed = 0;
  void one(const std::string &path, Ino child, const CNode *node, int pol)
  {
    const Inode *n = fs.vol.get(child);
    // Below a followed symlink a directory may have a name the system refuses.
    if(path.size() > 4095) { err = "path too long"; return; }
    if(node && !node->subs.empty() && n->type == FT::Lnk)
    {
      child = fs.lookup(path, true);
      followed++;
      if(!child) { err = "dangling symlink " + path; return; }
      n = fs.vol.get(child);
    }
    if(child == fs.lookup("/repo", false)) { err = "the repository itself is selected"; return; }
    Found f;
    f.st = stateOf(n); f.pol = pol; f.node = node;
    f.other = n->type == FT::Fifo;
    if(log && node) log->hits[node] |= n->type == FT::Reg ? 1 : n->type == FT::Lnk ? 2 : n->type == FT::Dir ? 4 : 8;
    out[path] = f;
    if(n->type == FT::Dir) dir(path, child, node, pol);
  }
  void dir(const std::string &path, Ino ino, const CNode *node, int pol)
  {
    if(out.size() > 200000) { err = "loop"; return; }
    const Inode *n = fs.vol.get(ino);
    if(node && node->pol == P_none && !node->rxSub)
    {
      for(auto &s : node->subs)
      {
        if(!err.empty()) return;
        auto it = n->ents.find(s->name);
        if(it != n->ents.end()) one(path + "/" + s->name, it->second, s.get(), s->pol);
      }
      return;
    }
    for(auto &e : n->ents)
    {
      if(!err.empty()) return;
      const CNode *hit = nullptr;
      if(node)
        for(auto &s : node->subs)
          if(s->rx ? s->rx->match(e.first) : s->name == e.first)
          {
            if(hit) { err = "ambiguous rules for " + path + "/" + e.first; return; }
            hit = s.get();
          }
      std::string p = path + "/" + e.first;
      if(hit) one(p, e.second, hit, hit->pol);
      else if(pol != P_none)
      {
        if(log) log->ignoreTests.push_back(p);
        if(!c.ignored(p)) one(p, e.second, nullptr, pol);
      }
    }
  }
};
}
std::map<std::string, Found> searchFs(const FS &fs, const Conf &c, std::string &err, int *followed, SearchLog *log)
{
  Search s{fs, c, err, log, {}, 0};
  s.dir("", 1, c.root.get(), c.root->pol);
  if(followed) *followed = s.followed;
  return s.out;
}

// ---- backup --------------------------------------------------------------
static MNodeP cloneNode(const MNodeP &n)
{
  auto r = std::make_shared<MNode>(*n);
  for(auto &e : r->subs) e.second = cloneNode(e.second);
  return r;
}
Model &Model::operator=(const Model &o)
{
  if(this == &o) return *this;
  root.clear();
  for(auto &e : o.root) root[e.first] = cloneNode(e.second);
  seq = o.seq;
  hashMask = o.hashMask;
  return *this;
}
extern "C" uint64_t maskedHash(const void *p, size_t n, uint32_t mask); // libc.cpp

namespace {
struct Run
{
  Model &m; const FS &fs; const Conf &c; RunResult &res;
  std::map<std::string, Found> found;
  std::map<std::string, std::vector<std::string>> kids; // found children per directory path
  int cur;
  bool sameContent(const MState &a, const MState &b)
  {
    if(*a.data == *b.data) return true;
    if(!m.hashMask || a.data->size() != b.data->size() || a.data->size() <= 20) return false;
    return maskedHash(a.data->data(), a.data->size(), m.hashMask) == maskedHash(b.data->data(), b.data->size(), m.hashMask);
  }
  void wipe(MNode &n) { if(n.hint == H_wiped) return; n.hint = H_wiped; n.cOwner = n.cMode = n.cTime = n.cData = false; }
  void wipeRec(MNode &n) { wipe(n); for(auto &e : n.subs) wipeRec(*e.second); }
  void markRemoved(MNode &n, bool extend)
  {
    if(n.hint == H_wiped) return;
    if(n.hist[0].st.type == ST_gone) { n.hint = H_same; n.polChanged = n.losesHist = false; }
    else
    {
      n.hint = H_removed;
      n.cOwner = n.cMode = n.cTime = n.cData = false;
      extend = extend && n.pol == P_track;
      if(extend) { MPoint p; p.seq = cur; n.hist.insert(n.hist.begin(), p); }
    }
    for(auto &e : n.subs) markRemoved(*e.second, extend);
  }
  static int oldestBelow(const MNode &n, int seq)
  {
    for(auto &e : n.subs)
    {
      if(e.second->pol == P_track) for(auto &p : e.second->hist) if(p.st.type != ST_gone) seq = std::min(seq, p.seq);
      seq = oldestBelow(*e.second, seq);
    }
    return seq;
  }
  void policy(MNode &n, int pol)
  {
    if(n.pol == pol) return;
    n.polChanged = true;
    if(n.pol == P_track)
    {
      if(n.hist[0].st.type == ST_gone) n.hist.erase(n.hist.begin());
      if(n.hist.size() > 1) { n.hist.resize(1); n.losesHist = true; }
      if(n.hist[0].st.type != ST_dir) for(auto &e : n.subs) wipeRec(*e.second);
    }
    else if(pol == P_track && n.hist[0].st.type == ST_dir) n.hist[0].seq = oldestBelow(n, n.hist[0].seq); // tracked states below stay reachable
    n.pol = pol;
  }
  void removed(MNode &n, int pol)
  {
    policy(n, pol);
    if(pol == P_mirror) wipeRec(n);
    else if(pol == P_none && (n.subs.empty() || n.hist[0].st.type != ST_dir)) wipe(n);
    else markRemoved(n, true);
  }
  void changes(MNode &n, MState &st, const Found &f)
  {
    if(st.type != f.st.type)
    {
      n.hint = H_type; n.fromType = st.type;
      if(f.pol != P_none || f.st.type == ST_dir) st = f.st;
      return;
    }
    if(st.uid != f.st.uid || st.gid != f.st.gid) { n.cOwner = true; st.uid = f.st.uid; st.gid = f.st.gid; }
    if(st.type == ST_lnk) { if(*st.data != *f.st.data) { n.cData = true; st.data = f.st.data; } return; }
    if(st.mode != f.st.mode) { n.cMode = true; st.mode = f.st.mode; }
    if(st.mtime != f.st.mtime) { n.cTime = true; st.mtime = f.st.mtime; }
    if(st.type == ST_reg)
    {
      if(st.size != f.st.size) { n.cData = true; st.size = f.st.size; st.data = f.st.data; }
      else if(n.cTime && st.size > 0 && !sameContent(st, f.st)) { n.cData = true; st.data = f.st.data; }
    }
  }
  void notFound(const CNode *cn, int pol, std::map<std::string, MNodeP> &list)
  {
    for(auto &e : list)
    {
      MNode &s = *e.second;
      if(s.hint != H_none || s.polChanged || s.losesHist || s.any()) continue;
      const CNode *hit = nullptr;
      if(cn) for(auto &k : cn->subs) if(k->rx ? k->rx->match(s.name) : k->name == s.name) { hit = k.get(); break; }
      if(hit) removed(s, hit->pol);
      else if(pol == P_none || c.ignored(s.path)) wipeRec(s);
      else removed(s, pol);
    }
  }
  void visit(const std::string &path, std::map<std::string, MNodeP> &list)
  {
    const Found &f = found.at(path);
    if(f.other) return;
    std::string name = path.substr(path.rfind('/') + 1);
    auto it = list.find(name);
    MNodeP np;
    if(it == list.end())
    {
      np = std::make_shared<MNode>();
      np->name = name; np->path = path; np->pol = f.pol; np->hint = H_added;
      np->hist.push_back({cur, f.st});
      list[name] = np;
    }
    else if(it->second->hint == H_wiped) // forgotten earlier in this run, but found again
    {
      np = it->second;
      np->pol = f.pol; np->hint = H_added; np->polChanged = np->losesHist = false;
      np->hist.assign(1, {cur, f.st});
    }
    else
    {
      np = it->second;
      MNode &n = *np;
      policy(n, f.pol);
      if(f.pol != P_track)
      {
        changes(n, n.hist[0].st, f);
        if(n.hint != H_none || n.any() || f.pol == P_none) n.hist[0].seq = cur;
      }
      else if(n.hist[0].st.type == ST_gone) { n.hint = H_added; n.hist.insert(n.hist.begin(), {cur, f.st}); }
      else
      {
        MState st = n.hist[0].st;
        changes(n, st, f);
        if(n.hint != H_none || n.any()) n.hist.insert(n.hist.begin(), {cur, st});
      }
    }
    MNode &n = *np;
    if(f.st.type == ST_dir)
      for(auto &k : kids[path]) visit(k, n.subs);
    if(n.hint == H_type && n.fromType == ST_dir)
    {
      if(f.pol == P_none || f.pol == P_track) for(auto &e : n.subs) markRemoved(*e.second, f.pol == P_track);
      else for(auto &e : n.subs) wipeRec(*e.second);
    }
    else if(f.pol == P_track && n.hist[0].st.type != ST_dir) for(auto &e : n.subs) markRemoved(*e.second, false);
    else notFound(f.node, f.pol, n.subs);
    if(f.pol == P_none)
    {
      bool needed = false;
      for(auto &e : n.subs) if(e.second->hint != H_wiped) needed = true;
      if(!needed) wipe(n);
    }
    if(n.hint == H_none && !n.any() && !n.polChanged && !n.losesHist) n.hint = H_same;
  }
  // --- the printed list
  static const MState &existing(const MNode &n) { return n.hist[0].st.type == ST_gone && n.hist.size() > 1 ? n.hist[1].st : n.hist[0].st; }
  static int bits(const MNode &n) { return (n.cOwner ? 16 : 0) | (n.cMode ? 32 : 0) | (n.cTime ? 64 : 0); }
  // a hint other than "unchanged" is set
  static bool beyondSame(const MNode &n) { return n.hint > H_same || n.any() || n.polChanged || n.losesHist; }
  static bool onlyTime(const MNode &n) { return n.hint == H_none && n.cTime && !n.cOwner && !n.cMode && !n.cData && !n.polChanged && !n.losesHist; }
  void addNode(const MNode &n, Summary &s, bool tsBySub)
  {
    const MState &st = existing(n);
    uint64_t size = st.type == ST_reg ? st.size : 0;
    if(n.hint == H_added) { s.added.add(1, size); s.parentTs = true; }
    else if(n.hint == H_removed) { s.removed.add(1, size); s.parentTs = true; }
    else if(n.hint == H_wiped) { s.lost.add(1, size); if(n.pol == P_mirror && !n.polChanged) s.parentTs = true; }
    else if(n.cData) { s.changed.add(1, size); s.parentTs = true; s.attrs += (n.cOwner ? 1 : 0) + (n.cMode ? 1 : 0); }
    else if(beyondSame(n))
    {
      // attribute changes of directories that no rule selects do not count on their own
      bool pureAttr = n.hint == H_none && !n.polChanged && !n.losesHist && bits(n);
      if(n.pol == P_none && pureAttr) return;
      s.other = true;
      if(n.hint == H_type) s.parentTs = true;
      s.attrs += (n.cOwner ? 1 : 0) + (n.cMode ? 1 : 0);
      if(onlyTime(n) && !tsBySub) s.attrs++;
    }
  }
  static void addSum(Summary &a, const Summary &b)
  {
    a.added.add(b.added); a.removed.add(b.removed); a.lost.add(b.lost); a.changed.add(b.changed);
    a.attrs += b.attrs; a.other |= b.other;
  }
  void print(const MNode &n, const Summary &sub, bool summarize)
  {
    PrintLine l;
    const MState &st = existing(n);
    l.path = n.path;
    l.type = st.type == ST_lnk ? 'l' : st.type == ST_dir ? 'd' : 'f';
    if(n.hint == H_added) l.mark = "++";
    else if(n.hint == H_removed) l.mark = "--";
    else if(n.hint == H_wiped) l.mark = n.pol == P_mirror ? "xx" : "??";
    else if(n.hint == H_type) l.mark = "<>";
    else if(n.cData) l.mark = "!!";
    else if(summarize && sub.contents()) { l.mark = "!!"; l.dots = true; }
    else if(n.any() || n.hint == H_same) { l.mark = "@@"; if(summarize && sub.attrs > 0) l.dots = true; }
    else l.mark = "::";
    if(n.hint == H_type)
    {
      auto nm = [](int t) { return std::string(t == ST_reg ? "File" : t == ST_lnk ? "Symlink" : t == ST_dir ? "Directory" : "Other"); };
      // the type found now: for unselected directories the state keeps the old one
      int now = st.type;
      auto it = found.find(n.path);
      if(it != found.end()) now = it->second.st.type;
      l.typeChange = nm(n.fromType) + " -> " + nm(now);
    }
    l.owner = n.cOwner; l.perm = n.cMode;
    if(n.hist[0].st.type != ST_lnk && n.cTime != n.cData && !sub.parentTs) { if(n.cTime) l.time = true; else l.sameTime = true; }
    l.policy = n.polChanged; l.loses = n.losesHist;
    int now = n.hint == H_type ? (found.count(n.path) ? found.at(n.path).st.type : st.type) : 0;
    if(st.type == ST_dir)
    {
      if(n.hint == H_added || (n.hint == H_type && now == ST_dir)) { l.plus = (int64_t)sub.added.n; l.plusSize = sub.added.size; }
      else if(n.hint == H_removed) { l.minus = (int64_t)sub.removed.n; l.minusSize = sub.removed.size; }
      else if(n.hint == H_wiped) { l.minus = (int64_t)sub.lost.n; l.minusSize = sub.lost.size; }
      else if(summarize)
      {
        if(sub.added.n) { l.plus = (int64_t)sub.added.n; l.plusSize = sub.added.size; }
        if(sub.removed.n + sub.lost.n) { l.minus = (int64_t)(sub.removed.n + sub.lost.n); l.minusSize = sub.removed.size + sub.lost.size; }
        if(sub.changed.n) l.changed = (int64_t)sub.changed.n;
        if(sub.attrs) l.metaChanged = (int64_t)sub.attrs;
      }
    }
    else if(n.hint == H_type && n.fromType == ST_dir) { l.minus = (int64_t)(sub.removed.n + sub.lost.n); l.minusSize = sub.removed.size + sub.lost.size; }
    if(st.type == ST_lnk) l.target = *st.data;
    res.lines.push_back(l);
  }
  Summary recurse(std::map<std::string, MNodeP> &list, bool sumRules, bool doPrint)
  {
    Summary all;
    for(auto &e : list)
    {
      const MNode &n = *e.second;
      bool asked = n.pol != P_none && existing(n).type == ST_dir && sumRules;
      if(asked) res.summaryTests.push_back(n.path);
      bool summarize = asked && c.summarized(n.path);
      bool down = sumRules && !summarize;
      Summary sub;
      auto &subs = e.second->subs;
      if(doPrint && summarize)
      {
        sub = recurse(subs, down, false);
        if(beyondSame(n) || sub.changes()) print(n, sub, true);
      }
      else if(doPrint && beyondSame(n) &&
              !(n.pol == P_none && !n.polChanged && !n.losesHist &&
                (n.hint == H_added || (n.hint == H_none && !n.cData && bits(n)))))
      {
        bool subPrint = n.hint <= H_same && n.any();
        sub = recurse(subs, down, subPrint);
        if(!(onlyTime(n) && sub.parentTs)) print(n, sub, summarize);
      }
      else sub = recurse(subs, down, doPrint);
      addNode(n, all, sub.parentTs);
      addSum(all, sub);
    }
    return all;
  }
};
}

static void prune(std::map<std::string, MNodeP> &list)
{
  for(auto it = list.begin(); it != list.end();)
  {
    if(it->second->hint == H_wiped) { it = list.erase(it); continue; }
    MNode &n = *it->second;
    prune(n.subs);
    ++it;
  }
}
static void clearHints(std::map<std::string, MNodeP> &list)
{
  for(auto &e : list)
  {
    MNode &n = *e.second;
    n.hint = 0; n.fromType = 0; n.polChanged = n.losesHist = n.cOwner = n.cMode = n.cTime = n.cData = false;
    clearHints(n.subs);
  }
}
RunResult Model::backup(const FS &fs, const Conf &c, bool commit)
{
  RunResult res;
  if(!c.ok) { res.dies = true; res.why = "config: " + c.err; return res; }
  Model copy = *this;
  Run r{copy, fs, c, res, {}, {}, seq + 1};
  std::string err;
  r.found = searchFs(fs, c, err);
  if(!err.empty()) { res.dies = true; res.why = err; return res; }
  std::vector<std::string> top;
  for(auto &e : r.found)
  {
    size_t s = e.first.rfind('/');
    if(s == 0) top.push_back(e.first); else r.kids[e.first.substr(0, s)].push_back(e.first);
  }
  for(auto &t : top) r.visit(t, copy.root);
  r.notFound(c.root.get(), c.root->pol, copy.root);
  res.sum = r.recurse(copy.root, true, true);
  res.asks = res.sum.changes();
  if(commit && res.asks)
  {
    prune(copy.root);
    clearHints(copy.root);
    copy.seq = seq + 1;
    *this = copy;
  }
  return res;
}
// Rounded down to a tenth of the largest unit that keeps it above zero.
std::string humanSize(uint64_t size)
{
  static const char units[] = "bKMGT";
  int u = 0;
  unsigned __int128 scaled = (unsigned __int128)size * 10, one = 1;
  while(scaled > 9999 * one && u + 2 < (int)sizeof units) { one *= 1024; u++; }
  if(!u) return std::to_string(size) + " b";
  uint64_t tenths = (uint64_t)(scaled / one);
  return std::to_string(tenths / 10) + "." + std::to_string(tenths % 10) + " " + units[u] + "iB";
}
std::string PrintLine::text() const
{
  std::string t = mark + " " + (type == 'l' ? "^" : "") + path + (type == 'd' ? "/" : "") + (dots ? "..." : "");
  std::vector<std::string> d;
  auto items = [&](int64_t n, uint64_t size, const std::string &sign) {
    d.push_back((n > 0 ? sign : "") + std::to_string(n) + " item" + (n == 1 ? "" : "s"));
    if(size) d.push_back(sign + humanSize(size));
  };
  if(!typeChange.empty()) d.push_back(typeChange);
  if(owner) d.push_back("owner");
  if(perm) d.push_back("permissions");
  if(time) d.push_back("timestamp");
  if(sameTime) d.push_back("same timestamp");
  if(policy) d.push_back("policy changed");
  if(loses) d.push_back("looses history");
  if(plus >= 0) items(plus, plusSize, "+");
  if(minus >= 0) items(minus, minusSize, "-");
  if(changed >= 0) d.push_back(std::to_string(changed) + " changed");
  if(metaChanged >= 0) d.push_back(std::to_string(metaChanged) + " metadata change" + (metaChanged == 1 ? "" : "s"));
  for(size_t i = 0; i < d.size(); i++) t += (i ? ", " : " (") + d[i];
  if(!d.empty()) t += ")";
  if(type == 'l') t += " -> " + target;
  return t;
}
// The counterpart of Run::changes: what a restore has to do to one path.
static void restoreHint(Run &r, MNode &n, const FS &fs, bool &mayExist)
{
  const MState &st = n.hist[0].st;
  Ino i = mayExist ? fs.lookup(n.path, false) : 0;
  if(!i) { n.hint = H_added; mayExist = false; return; }
  if(st.type == ST_dir)
  {
    Ino j = fs.lookup(n.path, true);
    if(j && fs.vol.get(j)->type == FT::Dir) i = j;
  }
  const Inode *f = fs.vol.get(i);
  int t = f->type == FT::Reg ? ST_reg : f->type == FT::Lnk ? ST_lnk : f->type == FT::Dir ? ST_dir : 4;
  if(t != st.type) { n.hint = H_type; n.fromType = t; mayExist = false; return; }
  MState now = stateOf(f);
  n.cOwner = now.uid != st.uid || now.gid != st.gid;
  if(t == ST_lnk) { n.cData = *now.data != *st.data; return; }
  n.cMode = (now.mode & 07777) != (st.mode & 07777);
  n.cTime = now.mtime != st.mtime;
  if(t == ST_reg) n.cData = now.size != st.size || (n.cTime && st.size && !r.sameContent(now, st));
}
static bool atBackup(MNode &n, int minSeq)
{
  if(n.pol == P_track) while(!n.hist.empty() && n.hist[0].seq > minSeq) n.hist.erase(n.hist.begin());
  return !n.hist.empty() && n.hist[0].st.type != ST_gone;
}
static void restoreAll(Run &r, MNode &n, int minSeq, const FS &fs, bool mayExist)
{
  restoreHint(r, n, fs, mayExist);
  if(n.hist[0].st.type != ST_dir) { n.subs.clear(); return; }
  for(auto it = n.subs.begin(); it != n.subs.end();)
    if(!atBackup(*it->second, minSeq)) it = n.subs.erase(it);
    else { restoreAll(r, *it->second, minSeq, fs, mayExist); ++it; }
}
RunResult Model::restore(const FS &fs, int id, const std::string &path) const
{
  RunResult res;
  Model copy = *this;
  Conf c;
  Run r{copy, fs, c, res, {}, {}, 0};
  auto s = seqs();
  int minSeq = id < (int)s.size() ? s[(size_t)id] : (s.empty() ? 0 : s.back() - 1);
  clearHints(copy.root);
  std::map<std::string, MNodeP> *list = &copy.root;
  bool mayExist = true;
  if(path.empty())
  {
    for(auto it = list->begin(); it != list->end();)
      if(!atBackup(*it->second, minSeq)) it = list->erase(it);
      else { restoreAll(r, *it->second, minSeq, fs, mayExist); ++it; }
  }
  else
    for(size_t i = 1; i <= path.size();)
    {
      size_t e = path.find('/', i);
      if(e == std::string::npos) e = path.size();
      std::string name = path.substr(i, e - i);
      bool last = e == path.size();
      i = e + 1;
      if(!list->count(name)) { res.dies = true; res.why = path; return res; }
      MNodeP n = list->at(name);
      list->clear();
      (*list)[name] = n;
      if(!atBackup(*n, minSeq) || (!last && n->hist[0].st.type != ST_dir)) { res.dies = true; res.why = n->path; return res; }
      if(last) restoreAll(r, *n, minSeq, fs, mayExist); else restoreHint(r, *n, fs, mayExist);
      list = &n->subs;
    }
  res.sum = r.recurse(copy.root, true, true);
  res.asks = res.sum.changes();
  return res;
}
static void walk(const std::map<std::string, MNodeP> &l, const std::function<void(const MNode &)> &f)
{
  for(auto &e : l) { f(*e.second); walk(e.second->subs, f); }
}
void Model::forAll(const std::function<void(const MNode &)> &f) const { walk(root, f); }
std::vector<int> Model::seqs() const
{
  std::set<int> s;
  forAll([&](const MNode &n) { for(auto &p : n.hist) s.insert(p.seq); });
  return std::vector<int>(s.rbegin(), s.rend());
}
int Model::ids() const { return (int)seqs().size(); }
static void treeRec(const std::map<std::string, MNodeP> &l, int minSeq, std::map<std::string, std::pair<MState, int>> &out)
{
  for(auto &e : l)
  {
    const MNode &n = *e.second;
    const MState *st = nullptr;
    if(n.pol != P_track) st = &n.hist[0].st;
    else
      for(auto &p : n.hist) if(p.seq <= minSeq) { st = &p.st; break; }
    if(!st || st->type == ST_gone) continue;
    out[n.path] = {*st, n.pol};
    if(st->type == ST_dir) treeRec(n.subs, minSeq, out);
  }
}
std::map<std::string, std::pair<MState, int>> Model::tree(int id) const
{
  std::map<std::string, std::pair<MState, int>> out;
  auto s = seqs();
  if(id < 0) return out;
  // Ids beyond the oldest backup: nothing tracked exists yet.
  int minSeq = id < (int)s.size() ? s[(size_t)id] : (s.empty() ? 0 : s.back() - 1);
  treeRec(root, minSeq, out);
  return out;
}
