#include "simfs.h"
#include <algorithm>
#include <cstring>

Blob mkblob(std::string s) { return std::make_shared<const std::string>(std::move(s)); }
static const Blob &emptyBlob() { static Blob b = mkblob(""); return b; }

FS::FS()
{
  auto r = std::make_shared<Inode>();
  r->type = FT::Dir; r->mode = 0755; r->parent = 1;
  vol.nodes[1] = r;
  dur.nodes[1] = r;
}

static void setEnt(Image &im, Ino dir, const std::string &name, Ino ino)
{
  const Inode *d = im.get(dir);
  if(!d) return;
  Inode &w = im.w(dir);
  if(ino == 0) w.ents.erase(name);
  else
  {
    w.ents[name] = ino;
    const Inode *c = im.get(ino);
    if(c && c->type == FT::Dir && c->parent != dir) im.w(ino).parent = dir;
  }
}

// Keeps the number of names of the volatile view.
static void setEntVol(Image &im, Ino dir, const std::string &name, Ino ino)
{
  const Inode *d = im.get(dir);
  if(!d) return;
  auto o = d->ents.find(name);
  Ino old = o == d->ents.end() ? 0 : o->second;
  if(old == ino) return;
  setEnt(im, dir, name, ino);
  if(old) if(const Inode *n = im.get(old)) if(n->type != FT::Dir) im.w(old).nlink--;
  if(ino) if(const Inode *n = im.get(ino)) if(n->type != FT::Dir) im.w(ino).nlink++;
}
static void countLinks(Image &im)
{
  std::map<Ino, uint16_t> c;
  for(auto &p : im.nodes) for(auto &e : p.second->ents) c[e.second]++;
  for(auto &p : im.nodes)
  {
    auto i = c.find(p.first);
    uint16_t k = p.second->type == FT::Dir || i == c.end() ? 0 : i->second;
    if(p.second->nlink != k) im.w(p.first).nlink = k;
  }
}

void FS::applyEnt(const Op &op) { for(auto &e : op.ents) setEnt(dur, e.dir, e.name, e.ino); }

static void patch(std::string &s, uint64_t off, const std::string &b)
{
  if(s.size() < off + b.size()) s.resize(off + b.size(), '\0');
  memcpy(&s[off], b.data(), b.size());
}
void FS::applyData(const Op &op)
{
  if(!dur.get(op.ino)) return;
  Inode &n = dur.w(op.ino);
  std::string s = *n.data;
  if(op.k == Op::Data) patch(s, op.off, *op.bytes);
  else s.resize(op.off, '\0');
  n.data = mkblob(std::move(s));
}

void FS::pushEnt(std::vector<Op::E> e)
{
  version++;
  for(auto &x : e) setEntVol(vol, x.dir, x.name, x.ino);
  if(!track) { for(auto &x : e) setEnt(dur, x.dir, x.name, x.ino); return; }
  Op op; op.k = Op::Ent; op.ents = std::move(e);
  log.push_back(std::move(op));
}

void FS::touchDir(Ino dir, int64_t now)
{
  const Inode *d = vol.get(dir);
  if(d) setAttr(dir, d->mode, d->uid, d->gid, now);
}

Ino FS::create(Ino dir, const std::string &name, FT t, uint32_t mode, uint32_t uid, uint32_t gid, int64_t now, const std::string &target)
{
  Ino ino = next++;
  auto n = std::make_shared<Inode>();
  n->type = t; n->mode = mode; n->uid = uid; n->gid = gid; n->mtime = now;
  n->data = t == FT::Lnk ? mkblob(target) : emptyBlob();
  n->dev = vol.get(dir)->dev;
  if(t == FT::Dir) n->parent = dir;
  vol.nodes[ino] = n;
  dur.nodes[ino] = n; // orphan until its entry is durable
  pushEnt({{dir, name, ino}});
  touchDir(dir, now);
  return ino;
}
void FS::unlink(Ino dir, const std::string &name, int64_t now)
{
  pushEnt({{dir, name, 0}});
  touchDir(dir, now);
}
void FS::rename(Ino sd, const std::string &sn, Ino dd, const std::string &dn, int64_t now)
{
  Ino ino = vol.get(sd)->ents.at(sn);
  if(sd == dd && sn == dn) return;
  pushEnt({{sd, sn, 0}, {dd, dn, ino}});
  touchDir(sd, now);
  if(dd != sd) touchDir(dd, now);
}
void FS::link(Ino ino, Ino dd, const std::string &dn, int64_t now)
{
  pushEnt({{dd, dn, ino}});
  touchDir(dd, now);
}
void FS::write(Ino ino, uint64_t off, const char *p, size_t n, int64_t now)
{
  version++;
  Inode &i = vol.w(ino);
  Blob b = mkblob(std::string(p, n));
  if(i.data.use_count() == 1) patch(const_cast<std::string &>(*i.data), off, *b);
  else
  {
    std::string s = *i.data;
    patch(s, off, *b);
    i.data = mkblob(std::move(s));
  }
  Op op; op.k = Op::Data; op.ino = ino; op.off = off; op.bytes = b;
  if(track) log.push_back(op); else applyData(op);
  setAttr(ino, i.mode, i.uid, i.gid, now);
}
void FS::truncate(Ino ino, uint64_t size, int64_t now)
{
  version++;
  Inode &i = vol.w(ino);
  std::string s = *i.data;
  s.resize(size, '\0');
  i.data = mkblob(std::move(s));
  Op op; op.k = Op::Trunc; op.ino = ino; op.off = size;
  if(track) log.push_back(op); else applyData(op);
  setAttr(ino, i.mode, i.uid, i.gid, now);
}
void FS::setAttr(Ino ino, uint32_t mode, uint32_t uid, uint32_t gid, int64_t mtime)
{
  const Inode *c = vol.get(ino);
  if(c->mode == mode && c->uid == uid && c->gid == gid && c->mtime == mtime) return;
  version++;
  Inode &i = vol.w(ino);
  i.mode = mode; i.uid = uid; i.gid = gid; i.mtime = mtime;
  if(track)
  {
    if(!log.empty() && log.back().k == Op::Attr && log.back().ino == ino && 0) return;
    Op op; op.k = Op::Attr; op.ino = ino; op.mode = mode; op.uid = uid; op.gid = gid; op.mtime = mtime;
    log.push_back(op);
  }
  else if(dur.get(ino))
  {
    Inode &d = dur.w(ino);
    d.mode = mode; d.uid = uid; d.gid = gid; d.mtime = mtime;
  }
}

static void applyAttr(Image &dur, const Op &op)
{
  if(!dur.get(op.ino)) return;
  Inode &d = dur.w(op.ino);
  d.mode = op.mode; d.uid = op.uid; d.gid = op.gid; d.mtime = op.mtime;
}

void FS::syncAll()
{
  log.clear();
  dur = vol;
}
// Makes everything durable that does not lie below the given directory.
void FS::syncOutside(Ino top)
{
  if(log.empty()) return;
  std::set<Ino> in;
  std::vector<Ino> todo{top};
  while(!todo.empty())
  {
    Ino i = todo.back(); todo.pop_back();
    if(!in.insert(i).second) continue;
    for(const Image *im : {&vol, &dur})
      if(const Inode *n = im->get(i)) for(auto &e : n->ents) todo.push_back(e.second);
  }
  for(auto &op : log) // inodes that pending operations put below it
    if(op.k == Op::Ent) for(auto &e : op.ents) if(e.ino && in.count(e.dir)) in.insert(e.ino);
  std::vector<Op> rest;
  for(auto &op : log)
  {
    bool inside = op.k == Op::Ent ? false : in.count(op.ino) != 0;
    if(op.k == Op::Ent) for(auto &e : op.ents) if(in.count(e.dir)) inside = true;
    if(inside) rest.push_back(std::move(op));
    else if(op.k == Op::Ent) applyEnt(op);
    else if(op.k == Op::Attr)
    {
      if(dur.get(op.ino)) { Inode &d = dur.w(op.ino); d.mode = op.mode; d.uid = op.uid; d.gid = op.gid; d.mtime = op.mtime; }
    }
    else applyData(op);
  }
  log = std::move(rest);
}
void FS::compact()
{
  if(!log.empty()) return;
  std::map<Ino, std::shared_ptr<Inode>> keep;
  std::vector<Ino> todo{1};
  while(!todo.empty())
  {
    Ino i = todo.back(); todo.pop_back();
    if(!keep.insert({i, vol.nodes[i]}).second) continue;
    for(auto &e : vol.nodes[i]->ents) todo.push_back(e.second);
  }
  vol.nodes = keep;
  dur = vol;
}

void FS::syncData(Ino ino, bool ordered)
{
  std::vector<Op> rest;
  for(auto &op : log)
  {
    if((op.k == Op::Data || op.k == Op::Trunc) && op.ino == ino) { if(!op.doomed) applyData(op); }
    else if(op.k == Op::Attr && (op.ino == ino || ordered)) applyAttr(dur, op);
    else if(op.k == Op::Ent && ordered) applyEnt(op);
    else rest.push_back(std::move(op));
  }
  log = std::move(rest);
}
void FS::failSync(Ino ino)
{
  for(auto &op : log)
    if((op.k == Op::Data || op.k == Op::Trunc) && op.ino == ino) op.doomed = true;
}
void FS::syncDir(Ino dir, bool ordered)
{
  // Backward closure: an operation on an entry needs all earlier ones on it.
  std::vector<char> take(log.size(), 0);
  std::set<std::pair<Ino, std::string>> need;
  for(size_t i = log.size(); i-- > 0;)
  {
    auto &op = log[i];
    if(op.k == Op::Attr && (ordered || op.ino == dir)) take[i] = 1;
    if(op.k != Op::Ent) continue;
    bool t = ordered;
    for(auto &e : op.ents) if(e.dir == dir || need.count({e.dir, e.name})) t = true;
    if(t) { take[i] = 1; for(auto &e : op.ents) need.insert({e.dir, e.name}); }
  }
  std::vector<Op> rest;
  for(size_t i = 0; i < log.size(); i++)
  {
    if(!take[i]) rest.push_back(std::move(log[i]));
    else if(log[i].k == Op::Ent) applyEnt(log[i]);
    else applyAttr(dur, log[i]);
  }
  log = std::move(rest);
}

// Makes all pending changes of one directory entry durable.
void FS::syncEntry(Ino dir, const std::string &name)
{
  std::vector<Op> rest;
  for(auto &op : log)
  {
    bool hit = op.k == Op::Ent && op.ents.size() == 1 && op.ents[0].dir == dir && op.ents[0].name == name;
    if(hit) applyEnt(op); else rest.push_back(std::move(op));
  }
  log = std::move(rest);
}

void FS::powerLoss(int mode, uint64_t seed)
{
  Rng r(seed);
  version++;
  if(mode == CM_All) { syncAll(); return; }
  std::vector<char> take(log.size(), 0);
  std::vector<size_t> meta;
  for(size_t i = 0; i < log.size(); i++) if(log[i].k == Op::Ent) meta.push_back(i);
  if(mode == CM_Ordered)
  {
    size_t cut = r.below(meta.size() + 1);
    size_t limit = cut == 0 ? 0 : meta[cut - 1] + 1;
    for(size_t i = 0; i < limit; i++) if(log[i].k == Op::Ent || log[i].k == Op::Attr) take[i] = 1;
  }
  else if(mode == CM_Weak)
  {
    static const double ps[] = {0.0, 0.1, 0.35, 0.5, 0.65, 0.9, 1.0};
    double p = ps[r.below(7)];
    std::set<std::pair<Ino, std::string>> need;
    for(size_t j = meta.size(); j-- > 0;)
    {
      auto &op = log[meta[j]];
      bool t = r.chance(p);
      for(auto &e : op.ents) if(need.count({e.dir, e.name})) t = true;
      if(t) { take[meta[j]] = 1; for(auto &e : op.ents) need.insert({e.dir, e.name}); }
    }
    std::map<Ino, int> attrPrefix; // attributes: a prefix per inode
    double pa = ps[r.below(7)];
    for(size_t i = 0; i < log.size(); i++)
      if(log[i].k == Op::Attr)
      {
        auto it = attrPrefix.find(log[i].ino);
        if(it == attrPrefix.end()) it = attrPrefix.insert({log[i].ino, 1}).first;
        if(it->second && !r.chance(pa)) it->second = 0;
        take[i] = it->second;
      }
  }
  for(size_t i = 0; i < log.size(); i++)
  {
    if(!take[i]) continue;
    if(log[i].k == Op::Ent) applyEnt(log[i]);
    else applyAttr(dur, log[i]);
  }
  if(mode != CM_None)
  {
    // unsynced file data: per inode nothing, a (torn) prefix, everything, or the size without the data
    std::map<Ino, std::vector<size_t>> data;
    for(size_t i = 0; i < log.size(); i++)
      if(log[i].k == Op::Data || log[i].k == Op::Trunc) data[log[i].ino].push_back(i);
    double pz = r.pick({0.0, 0.3, 0.9});
    for(auto &[ino, ops] : data)
    {
      if(!dur.get(ino)) continue;
      int how = (int)r.below(4);
      if(r.chance(pz)) how = 3;
      if(how == 0) continue;
      size_t n = how == 1 ? r.below(ops.size() + 1) : ops.size();
      // Size and modification time are parts of the same inode: a change of the content that arrived brings its time.
      for(size_t j = n ? ops[n - 1] + 1 : log.size(); j < log.size(); j++)
        if(log[j].k == Op::Attr && log[j].ino == ino) { if(!take[j]) applyAttr(dur, log[j]); break; }
      if(how == 3)
      {
        const Inode *v = vol.get(ino);
        Inode &d = dur.w(ino);
        std::string s = *d.data;
        size_t old = s.size();
        s.resize(v ? v->data->size() : old, '\0');
        if(r.chance(0.3)) for(size_t i = old; i < s.size(); i++) s[i] = (char)r.u64();
        d.data = mkblob(std::move(s));
        continue;
      }
      for(size_t j = 0; j < n; j++) applyData(log[ops[j]]);
      if(how == 1 && n < ops.size() && log[ops[n]].k == Op::Data && r.chance(0.7))
      {
        Op part = log[ops[n]];
        part.bytes = mkblob(part.bytes->substr(0, r.below(part.bytes->size() + 1)));
        applyData(part);
      }
    }
  }
  log.clear();
  // drop orphans
  Image fresh;
  std::vector<Ino> todo{1};
  while(!todo.empty())
  {
    Ino i = todo.back(); todo.pop_back();
    if(fresh.nodes.count(i)) continue;
    fresh.nodes[i] = dur.nodes[i];
    for(auto &e : dur.nodes[i]->ents) todo.push_back(e.second);
  }
  dur = std::move(fresh);
  vol = dur;
  countLinks(vol);
}

Ino FS::lookupIn(Ino dir, const std::string &path, bool follow, int depth) const
{
  if(depth > 40) return 0;
  Ino cur = dir;
  if(!path.empty() && path[0] == '/') cur = 1;
  size_t i = 0;
  while(i < path.size())
  {
    while(i < path.size() && path[i] == '/') i++;
    if(i >= path.size()) break;
    size_t e = path.find('/', i);
    if(e == std::string::npos) e = path.size();
    std::string name = path.substr(i, e - i);
    bool last = path.find_first_not_of('/', e) == std::string::npos;
    const Inode *d = vol.get(cur);
    if(!d || d->type != FT::Dir) return 0;
    if(name == ".") { i = e; continue; }
    if(name == "..") { cur = d->parent; i = e; continue; }
    auto it = d->ents.find(name);
    if(it == d->ents.end()) return 0;
    Ino child = it->second;
    const Inode *c = vol.get(child);
    if(c->type == FT::Lnk && (!last || follow || e < path.size()))
    {
      Ino t = lookupIn(cur, *c->data, true, depth + 1);
      if(!t) return 0;
      child = t;
    }
    cur = child;
    if(e < path.size() && vol.get(cur)->type != FT::Dir) return 0; // "file/"
    i = e;
  }
  return cur;
}
Ino FS::lookup(const std::string &path, bool follow, int depth) const { return lookupIn(1, path, follow, depth); }

void FS::removeTree(Ino dir, const std::string &name, int64_t now)
{
  const Inode *d = vol.get(dir);
  auto it = d->ents.find(name);
  if(it == d->ents.end()) return;
  Ino i = it->second;
  const Inode *n = vol.get(i);
  if(n->type == FT::Dir)
  {
    std::vector<std::string> names;
    for(auto &e : n->ents) names.push_back(e.first);
    for(auto &x : names) removeTree(i, x, now);
  }
  unlink(dir, name, now);
}

static void snapRec(const Image &im, Ino ino, const std::string &path, Tree &out, const std::string &exclude)
{
  if(!exclude.empty() && path == exclude) return;
  const Inode *n = im.get(ino);
  out[path.empty() ? "/" : path] = Entry{n->type, n->mode, n->uid, n->gid, n->mtime, n->type == FT::Dir || n->type == FT::Fifo ? nullptr : n->data};
  for(auto &e : n->ents) snapRec(im, e.second, path + "/" + e.first, out, exclude);
}
void FS::snapshot(const std::string &path, Tree &out, const std::string &exclude) const
{
  Ino i = lookup(path, false);
  if(i) snapRec(vol, i, path == "/" ? "" : path, out, exclude);
}
void FS::hashTree(Ino ino, Hash &h, bool attrs) const
{
  const Inode *n = vol.get(ino);
  h.add((uint64_t)n->type);
  if(attrs) { h.add(n->mode); h.add(((uint64_t)n->uid << 32) | n->gid); h.add((uint64_t)n->mtime); }
  if(n->type == FT::Dir)
  {
    for(auto &e : n->ents) { h.add(e.first); hashTree(e.second, h, attrs); }
    h.add(0x77);
  }
  else if(n->data) h.add(*n->data);
}
std::string FS::pathOf(Ino ino) const
{
  if(ino == 1) return "/";
  const Inode *n = vol.get(ino);
  if(!n) return "?";
  if(n->type == FT::Dir)
  {
    const Inode *p = vol.get(n->parent);
    if(p) for(auto &e : p->ents) if(e.second == ino)
    {
      std::string b = pathOf(n->parent);
      return (b == "/" ? "" : b) + "/" + e.first;
    }
  }
  return "?";
}
std::string normPath(const std::string &p)
{
  std::vector<std::string> parts;
  size_t i = 0;
  while(i < p.size())
  {
    size_t e = p.find('/', i);
    if(e == std::string::npos) e = p.size();
    std::string s = p.substr(i, e - i);
    if(s == "..") { if(!parts.empty()) parts.pop_back(); }
    else if(!s.empty() && s != ".") parts.push_back(s);
    i = e + 1;
  }
  std::string r;
  for(auto &s : parts) r += "/" + s;
  return r.empty() ? "/" : r;
}
