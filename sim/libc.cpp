#include <cinttypes>
// The libc symbols through which the code under test reaches the world.
// Every one of them is implemented on top of the simulated kernel.
#include "libc.h"
#include "kernel.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <regex.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <utime.h>

struct SFile
{
  int fd = -1;
  bool r = false, w = false, eof = false, err = false;
  size_t cap = 4096;
  std::string wbuf, rbuf;
  size_t rpos = 0;
  std::vector<unsigned char> unget;
};
struct SDir
{
  Ino ino = 0; int fd = -1; std::string path;
  bool loaded = false;
  std::vector<std::pair<std::string, Ino>> ents;
  size_t pos = 0;
  struct dirent de;
};

extern "C" { SFile *sim_stdin, *sim_stdout, *sim_stderr; }

static int fail(int e) { cur->eno = e; return -1; }
#define W (*cur->w)
#define FSV (cur->w->fs)
static int64_t now() { return W.clock; }

// ---------------------------------------------------------------- paths
struct Res { Ino dir = 0; std::string name; Ino ino = 0; int err = 0; bool slash = false; };

static bool may(const Inode *n, int bits)
{
  if(cur->env.uid == 0) return true;
  uint32_t m = n->mode;
  if(n->uid == cur->env.uid) m >>= 6;
  else if(n->gid == cur->env.gid) m >>= 3;
  return (m & bits) == (uint32_t)bits;
}

static Res walk(Ino base, const std::string &path, bool follow, int &links)
{
  Res r;
  if(path.empty()) { r.err = ENOENT; return r; }
  if(path.size() >= 4096) { r.err = ENAMETOOLONG; return r; }
  Ino at = path[0] == '/' ? 1 : base;
  r.dir = at; r.ino = at; r.name = ".";
  size_t i = 0;
  while(true)
  {
    while(i < path.size() && path[i] == '/') i++;
    if(i >= path.size()) break;
    size_t e = path.find('/', i);
    if(e == std::string::npos) e = path.size();
    std::string name = path.substr(i, e - i);
    bool last = path.find_first_not_of('/', e) == std::string::npos;
    r.slash = last && e < path.size();
    const Inode *d = FSV.vol.get(at);
    if(d->type != FT::Dir) { r.err = ENOTDIR; return r; }
    if(!may(d, 1)) { r.err = EACCES; return r; }
    if(name.size() > 255) { r.err = ENAMETOOLONG; return r; }
    r.dir = at; r.name = name;
    Ino child = 0;
    if(name == ".") child = at;
    else if(name == "..") child = d->parent;
    else
    {
      auto it = d->ents.find(name);
      if(it != d->ents.end()) child = it->second;
    }
    if(!child)
    {
      r.ino = 0;
      if(!last) { r.err = ENOENT; }
      return r;
    }
    const Inode *c = FSV.vol.get(child);
    if(c->type == FT::Lnk && (!last || follow || r.slash))
    {
      if(++links > 40) { r.err = ELOOP; return r; }
      Res t = walk(at, *c->data, true, links);
      if(t.err) { r.err = t.err; return r; }
      if(!t.ino)
      {
        if(!last) { r.err = ENOENT; return r; }
        t.slash = r.slash;
        return t; // dangling: the target may be created
      }
      r.dir = t.dir; r.name = t.name;
      child = t.ino;
    }
    at = child; r.ino = child;
    i = e;
  }
  if(r.slash && r.ino && FSV.vol.get(r.ino)->type != FT::Dir) { r.err = ENOTDIR; r.ino = 0; }
  return r;
}
static Ino cwdIno() { Ino i = FSV.lookup(cur->cwd, true); return i ? i : 1; }
static Ino baseOf(int dirfd, int &err)
{
  err = 0;
  if(dirfd == AT_FDCWD) return cwdIno();
  if(dirfd < 0 || (size_t)dirfd >= cur->fds.size() || !cur->fds[dirfd]) { err = EBADF; return 0; }
  return cur->fds[dirfd]->ino;
}
static Res resolve(int dirfd, const char *p, bool follow)
{
  Res r;
  int e; Ino b = baseOf(dirfd, e);
  if(p[0] != '/' && e) { r.err = e; return r; }
  int links = 0;
  return walk(b, p, follow, links);
}
static std::string absPath(int dirfd, const char *p)
{
  if(p[0] == '/') return normPath(p);
  if(dirfd == AT_FDCWD) return normPath(cur->cwd + "/" + p);
  int e; Ino b = baseOf(dirfd, e);
  return e ? std::string(p) : normPath(FSV.pathOf(b) + "/" + p);
}
static bool readOnly(Ino i) { const Inode *n = FSV.vol.get(i); return n && n->dev == 1 && W.ro1; }
static void touch(const std::string &p) { if(cur->touched) cur->touched->insert(p); }
// Space of a file whose last name disappears is free again.
static void refund(Ino i)
{
  const Inode *n = i ? FSV.vol.get(i) : nullptr;
  if(W.freeBytes >= 0 && n && n->type == FT::Reg && n->nlink <= 1) W.freeBytes += (int64_t)n->data->size();
}
static bool spend(int64_t n)
{
  if(W.freeBytes < 0) return true;
  if(W.freeBytes < n) return false;
  W.freeBytes -= n;
  return true;
}
// directory must allow creating / removing entries
static int dirWritable(Ino d)
{
  if(readOnly(d)) return EROFS;
  if(!may(FSV.vol.get(d), 3)) return EACCES;
  return 0;
}

// ---------------------------------------------------------------- files
static std::shared_ptr<OpenFile> getFd(int fd)
{
  if(fd < 0 || (size_t)fd >= cur->fds.size()) return nullptr;
  return cur->fds[fd];
}
static int allocFd(std::shared_ptr<OpenFile> f)
{
  size_t i = 0, n = 1; // the lowest free number
  while(i < cur->fds.size() && cur->fds[i]) i++;
  if(i >= cur->env.nofile) return -1;
  if(i == cur->fds.size()) cur->fds.push_back(f); else cur->fds[i] = f;
  for(auto &o : cur->fds) n += o != nullptr;
  cur->fdPeak = std::max(cur->fdPeak, (uint32_t)n - 1);
  return (int)i;
}

static int doOpen(int dirfd, const char *path, int flags, mode_t mode)
{
  std::string ap = absPath(dirfd, path);
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  if(int e = sysPoint((wr || (flags & O_CREAT)) ? S_openw : S_open, ap)) return fail(e);
  Res r = resolve(dirfd, path, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)));
  if(r.err) return fail(r.err);
  if(!r.ino)
  {
    if(!(flags & O_CREAT)) return fail(ENOENT);
    if(r.slash) return fail(EISDIR);
    if(int e = dirWritable(r.dir)) return fail(e);
    if(!spend(16)) return fail(ENOSPC);
    const Inode *d = FSV.vol.get(r.dir);
    uint32_t gid = (d->mode & S_ISGID) ? d->gid : cur->env.gid;
    r.ino = FSV.create(r.dir, r.name, FT::Reg, mode & 07777 & ~cur->umask_, cur->env.uid, gid, now());
    touch(ap);
  }
  else
  {
    if((flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST);
    const Inode *n = FSV.vol.get(r.ino);
    if(n->type == FT::Lnk) return fail(ELOOP);
    if(n->type == FT::Dir && (wr || (flags & O_CREAT))) return fail(EISDIR);
    if(n->type != FT::Dir && (flags & O_DIRECTORY)) return fail(ENOTDIR);
    if(wr && readOnly(r.ino)) return fail(EROFS);
    if((flags & O_CREAT) && readOnly(r.dir) && wr) return fail(EROFS);
    int need = (flags & O_ACCMODE) == O_RDONLY ? 4 : (flags & O_ACCMODE) == O_WRONLY ? 2 : 6;
    if(!may(n, need)) return fail(EACCES);
    if(n->type == FT::Fifo)
    {
      if(!(flags & O_NONBLOCK)) procEnd(End::Hang, -1, "blocked opening a FIFO: " + ap);
    }
    else if((flags & O_TRUNC) && wr) { refund(r.ino); FSV.truncate(r.ino, 0, now()); touch(ap); }
  }
  auto f = std::make_shared<OpenFile>();
  f->ino = r.ino; f->flags = flags; f->append = flags & O_APPEND; f->path = ap;
  int fd = allocFd(f);
  if(fd < 0) return fail(EMFILE);
  return fd;
}

static void dropLocksOnClose(const std::shared_ptr<OpenFile> &f)
{
  auto it = W.locks.find(f->ino);
  if(it == W.locks.end()) return;
  auto &v = it->second;
  bool lastRef = f.use_count() <= 1;
  for(size_t i = v.size(); i-- > 0;)
    if(v[i].pid == cur->env.pid && (v[i].ofd == nullptr || (v[i].ofd == f.get() && lastRef))) v.erase(v.begin() + i);
  if(v.empty()) W.locks.erase(it);
}

static int doClose(int fd)
{
  auto f = getFd(fd);
  if(!f) return fail(EBADF);
  int e = sysPoint(S_close, f->path);
  cur->fds[fd] = nullptr;
  if(!f->special) dropLocksOnClose(f);
  if(e) return fail(e);
  return 0;
}

static ssize_t doReadAt(std::shared_ptr<OpenFile> f, void *buf, size_t n, uint64_t *pos)
{
  if(f->special == 1)
  {
    if(int e = sysPoint(S_readin, "<stdin>", n)) return fail(e);
    size_t avail = cur->in.size() - cur->inPos;
    size_t k = std::min(n, avail);
    if(cur->env.tty) { size_t nl = cur->in.find('\n', cur->inPos); if(nl != std::string::npos) k = std::min(k, nl + 1 - cur->inPos); }
    if(sysShort >= 0 && k > 1) k = std::min<size_t>(k, (size_t)sysShort);
    memcpy(buf, cur->in.data() + cur->inPos, k);
    cur->inPos += k;
    return (ssize_t)k;
  }
  if(int e = sysPoint(S_read, f->path, n)) return fail(e);
  if(f->special || (f->flags & O_ACCMODE) == O_WRONLY) return fail(EBADF);
  const Inode *i = FSV.vol.get(f->ino);
  if(!i) return fail(EIO);
  if(i->type == FT::Dir) return fail(EISDIR);
  if(i->type == FT::Fifo) return 0;
  const std::string &d = *i->data;
  if(*pos >= d.size()) return 0;
  size_t k = std::min<uint64_t>(n, d.size() - *pos);
  if(sysShort >= 0) k = std::min<size_t>(k, (size_t)sysShort);
  memcpy(buf, d.data() + *pos, k);
  *pos += k;
  return (ssize_t)k;
}
static ssize_t doWriteAt(std::shared_ptr<OpenFile> f, const void *buf, size_t n, uint64_t *pos)
{
  if(f->special == 2 || f->special == 3)
  {
    if(int e = sysPoint(S_writeout, f->special == 2 ? "<stdout>" : "<stderr>", n)) return fail(e);
    (f->special == 2 ? cur->out : cur->err).append((const char *)buf, n);
    return (ssize_t)n;
  }
  if(int e = sysPoint(S_write, f->path, n)) return fail(e);
  if(f->special || (f->flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
  if(n == 0) return 0;
  const Inode *i = FSV.vol.get(f->ino);
  if(!i) return fail(EIO);
  if(f->append) *pos = i->data->size();
  size_t k = n;
  if(sysShort >= 0) k = std::min<size_t>(k, (size_t)sysShort);
  if(W.freeBytes >= 0)
  {
    uint64_t end = *pos + k, size = i->data->size();
    int64_t grow = end > size ? (int64_t)(end - std::max<uint64_t>(size, *pos)) : 0;
    if(grow > W.freeBytes)
    {
      if(W.freeBytes == 0 || (int64_t)k <= grow - W.freeBytes) return fail(ENOSPC);
      k -= (size_t)(grow - W.freeBytes);
      grow = W.freeBytes;
    }
    W.freeBytes -= grow;
  }
  touch(f->path);
  FSV.write(f->ino, *pos, (const char *)buf, k, now());
  if(cur->env.uid != 0)
  {
    i = FSV.vol.get(f->ino);
    uint32_t m = i->mode & ~S_ISUID;
    if(m & S_IXGRP) m &= ~S_ISGID;
    if(m != i->mode) FSV.setAttr(f->ino, m, i->uid, i->gid, i->mtime);
  }
  *pos += k;
  return (ssize_t)k;
}

static void fillStat(struct stat *st, Ino ino)
{
  const Inode *n = FSV.vol.get(ino);
  memset(st, 0, sizeof *st);
  static const mode_t types[] = {S_IFREG, S_IFDIR, S_IFLNK, S_IFIFO};
  st->st_dev = 100 + n->dev;
  st->st_ino = ino;
  st->st_mode = types[(int)n->type] | n->mode;
  st->st_nlink = n->nlink;
  if(n->type == FT::Dir)
  {
    st->st_nlink = 2;
    for(auto &e : n->ents) if(const Inode *c = FSV.vol.get(e.second)) if(c->type == FT::Dir) st->st_nlink++;
  }
  st->st_uid = n->uid; st->st_gid = n->gid;
  st->st_size = n->type == FT::Dir ? (W.fs.next % 3 ? 4096 : 60) : n->type == FT::Fifo ? 0 : (off_t)n->data->size();
  st->st_blksize = cur->env.blksize;
  if(cur->env.blkmix)
  {
    static const blksize_t sizes[] = {512, 4096, 131072, 1024, 65536, 24, 8192};
    uint64_t k = (ino + cur->env.blkmix) * 0x9e3779b97f4a7c15ull;
    st->st_blksize = sizes[(k >> 40) % 7];
  }
  st->st_blocks = cur->env.noblocks ? 0 : (st->st_size + 511) / 512;
  if(cur->env.dirlink && n->type == FT::Dir) st->st_nlink = 1;
  int64_t s = n->mtime / 1000000000, ns = n->mtime % 1000000000;
  if(ns < 0) { ns += 1000000000; s--; }
  st->st_mtim.tv_sec = s; st->st_mtim.tv_nsec = ns;
  // attributes which say nothing about what a backup keeps: file systems differ in them
  uint64_t h = (ino * 0x9E3779B97F4A7C15ull) ^ (cur->env.seed * 0xBF58476D1CE4E5B9ull);
  h ^= h >> 31; h *= 0x94D049BB133111EBull; h ^= h >> 29;
  st->st_atim = st->st_ctim = st->st_mtim;
  if(h % 3) { st->st_ctim.tv_sec = W.clock / 1000000000; st->st_ctim.tv_nsec = (long)(h % 1000000000); }
  if(h / 3 % 3) { st->st_atim.tv_sec = W.clock / 1000000000 - (int64_t)(h / 9 % 100000); st->st_atim.tv_nsec = (long)(h / 7 % 1000000000); }
  if(h / 64 % 4 == 0) st->st_blocks = 0; // sparse, compressed or stored inside of the inode
  if(n->type == FT::Dir && h / 256 % 4 == 0) st->st_nlink = 1;
}

static int doStat(Sys s, int dirfd, const char *path, struct stat *st, bool follow)
{
  if(int e = sysPoint(s, absPath(dirfd, path))) return fail(e);
  Res r = resolve(dirfd, path, follow);
  if(r.err) return fail(r.err);
  if(!r.ino) return fail(ENOENT);
  fillStat(st, r.ino);
  return 0;
}
static int doUnlink(int dirfd, const char *path, bool dir, bool any)
{
  std::string ap = absPath(dirfd, path);
  if(int e = sysPoint(dir ? S_rmdir : S_unlink, ap)) return fail(e);
  Res r = resolve(dirfd, path, false);
  if(r.err) return fail(r.err);
  if(!r.ino) return fail(ENOENT);
  if(r.name == "." || r.name == "..") return fail(r.name == "." ? EINVAL : ENOTEMPTY);
  const Inode *n = FSV.vol.get(r.ino);
  if(r.ino == 1) return fail(EBUSY);
  if(any) dir = n->type == FT::Dir;
  if(int e = dirWritable(r.dir)) return fail(e);
  const Inode *d = FSV.vol.get(r.dir);
  if((d->mode & S_ISVTX) && cur->env.uid != 0 && d->uid != cur->env.uid && n->uid != cur->env.uid) return fail(EPERM);
  if(dir)
  {
    if(n->type != FT::Dir) return fail(ENOTDIR);
    if(!n->ents.empty()) return fail(ENOTEMPTY);
  }
  else if(n->type == FT::Dir) return fail(EISDIR);
  touch(ap);
  refund(r.ino);
  FSV.unlink(r.dir, r.name, now());
  return 0;
}
static int doMkdir(int dirfd, const char *path, mode_t mode)
{
  std::string ap = absPath(dirfd, path);
  if(int e = sysPoint(S_mkdir, ap)) return fail(e);
  Res r = resolve(dirfd, path, false);
  if(r.err) return fail(r.err);
  if(r.ino) return fail(EEXIST);
  if(int e = dirWritable(r.dir)) return fail(e);
  if(!spend(64)) return fail(ENOSPC);
  const Inode *d = FSV.vol.get(r.dir);
  uint32_t gid = cur->env.gid, m = mode & 01777 & ~cur->umask_;
  if(d->mode & S_ISGID) { gid = d->gid; m |= S_ISGID; }
  touch(ap);
  FSV.create(r.dir, r.name, FT::Dir, m, cur->env.uid, gid, now());
  return 0;
}
static int doSymlink(const char *target, int dirfd, const char *path)
{
  std::string ap = absPath(dirfd, path);
  if(int e = sysPoint(S_symlink, ap)) return fail(e);
  if(!*target) return fail(ENOENT);
  if(strlen(target) >= 4096) return fail(ENAMETOOLONG);
  Res r = resolve(dirfd, path, false);
  if(r.err) return fail(r.err);
  if(r.ino) return fail(EEXIST);
  if(r.slash) return fail(ENOENT);
  if(int e = dirWritable(r.dir)) return fail(e);
  if(!spend(32)) return fail(ENOSPC);
  const Inode *d = FSV.vol.get(r.dir);
  touch(ap);
  FSV.create(r.dir, r.name, FT::Lnk, 0777, cur->env.uid, (d->mode & S_ISGID) ? d->gid : cur->env.gid, now(), target);
  return 0;
}
static int doRename(int fd1, const char *a, int fd2, const char *b)
{
  std::string pa = absPath(fd1, a), pb = absPath(fd2, b);
  if(int e = sysPoint(S_rename, pb)) return fail(e);
  Res x = resolve(fd1, a, false), y = resolve(fd2, b, false);
  if(x.err) return fail(x.err);
  if(y.err) return fail(y.err);
  if(!x.ino) return fail(ENOENT);
  if(x.ino == 1 || x.name == "." || x.name == ".." || y.name == "." || y.name == "..") return fail(EBUSY);
  const Inode *n = FSV.vol.get(x.ino);
  if(y.slash && n->type != FT::Dir) return fail(ENOTDIR);
  if(FSV.vol.get(x.dir)->dev != FSV.vol.get(y.dir)->dev) return fail(EXDEV);
  if(int e = dirWritable(x.dir)) return fail(e);
  if(int e = dirWritable(y.dir)) return fail(e);
  if(n->type == FT::Dir)
    for(Ino i = y.dir; ; i = FSV.vol.get(i)->parent) { if(i == x.ino) return fail(EINVAL); if(i == 1) break; }
  if(y.ino)
  {
    if(y.ino == x.ino) return 0;
    const Inode *t = FSV.vol.get(y.ino);
    if(t->type == FT::Dir)
    {
      if(n->type != FT::Dir) return fail(EISDIR);
      if(!t->ents.empty()) return fail(ENOTEMPTY);
    }
    else if(n->type == FT::Dir) return fail(ENOTDIR);
  }
  touch(pa); touch(pb);
  refund(y.ino);
  FSV.rename(x.dir, x.name, y.dir, y.name, now());
  return 0;
}
static int chmodIno(Ino ino, mode_t mode, const std::string &ap)
{
  const Inode *n = FSV.vol.get(ino);
  if(readOnly(ino)) return fail(EROFS);
  if(cur->env.uid != 0 && n->uid != cur->env.uid) return fail(EPERM);
  mode &= 07777;
  if(cur->env.uid != 0 && n->gid != cur->env.gid && n->type != FT::Dir) mode &= ~S_ISGID;
  touch(ap);
  FSV.setAttr(ino, mode, n->uid, n->gid, n->mtime);
  return 0;
}
static int chownIno(Ino ino, uid_t u, gid_t g, const std::string &ap)
{
  const Inode *n = FSV.vol.get(ino);
  if(readOnly(ino)) return fail(EROFS);
  uint32_t nu = u == (uid_t)-1 ? n->uid : u, ng = g == (gid_t)-1 ? n->gid : g;
  if(cur->env.uid != 0)
  {
    if(n->uid != cur->env.uid || nu != n->uid || (ng != n->gid && ng != cur->env.gid)) return fail(EPERM);
  }
  uint32_t m = n->mode;
  if(n->type == FT::Reg)
  { // Linux clears these bits for root, too
    m &= ~S_ISUID;
    if(m & S_IXGRP) m &= ~S_ISGID;
  }
  touch(ap);
  FSV.setAttr(ino, m, nu, ng, n->mtime);
  return 0;
}
static int utimeIno(Ino ino, int64_t ns, bool isNow, const std::string &ap)
{
  const Inode *n = FSV.vol.get(ino);
  if(readOnly(ino)) return fail(EROFS);
  if(cur->env.uid != 0 && n->uid != cur->env.uid && !(isNow && may(n, 2))) return fail(EPERM);
  touch(ap);
  FSV.setAttr(ino, n->mode, n->uid, n->gid, ns);
  return 0;
}
static int onPath(Sys s, int dirfd, const char *path, bool follow, Ino *out, std::string *ap)
{
  *ap = absPath(dirfd, path);
  if(int e = sysPoint(s, *ap)) return e;
  Res r = resolve(dirfd, path, follow);
  if(r.err) return r.err;
  if(!r.ino) return ENOENT;
  *out = r.ino;
  return 0;
}
static int doSync(int fd)
{
  auto f = getFd(fd);
  if(!f) return fail(EBADF);
  int e = sysPoint(S_sync, f->path);
  const Inode *n = FSV.vol.get(f->ino);
  if(f->special || !n) return fail(EINVAL);
  if(e)
  {
    if(n->type == FT::Reg && e != EINTR) FSV.failSync(f->ino); // the dirty data is dropped
    return fail(e);
  }
  if(n->type == FT::Dir) FSV.syncDir(f->ino, W.ordered);
  else FSV.syncData(f->ino, W.ordered);
  return 0;
}

// ---------------------------------------------------------------- locks
static bool lockConflict(Ino ino, bool write, bool ofdLock, OpenFile *o)
{
  auto it = W.locks.find(ino);
  if(it == W.locks.end()) return false;
  for(auto &l : it->second)
  {
    if((l.ofd != nullptr) != ofdLock) continue; // flock and record locks do not interact
    if(ofdLock ? l.ofd == o : l.pid == cur->env.pid) continue;
    if(write || l.write) return true;
  }
  return false;
}
static int doLock(std::shared_ptr<OpenFile> f, bool write, bool block, bool ofdLock)
{
  for(;;)
  {
    if(int e = sysPoint(S_lock, f->path)) return fail(e);
    if(!lockConflict(f->ino, write, ofdLock, f.get())) break;
    if(!block) return fail((cur->env.seed & 1) && !ofdLock ? EACCES : EAGAIN);
  }
  auto &v = W.locks[f->ino];
  OpenFile *o = ofdLock ? f.get() : nullptr;
  for(auto &l : v) if(l.pid == cur->env.pid && l.ofd == o) { l.write = write; return 0; }
  v.push_back({cur->env.pid, write, o});
  return 0;
}
static int doUnlock(std::shared_ptr<OpenFile> f, bool ofdLock)
{
  if(int e = sysPoint(S_unlock, f->path)) return fail(e);
  auto &v = W.locks[f->ino];
  OpenFile *o = ofdLock ? f.get() : nullptr;
  for(size_t i = v.size(); i-- > 0;) if(v[i].pid == cur->env.pid && v[i].ofd == o) v.erase(v.begin() + i);
  return 0;
}

// ---------------------------------------------------------------- stdio
static SFile *newFile(int fd, bool r, bool w, size_t cap)
{
  SFile *f = new SFile;
  f->fd = fd; f->r = r; f->w = w; f->cap = cap;
  cur->files.push_back(f);
  return f;
}
static bool parseMode(const char *m, int &flags)
{
  bool plus = strchr(m, '+');
  switch(m[0])
  {
    case 'r': flags = plus ? O_RDWR : O_RDONLY; break;
    case 'w': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: return false;
  }
  if(strchr(m, 'x')) flags |= O_EXCL;
  return true;
}
static int flushW(SFile *f)
{
  while(!f->wbuf.empty())
  {
    auto o = getFd(f->fd);
    if(!o) { f->err = true; return fail(EBADF); }
    ssize_t n = doWriteAt(o, f->wbuf.data(), f->wbuf.size(), &o->pos);
    if(n < 0) { f->err = true; return -1; }
    f->wbuf.erase(0, (size_t)n);
  }
  return 0;
}
static size_t putBytes(SFile *f, const char *p, size_t n)
{
  if(!f->w) { f->err = true; cur->eno = EBADF; return 0; }
  if(!f->rbuf.empty())
  { // switch from reading to writing: give the unread bytes back
    auto o = getFd(f->fd);
    if(o) o->pos -= f->rbuf.size() - f->rpos;
    f->rbuf.clear(); f->rpos = 0;
  }
  size_t done = 0;
  if(f->cap <= 1)
  {
    auto o = getFd(f->fd);
    while(done < n)
    {
      if(!o) { f->err = true; cur->eno = EBADF; return done; }
      ssize_t k = doWriteAt(o, p + done, n - done, &o->pos);
      if(k < 0) { f->err = true; return done; }
      done += (size_t)k;
    }
    return done;
  }
  while(done < n)
  {
    size_t k = std::min(n - done, f->cap > f->wbuf.size() ? f->cap - f->wbuf.size() : 0);
    f->wbuf.append(p + done, k);
    done += k;
    if(f->wbuf.size() >= f->cap && done < n && flushW(f)) return done > f->wbuf.size() ? done - f->wbuf.size() : 0;
  }
  return done;
}
static int fillR(SFile *f) // 1 data, 0 EOF, -1 error
{
  if(!f->r) { f->err = true; cur->eno = EBADF; return -1; }
  if(!f->wbuf.empty() && flushW(f)) return -1;
  auto o = getFd(f->fd);
  if(!o) { f->err = true; cur->eno = EBADF; return -1; }
  std::string b(std::max<size_t>(f->cap, 1), '\0');
  ssize_t n = doReadAt(o, &b[0], b.size(), &o->pos);
  if(n < 0) { f->err = true; return -1; }
  if(n == 0) { f->eof = true; return 0; }
  b.resize((size_t)n);
  f->rbuf = std::move(b);
  f->rpos = 0;
  return 1;
}
static int getByte(SFile *f)
{
  if(!f->unget.empty()) { int c = f->unget.back(); f->unget.pop_back(); return c; }
  if(f->rpos >= f->rbuf.size())
  {
    if(f->eof) return EOF;
    if(fillR(f) <= 0) return EOF;
  }
  return (unsigned char)f->rbuf[f->rpos++];
}
static void dropFile(SFile *f)
{
  auto &v = cur->files;
  v.erase(std::remove(v.begin(), v.end(), f), v.end());
  delete f;
}
static bool known(SFile *f)
{
  for(auto x : cur->files) if(x == f) return true;
  return false;
}
static void checkFile(SFile *f) { if(!known(f)) procEnd(End::Crashed, -1, "use of a closed or invalid FILE"); }

void libcStart(Proc &p)
{
  Proc *old = cur;
  cur = &p;
  for(int i = 0; i < 3; i++)
  {
    auto o = std::make_shared<OpenFile>();
    o->special = i + 1; o->path = i == 0 ? "<stdin>" : i == 1 ? "<stdout>" : "<stderr>";
    o->flags = i == 0 ? O_RDONLY : O_WRONLY;
    p.fds.push_back(o);
  }
  p.in_ = newFile(0, true, false, p.env.iobuf);
  p.out_ = newFile(1, false, true, 4096);
  p.err_ = newFile(2, false, true, 1);
  cur = old;
}
void libcSwitch(Proc &p) { sim_stdin = p.in_; sim_stdout = p.out_; sim_stderr = p.err_; }

extern "C" { static void heapRelease(Proc &p); static void heapCheck(Proc &p); }
static std::map<void *, regex_t> *regs() { static std::map<void *, regex_t> m; return &m; }

void libcFinish(Proc &p)
{
  for(auto f : p.files) delete f;
  p.files.clear();
  for(auto d : p.dirs) delete d;
  p.dirs.clear();
  for(void *r : p.regexes)
  {
    auto it = regs()->find(r);
    if(it != regs()->end()) { regfree(&it->second); regs()->erase(it); }
  }
  p.regexes.clear();
  heapRelease(p);
  p.atexits.clear();
}

void simExit(int code)
{
  if(cur->exiting) { procEnd(End::Exited, code & 0xff); }
  while(!cur->atexits.empty() || !cur->onexits.empty())
  {
    if(!cur->atexits.empty())
    {
      auto fn = cur->atexits.back();
      cur->atexits.pop_back();
      fn();
    }
    else
    {
      auto fn = cur->onexits.back();
      cur->onexits.pop_back();
      fn.first(code, fn.second);
    }
  }
  cur->exiting = true;
  for(size_t i = 0; i < cur->files.size(); i++) if(cur->files[i]->w) flushW(cur->files[i]);
  sysPoint(S_exit, "");
  heapCheck(*cur);
  procEnd(End::Exited, code & 0xff);
}

// ---------------------------------------------------------------- exported symbols
extern "C" {

// number conversions report overflows through errno
#define CONV(ret, name, fn) ret sim_##name(const char *t, char **e, int b) { int h = errno; errno = 0; ret v = fn(t, e, b); if(errno) cur->eno = errno; errno = h; return v; }
CONV(long, strtol, ::strtol)
CONV(long long, strtoll, ::strtoll)
CONV(unsigned long, strtoul, ::strtoul)
CONV(unsigned long long, strtoull, ::strtoull)
CONV(intmax_t, strtoimax, ::strtoimax)
CONV(uintmax_t, strtoumax, ::strtoumax)
#undef CONV
int *sim___errno_location() { return &cur->eno; }

// --- memory
static bool memFault()
{
  Proc *p = cur;
  p->nmem++;
  for(auto &f : p->faults)
    if(f.k == FK::Mem && (f.at == p->nmem || (f.sticky && f.at < p->nmem))) { p->fired.push_back({FK::Mem, S_none}); p->hash.add(0xdead); return true; }
  return false;
}
static bool overLimit(size_t n, size_t was) { return cur->env.memMax && cur->memNow - was + n > cur->env.memMax; }
static void memAdd(void *p, size_t n)
{
  cur->mem[p] = n;
  cur->memNow += n;
  cur->memPeak = std::max(cur->memPeak, cur->memNow);
}
// Blocks of the program lie between guard bytes, and freed blocks are overwritten and kept for a
// while: what an invalid access reads does not depend on the simulator's own heap, and what it
// writes is noticed.
#if defined(__SANITIZE_ADDRESS__)
static void *rawAlloc(size_t n) { return malloc(n ? n : 1); }
static void rawFree(void *p, size_t) { free(p); }
static void heapCheck(Proc &) {}
static void heapDrop(Proc &) {}
#else
enum { Guard = 64, FreedFill = 0xd9, GuardFill = 0xb7, Touched = 1 << 20 };
static void *rawAlloc(size_t n)
{
  char *b = (char *)malloc(n + 2 * Guard);
  if(!b) return nullptr;
  memset(b, GuardFill, Guard);
  memset(b + Guard, cur->env.fill, std::min(n, (size_t)Touched));
  memset(b + Guard + n, GuardFill, Guard);
  return b + Guard;
}
static bool allBytes(const char *b, size_t n, int c)
{
  return n == 0 || (b[0] == (char)c && memcmp(b, b + 1, n - 1) == 0);
}
static void guardCheck(void *p, size_t n)
{
  if(!allBytes((char *)p - Guard, Guard, GuardFill) || !allBytes((char *)p + n, Guard, GuardFill))
    procEnd(End::Crashed, -1, "write outside of an allocated block");
}
static void freedCheck(void *p, size_t n)
{
  if(!allBytes((char *)p, std::min(n, (size_t)Touched), FreedFill)) procEnd(End::Crashed, -1, "write to freed memory");
}
static void rawFree(void *p, size_t n)
{
  guardCheck(p, n);
  memset(p, FreedFill, std::min(n, (size_t)Touched));
  cur->freed.push_back({p, n});
  cur->freedSize += n + 2 * Guard;
  while(cur->freedSize > (4u << 20) && cur->freed.size() > 1)
  {
    auto o = cur->freed.front();
    cur->freed.pop_front();
    cur->freedSize -= o.second + 2 * Guard;
    freedCheck(o.first, o.second);
    free((char *)o.first - Guard);
  }
}
static void heapCheck(Proc &p)
{
  for(auto &m : p.mem) guardCheck(m.first, m.second);
  for(auto &f : p.freed) freedCheck(f.first, f.second);
}
static void heapDrop(Proc &p)
{
  for(auto &f : p.freed) free((char *)f.first - Guard);
  p.freed.clear();
}
#endif
static void heapRelease(Proc &p)
{
#if defined(__SANITIZE_ADDRESS__)
  for(auto &m : p.mem) free(m.first);
#else
  for(auto &m : p.mem) free((char *)m.first - Guard);
#endif
  p.mem.clear();
  heapDrop(p);
}
void *sim_malloc(size_t n)
{
  if(memFault() || n > (512u << 20) || overLimit(n, 0)) { cur->eno = ENOMEM; return nullptr; }
  void *p = rawAlloc(n);
  if(!p) { cur->eno = ENOMEM; return nullptr; }
  memAdd(p, n);
  return p;
}
void sim_free(void *p)
{
  if(!p) return;
  auto it = cur->mem.find(p);
  if(it == cur->mem.end()) procEnd(End::Crashed, -1, "invalid or double free");
  size_t n = it->second;
  cur->memNow -= n;
  cur->mem.erase(it);
  rawFree(p, n);
}
void *sim_calloc(size_t a, size_t b)
{
  size_t n;
  if(__builtin_mul_overflow(a, b, &n)) { cur->eno = ENOMEM; return nullptr; }
  void *p = sim_malloc(n);
  if(p) memset(p, 0, n);
  return p;
}
void *sim_realloc(void *old, size_t n)
{
  if(!old) return sim_malloc(n);
  if(n == 0) { sim_free(old); return nullptr; }
  auto it = cur->mem.find(old);
  if(it == cur->mem.end()) procEnd(End::Crashed, -1, "realloc of an invalid pointer");
  if(memFault() || n > (512u << 20) || overLimit(n, it->second)) { cur->eno = ENOMEM; return nullptr; }
  size_t was = it->second;
  void *p = rawAlloc(n);
  if(!p) { cur->eno = ENOMEM; return nullptr; }
  memcpy(p, old, std::min(was, n));
  cur->mem.erase(it);
  cur->memNow -= was;
  memAdd(p, n);
  rawFree(old, was);
  return p;
}
void *sim_reallocarray(void *old, size_t a, size_t b)
{
  size_t n;
  if(__builtin_mul_overflow(a, b, &n)) { cur->eno = ENOMEM; return nullptr; }
  return sim_realloc(old, n);
}
char *sim_strndup(const char *s, size_t n)
{
  size_t l = strnlen(s, n);
  char *p = (char *)sim_malloc(l + 1);
  if(p) { memcpy(p, s, l); p[l] = 0; }
  return p;
}
char *sim_strdup(const char *s) { return sim_strndup(s, strlen(s)); }
int sim_vasprintf(char **out, const char *fmt, va_list ap)
{
  va_list ap2; va_copy(ap2, ap);
  int n = vsnprintf(nullptr, 0, fmt, ap2);
  va_end(ap2);
  char *p = (char *)sim_malloc((size_t)n + 1);
  if(!p) return -1;
  vsnprintf(p, (size_t)n + 1, fmt, ap);
  *out = p;
  return n;
}
int sim_asprintf(char **out, const char *fmt, ...)
{
  va_list ap; va_start(ap, fmt);
  int n = sim_vasprintf(out, fmt, ap);
  va_end(ap);
  return n;
}
int sim_posix_memalign(void **out, size_t al, size_t n) { (void)al; void *p = sim_malloc(n); if(!p) return ENOMEM; *out = p; return 0; }
void *sim_aligned_alloc(size_t al, size_t n) { (void)al; return sim_malloc(n); }

// --- process
int sim_atexit(void (*fn)(void)) { cur->atexits.push_back(fn); return 0; }
int sim_on_exit(void (*fn)(int, void *), void *a) { cur->onexits.push_back({fn, a}); return 0; }
void sim_exit(int c) { simExit(c); }
void sim__exit(int c) { procEnd(End::Exited, c & 0xff); }
void sim__Exit(int c) { procEnd(End::Exited, c & 0xff); }
void sim_quick_exit(int c) { procEnd(End::Exited, c & 0xff); }
void sim_abort() { procEnd(End::Crashed, -1, "abort"); }
void sim___assert_fail(const char *e, const char *, unsigned, const char *) { procEnd(End::Crashed, -1, std::string("assertion failed: ") + e); }
void sim___stack_chk_fail() { procEnd(End::Crashed, -1, "stack smashing"); }
pid_t sim_getpid() { return (pid_t)cur->env.pid; }
pid_t sim_getppid() { return 1; }
uid_t sim_getuid() { return cur->env.uid; }
uid_t sim_geteuid() { return cur->env.uid; }
gid_t sim_getgid() { return cur->env.gid; }
gid_t sim_getegid() { return cur->env.gid; }
char *sim_getenv(const char *) { return nullptr; }
char *sim_secure_getenv(const char *) { return nullptr; }
char *sim_setlocale(int, const char *) { static char c[] = "C"; return c; }
mode_t sim_umask(mode_t m) { mode_t o = cur->umask_; cur->umask_ = m & 0777; return o; }
long sim_sysconf(int n) { return n == _SC_PAGESIZE ? 4096 : n == _SC_OPEN_MAX ? 256 : n == _SC_NPROCESSORS_ONLN ? 1 : -1; }
int sim_getpagesize() { return 4096; }
typedef void (*sighandler)(int);
sighandler sim_signal(int, sighandler) { return nullptr; }
int sim_sigaction(int, const void *, void *) { return 0; }
int sim_sigemptyset(void *) { return 0; }
int sim_sigfillset(void *) { return 0; }
int sim_sigaddset(void *, int) { return 0; }
int sim_sigprocmask(int, const void *, void *) { return 0; }
int sim_raise(int) { procEnd(End::Crashed, -1, "raise"); }
int sim_sched_yield() { sysPoint(S_misc, ""); return 0; }

// --- randomness and time
void sim_srand(unsigned s) { cur->rnd = s; }
int sim_rand() { cur->rnd = cur->rnd * 6364136223846793005ULL + 1442695040888963407ULL; return (int)((cur->rnd >> 33) & 0x7fffffff); }
void sim_srandom(unsigned s) { cur->rnd = s; }
long sim_random() { return sim_rand(); }
int sim_rand_r(unsigned *s) { *s = *s * 1103515245 + 12345; return (int)((*s >> 8) & 0x7fffff); }
ssize_t sim_getrandom(void *b, size_t n, unsigned) { for(size_t i = 0; i < n; i++) ((char *)b)[i] = (char)sim_rand(); return (ssize_t)n; }
int sim_getentropy(void *b, size_t n) { sim_getrandom(b, n, 0); return 0; }
time_t sim_time(time_t *t)
{
  if(int e = sysPoint(S_time, "")) { cur->eno = e; return (time_t)-1; }
  int64_t c = now();
  time_t v = c >= 0 ? c / 1000000000 : -((-c + 999999999) / 1000000000);
  if(t) *t = v;
  return v;
}
int sim_clock_gettime(clockid_t, struct timespec *ts)
{
  if(int e = sysPoint(S_clock, "")) return fail(e);
  int64_t c = now();
  ts->tv_sec = c / 1000000000; ts->tv_nsec = c % 1000000000;
  if(ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
  return 0;
}
int sim_gettimeofday(struct timeval *tv, void *)
{
  if(int e = sysPoint(S_clock, "")) return fail(e);
  tv->tv_sec = now() / 1000000000; tv->tv_usec = now() / 1000 % 1000000;
  return 0;
}
clock_t sim_clock() { return (clock_t)(cur->nsys); }
int sim_nanosleep(const struct timespec *ts, struct timespec *) { sysPoint(S_misc, "sleep"); W.clock += ts->tv_sec * 1000000000LL + ts->tv_nsec; W.simSpan += ts->tv_sec * 1000000000LL + ts->tv_nsec; return 0; }
unsigned sim_sleep(unsigned s) { sysPoint(S_misc, "sleep"); W.clock += s * 1000000000LL; W.simSpan += s * 1000000000LL; return 0; }
int sim_usleep(unsigned s) { sysPoint(S_misc, "sleep"); W.clock += s * 1000LL; W.simSpan += s * 1000LL; return 0; }

// --- regex
static int rxFault()
{
  cur->nrx++;
  for(auto &f : cur->faults) if(f.k == FK::Regex && f.at == cur->nrx) { cur->fired.push_back({FK::Regex, S_none}); cur->hash.add(0xbeef); return REG_ESPACE; }
  return 0;
}
int sim_regcomp(regex_t *r, const char *p, int f)
{
  if(int e = rxFault()) { memset(r, 0, sizeof *r); return e; }
  int e = regcomp(r, p, f);
  if(e == 0) { (*regs())[r] = *r; cur->regexes.insert(r); }
  return e;
}
int sim_regexec(const regex_t *r, const char *s, size_t n, regmatch_t *m, int f)
{
  if(int e = rxFault()) return e;
  if(!cur->regexes.count((void *)r)) procEnd(End::Crashed, -1, "regexec on an invalid regex");
  return regexec(r, s, n, m, f);
}
void sim_regfree(regex_t *r)
{
  if(!cur->regexes.count(r)) return;
  cur->regexes.erase(r);
  regs()->erase(r);
  regfree(r);
}
size_t sim_regerror(int e, const regex_t *r, char *b, size_t n) { (void)r; return regerror(e, nullptr, b, n); }

// --- file descriptors
int sim_open(const char *p, int flags, ...)
{
  mode_t m = 0;
  if(flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
  return doOpen(AT_FDCWD, p, flags, m);
}
int sim_openat(int d, const char *p, int flags, ...)
{
  mode_t m = 0;
  if(flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
  return doOpen(d, p, flags, m);
}
int sim_creat(const char *p, mode_t m) { return doOpen(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int sim_close(int fd) { return doClose(fd); }
ssize_t sim_read(int fd, void *b, size_t n) { auto f = getFd(fd); if(!f) return fail(EBADF); return doReadAt(f, b, n, &f->pos); }
ssize_t sim_write(int fd, const void *b, size_t n) { auto f = getFd(fd); if(!f) return fail(EBADF); return doWriteAt(f, b, n, &f->pos); }
ssize_t sim_pread(int fd, void *b, size_t n, off_t o) { auto f = getFd(fd); if(!f) return fail(EBADF); uint64_t p = (uint64_t)o; return doReadAt(f, b, n, &p); }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) { auto f = getFd(fd); if(!f) return fail(EBADF); uint64_t p = (uint64_t)o; return doWriteAt(f, b, n, &p); }
off_t sim_lseek(int fd, off_t o, int wh)
{
  auto f = getFd(fd);
  if(!f) return fail(EBADF);
  if(int e = sysPoint(S_lseek, f->path)) return fail(e);
  const Inode *n = FSV.vol.get(f->ino);
  if(f->special || !n) return fail(ESPIPE);
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)f->pos : n->type == FT::Reg ? (int64_t)n->data->size() : 0;
  if(base + o < 0) return fail(EINVAL);
  f->pos = (uint64_t)(base + o);
  return (off_t)f->pos;
}
int sim_dup(int fd) { auto f = getFd(fd); if(!f) return fail(EBADF); sysPoint(S_misc, "dup"); return allocFd(f); }
int sim_dup2(int fd, int to)
{
  auto f = getFd(fd);
  if(!f || to < 0 || to > 255) return fail(EBADF);
  sysPoint(S_misc, "dup2");
  if((size_t)to >= cur->fds.size()) cur->fds.resize((size_t)to + 1);
  cur->fds[to] = f;
  return to;
}
int sim_fsync(int fd) { return doSync(fd); }
int sim_fdatasync(int fd) { return doSync(fd); }
int sim_syncfs(int fd) { auto f = getFd(fd); if(!f) return fail(EBADF); if(int e = sysPoint(S_sync, f->path)) return fail(e); FSV.syncAll(); return 0; }
void sim_sync() { sysPoint(S_sync, "/"); FSV.syncAll(); }
int sim_ftruncate(int fd, off_t n)
{
  auto f = getFd(fd);
  if(!f || f->special) return fail(EBADF);
  if(int e = sysPoint(S_trunc, f->path)) return fail(e);
  if((f->flags & O_ACCMODE) == O_RDONLY) return fail(EINVAL);
  touch(f->path);
  if(!n) refund(f->ino);
  FSV.truncate(f->ino, (uint64_t)n, now());
  return 0;
}
int sim_truncate(const char *p, off_t n)
{
  Ino i; std::string ap;
  if(int e = onPath(S_trunc, AT_FDCWD, p, true, &i, &ap)) return fail(e);
  if(FSV.vol.get(i)->type != FT::Reg) return fail(EISDIR);
  if(readOnly(i)) return fail(EROFS);
  if(!may(FSV.vol.get(i), 2)) return fail(EACCES);
  touch(ap);
  FSV.truncate(i, (uint64_t)n, now());
  return 0;
}
int sim_posix_fallocate(int fd, off_t o, off_t n)
{
  auto f = getFd(fd);
  if(!f || f->special) return EBADF;
  if(int e = sysPoint(S_trunc, f->path)) return e;
  if((uint64_t)(o + n) > FSV.vol.get(f->ino)->data->size()) { touch(f->path); FSV.truncate(f->ino, (uint64_t)(o + n), now()); }
  return 0;
}
int sim_posix_fadvise(int, off_t, off_t, int) { return 0; }
int sim_isatty(int fd)
{
  auto f = getFd(fd);
  sysPoint(S_isatty, "");
  if(!f) { cur->eno = EBADF; return 0; }
  if(f->special && cur->env.tty) return 1;
  cur->eno = ENOTTY;
  return 0;
}
int sim_ioctl(int, unsigned long, ...) { return fail(ENOTTY); }
int sim_fcntl(int fd, int cmd, ...)
{
  va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap);
  auto f = getFd(fd);
  if(!f) return fail(EBADF);
  switch(cmd)
  {
    case F_GETFD: return 0;
    case F_SETFD: return 0;
    case F_GETFL: return f->flags;
    case F_SETFL: return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: return allocFd(f);
    case F_SETLK: case F_SETLKW:
    {
      struct flock *l = (struct flock *)a;
      if(l->l_type == F_UNLCK) return doUnlock(f, false);
      return doLock(f, l->l_type == F_WRLCK, cmd == F_SETLKW, false);
    }
    case F_GETLK:
    {
      struct flock *l = (struct flock *)a;
      sysPoint(S_misc, "getlk");
      if(!lockConflict(f->ino, l->l_type == F_WRLCK, false, nullptr)) l->l_type = F_UNLCK;
      return 0;
    }
#ifdef F_OFD_SETLK
    case F_OFD_SETLK: case F_OFD_SETLKW:
    {
      struct flock *l = (struct flock *)a;
      if(l->l_type == F_UNLCK) return doUnlock(f, true);
      return doLock(f, l->l_type == F_WRLCK, cmd == F_OFD_SETLKW, true);
    }
#endif
    default: unsupported("fcntl command");
  }
}
int sim_lockf(int fd, int cmd, off_t)
{
  auto f = getFd(fd);
  if(!f || f->special) return fail(EBADF);
  switch(cmd)
  {
    case F_LOCK: case F_TLOCK:
      if((f->flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
      return doLock(f, true, cmd == F_LOCK, false);
    case F_ULOCK: return doUnlock(f, false);
    case F_TEST: sysPoint(S_misc, "locktest"); return lockConflict(f->ino, true, false, nullptr) ? fail(EACCES) : 0;
  }
  return fail(EINVAL);
}
int sim_flock(int fd, int op)
{
  auto f = getFd(fd);
  if(!f) return fail(EBADF);
  if(op & LOCK_UN) return doUnlock(f, true);
  int r = doLock(f, op & LOCK_EX, !(op & LOCK_NB), true);
  if(r < 0 && cur->eno == EAGAIN) cur->eno = EWOULDBLOCK;
  return r;
}

// --- paths
int sim_stat(const char *p, struct stat *s) { return doStat(S_stat, AT_FDCWD, p, s, true); }
int sim_lstat(const char *p, struct stat *s) { return doStat(S_lstat, AT_FDCWD, p, s, false); }
int sim_fstatat(int d, const char *p, struct stat *s, int fl)
{
  if((fl & AT_EMPTY_PATH) && !*p)
  {
    auto f = getFd(d);
    if(!f) return fail(EBADF);
    if(int e = sysPoint(S_fstat, f->path)) return fail(e);
    fillStat(s, f->ino);
    return 0;
  }
  bool follow = !(fl & AT_SYMLINK_NOFOLLOW);
  return doStat(follow ? S_stat : S_lstat, d, p, s, follow);
}
int sim_fstat(int fd, struct stat *s)
{
  auto f = getFd(fd);
  if(!f) return fail(EBADF);
  if(int e = sysPoint(S_fstat, f->path)) return fail(e);
  if(f->special) { memset(s, 0, sizeof *s); s->st_mode = S_IFCHR | 0600; s->st_blksize = 1024; return 0; }
  if(!FSV.vol.get(f->ino)) return fail(EIO);
  fillStat(s, f->ino);
  return 0;
}
int sim_access(const char *p, int m)
{
  Ino i; std::string ap;
  if(int e = onPath(S_access, AT_FDCWD, p, true, &i, &ap)) return fail(e);
  if((m & W_OK) && readOnly(i)) return fail(EROFS);
  if(!may(FSV.vol.get(i), m & 7)) return fail(EACCES);
  return 0;
}
int sim_faccessat(int d, const char *p, int m, int fl)
{
  Ino i; std::string ap;
  if(int e = onPath(S_access, d, p, !(fl & AT_SYMLINK_NOFOLLOW), &i, &ap)) return fail(e);
  if(!may(FSV.vol.get(i), m & 7)) return fail(EACCES);
  return 0;
}
int sim_mkdir(const char *p, mode_t m) { return doMkdir(AT_FDCWD, p, m); }
int sim_mkdirat(int d, const char *p, mode_t m) { return doMkdir(d, p, m); }
int sim_rmdir(const char *p) { return doUnlink(AT_FDCWD, p, true, false); }
int sim_unlink(const char *p) { return doUnlink(AT_FDCWD, p, false, false); }
int sim_unlinkat(int d, const char *p, int fl) { return doUnlink(d, p, fl & AT_REMOVEDIR, false); }
int sim_remove(const char *p) { return doUnlink(AT_FDCWD, p, false, true); }
int sim_rename(const char *a, const char *b) { return doRename(AT_FDCWD, a, AT_FDCWD, b); }
int sim_renameat(int x, const char *a, int y, const char *b) { return doRename(x, a, y, b); }
int sim_symlink(const char *t, const char *p) { return doSymlink(t, AT_FDCWD, p); }
int sim_symlinkat(const char *t, int d, const char *p) { return doSymlink(t, d, p); }
static int doLink(int fd1, const char *a, int fd2, const char *b, bool follow)
{
  std::string pb = absPath(fd2, b);
  if(int e = sysPoint(S_link, pb)) return fail(e);
  Res x = resolve(fd1, a, follow), y = resolve(fd2, b, false);
  if(x.err) return fail(x.err);
  if(y.err) return fail(y.err);
  if(!x.ino) return fail(ENOENT);
  if(y.ino) return fail(EEXIST);
  if(FSV.vol.get(x.ino)->type == FT::Dir) return fail(EPERM);
  if(FSV.vol.get(x.ino)->dev != FSV.vol.get(y.dir)->dev) return fail(EXDEV);
  if(int e = dirWritable(y.dir)) return fail(e);
  touch(pb);
  FSV.link(x.ino, y.dir, y.name, now());
  return 0;
}
int sim_link(const char *a, const char *b) { return doLink(AT_FDCWD, a, AT_FDCWD, b, false); }
int sim_linkat(int x, const char *a, int y, const char *b, int fl) { return doLink(x, a, y, b, fl & AT_SYMLINK_FOLLOW); }
static ssize_t doReadlink(int d, const char *p, char *b, size_t n)
{
  Ino i; std::string ap;
  if(int e = onPath(S_readlink, d, p, false, &i, &ap)) return fail(e);
  const Inode *x = FSV.vol.get(i);
  if(x->type != FT::Lnk) return fail(EINVAL);
  size_t k = std::min(n, x->data->size());
  memcpy(b, x->data->data(), k);
  return (ssize_t)k;
}
ssize_t sim_readlink(const char *p, char *b, size_t n) { return doReadlink(AT_FDCWD, p, b, n); }
ssize_t sim_readlinkat(int d, const char *p, char *b, size_t n) { return doReadlink(d, p, b, n); }
int sim_chmod(const char *p, mode_t m) { Ino i; std::string ap; if(int e = onPath(S_chmod, AT_FDCWD, p, true, &i, &ap)) return fail(e); return chmodIno(i, m, ap); }
int sim_fchmodat(int d, const char *p, mode_t m, int) { Ino i; std::string ap; if(int e = onPath(S_chmod, d, p, true, &i, &ap)) return fail(e); return chmodIno(i, m, ap); }
int sim_fchmod(int fd, mode_t m) { auto f = getFd(fd); if(!f || f->special) return fail(EBADF); if(int e = sysPoint(S_chmod, f->path)) return fail(e); return chmodIno(f->ino, m, f->path); }
int sim_chown(const char *p, uid_t u, gid_t g) { Ino i; std::string ap; if(int e = onPath(S_chown, AT_FDCWD, p, true, &i, &ap)) return fail(e); return chownIno(i, u, g, ap); }
int sim_lchown(const char *p, uid_t u, gid_t g) { Ino i; std::string ap; if(int e = onPath(S_chown, AT_FDCWD, p, false, &i, &ap)) return fail(e); return chownIno(i, u, g, ap); }
int sim_fchown(int fd, uid_t u, gid_t g) { auto f = getFd(fd); if(!f || f->special) return fail(EBADF); if(int e = sysPoint(S_chown, f->path)) return fail(e); return chownIno(f->ino, u, g, f->path); }
int sim_fchownat(int d, const char *p, uid_t u, gid_t g, int fl) { Ino i; std::string ap; if(int e = onPath(S_chown, d, p, !(fl & AT_SYMLINK_NOFOLLOW), &i, &ap)) return fail(e); return chownIno(i, u, g, ap); }
int sim_utime(const char *p, const struct utimbuf *t)
{
  Ino i; std::string ap;
  if(int e = onPath(S_utime, AT_FDCWD, p, true, &i, &ap)) return fail(e);
  return utimeIno(i, t ? t->modtime * 1000000000LL : now(), !t, ap);
}
int sim_utimes(const char *p, const struct timeval *t)
{
  Ino i; std::string ap;
  if(int e = onPath(S_utime, AT_FDCWD, p, true, &i, &ap)) return fail(e);
  return utimeIno(i, t ? t[1].tv_sec * 1000000000LL + t[1].tv_usec * 1000LL : now(), !t, ap);
}
int sim_lutimes(const char *p, const struct timeval *t)
{
  Ino i; std::string ap;
  if(int e = onPath(S_utime, AT_FDCWD, p, false, &i, &ap)) return fail(e);
  return utimeIno(i, t ? t[1].tv_sec * 1000000000LL + t[1].tv_usec * 1000LL : now(), !t, ap);
}
static int64_t tsNs(const struct timespec *t, int64_t old, bool &isNow)
{
  isNow = !t || t[1].tv_nsec == UTIME_NOW;
  if(isNow) return now();
  if(t[1].tv_nsec == UTIME_OMIT) return old;
  return t[1].tv_sec * 1000000000LL + t[1].tv_nsec;
}
int sim_utimensat(int d, const char *p, const struct timespec *t, int fl)
{
  Ino i; std::string ap;
  if(int e = onPath(S_utime, d, p, !(fl & AT_SYMLINK_NOFOLLOW), &i, &ap)) return fail(e);
  bool n; int64_t v = tsNs(t, FSV.vol.get(i)->mtime, n);
  return utimeIno(i, v, n, ap);
}
int sim_futimens(int fd, const struct timespec *t)
{
  auto f = getFd(fd);
  if(!f || f->special) return fail(EBADF);
  if(int e = sysPoint(S_utime, f->path)) return fail(e);
  bool n; int64_t v = tsNs(t, FSV.vol.get(f->ino)->mtime, n);
  return utimeIno(f->ino, v, n, f->path);
}
char *sim_getcwd(char *b, size_t n)
{
  if(int e = sysPoint(S_getcwd, "")) { cur->eno = e; return nullptr; }
  if(!b) { if(!n) n = cur->cwd.size() + 1; b = (char *)sim_malloc(n); if(!b) return nullptr; }
  if(cur->cwd.size() + 1 > n) { cur->eno = ERANGE; return nullptr; }
  memcpy(b, cur->cwd.c_str(), cur->cwd.size() + 1);
  return b;
}
int sim_chdir(const char *p)
{
  Ino i; std::string ap;
  if(int e = onPath(S_chdir, AT_FDCWD, p, true, &i, &ap)) return fail(e);
  if(FSV.vol.get(i)->type != FT::Dir) return fail(ENOTDIR);
  cur->cwd = ap;
  return 0;
}
char *sim_realpath(const char *p, char *out)
{
  sysPoint(S_lstat, absPath(AT_FDCWD, p));
  Res r = resolve(AT_FDCWD, p, true);
  if(r.err || !r.ino) { cur->eno = r.err ? r.err : ENOENT; return nullptr; }
  std::string s;
  const Inode *n = FSV.vol.get(r.ino);
  if(n->type == FT::Dir) s = FSV.pathOf(r.ino);
  else { s = FSV.pathOf(r.dir); s = (s == "/" ? "" : s) + "/" + r.name; }
  if(!out) out = (char *)sim_malloc(s.size() + 1);
  if(out) memcpy(out, s.c_str(), s.size() + 1);
  return out;
}
int sim_mkstemp(char *t)
{
  size_t l = strlen(t);
  if(l < 6) return fail(EINVAL);
  for(int k = 0; k < 100; k++)
  {
    for(int i = 0; i < 6; i++) t[l - 6 + i] = (char)('a' + sim_rand() % 26);
    int fd = doOpen(AT_FDCWD, t, O_RDWR | O_CREAT | O_EXCL, 0600);
    if(fd >= 0 || cur->eno != EEXIST) return fd;
  }
  return fail(EEXIST);
}
char *sim_mkdtemp(char *t)
{
  size_t l = strlen(t);
  for(int i = 0; i < 6; i++) t[l - 6 + i] = (char)('a' + sim_rand() % 26);
  return doMkdir(AT_FDCWD, t, 0700) ? nullptr : t;
}

// --- directories
static SDir *openDirIno(Ino ino, int fd, const std::string &path)
{
  SDir *d = new SDir;
  d->ino = ino; d->fd = fd; d->path = path;
  cur->dirs.push_back(d);
  return d;
}
SDir *sim_opendir(const char *p)
{
  std::string ap = absPath(AT_FDCWD, p);
  if(int e = sysPoint(S_opendir, ap)) { cur->eno = e; return nullptr; }
  Res r = resolve(AT_FDCWD, p, true);
  int e = r.err ? r.err : !r.ino ? ENOENT : FSV.vol.get(r.ino)->type != FT::Dir ? ENOTDIR : !may(FSV.vol.get(r.ino), 4) ? EACCES : 0;
  if(e) { cur->eno = e; return nullptr; }
  auto f = std::make_shared<OpenFile>();
  f->ino = r.ino; f->flags = O_RDONLY | O_DIRECTORY; f->path = ap;
  int fd = allocFd(f);
  if(fd < 0) { cur->eno = EMFILE; return nullptr; }
  return openDirIno(r.ino, fd, ap);
}
SDir *sim_fdopendir(int fd)
{
  auto f = getFd(fd);
  if(!f || f->special || FSV.vol.get(f->ino)->type != FT::Dir) { cur->eno = f ? ENOTDIR : EBADF; return nullptr; }
  return openDirIno(f->ino, fd, f->path);
}
static bool knownDir(SDir *d) { for(auto x : cur->dirs) if(x == d) return true; return false; }
static void loadDir(SDir *d)
{
  d->loaded = true;
  d->ents.clear();
  const Inode *n = FSV.vol.get(d->ino);
  if(n) for(auto &e : n->ents) d->ents.push_back(e);
  Rng r(mix(cur->env.seed, d->ino));
  if(cur->env.seed != 1) r.shuffle(d->ents);
  d->ents.insert(d->ents.begin() + (cur->env.seed != 1 ? r.below(d->ents.size() + 1) : 0), {".", d->ino});
  d->ents.insert(d->ents.begin() + (cur->env.seed != 1 ? r.below(d->ents.size() + 1) : 1), {"..", n ? n->parent : 1});
  d->pos = 0;
}
struct dirent *sim_readdir(SDir *d)
{
  if(!knownDir(d)) procEnd(End::Crashed, -1, "readdir on a closed directory");
  if(int e = sysPoint(S_readdir, d->path)) { cur->eno = e; return nullptr; }
  if(!d->loaded) loadDir(d);
  while(d->pos < d->ents.size())
  {
    auto &e = d->ents[d->pos++];
    const Inode *dn = FSV.vol.get(d->ino);
    if(e.first != "." && e.first != ".." && dn && !dn->ents.count(e.first) && (mix(cur->env.seed, d->pos) & 1)) continue; // removed meanwhile
    memset(&d->de, 0, sizeof d->de);
    memcpy(d->de.d_name, e.first.c_str(), e.first.size() + 1);
    d->de.d_ino = e.second;
    const Inode *n = FSV.vol.get(e.second);
    d->de.d_type = !cur->env.dtype || !n ? DT_UNKNOWN : n->type == FT::Reg ? DT_REG : n->type == FT::Dir ? DT_DIR : n->type == FT::Lnk ? DT_LNK : DT_FIFO;
    return &d->de;
  }
  return nullptr;
}
void sim_rewinddir(SDir *d) { loadDir(d); }
int sim_dirfd(SDir *d) { return d->fd; }
int sim_closedir(SDir *d)
{
  if(!knownDir(d)) procEnd(End::Crashed, -1, "closedir on a closed directory");
  std::string p = d->path;
  int fd = d->fd;
  auto &v = cur->dirs;
  v.erase(std::remove(v.begin(), v.end(), d), v.end());
  delete d;
  int e = sysPoint(S_closedir, p);
  auto f = getFd(fd);
  if(f) { cur->fds[fd] = nullptr; dropLocksOnClose(f); }
  return e ? fail(e) : 0;
}
int sim_alphasort(const struct dirent **a, const struct dirent **b) { return strcmp((*a)->d_name, (*b)->d_name); }
int sim_scandir(const char *p, struct dirent ***out, int (*filter)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **))
{
  SDir *d = sim_opendir(p);
  if(!d) return -1;
  std::vector<struct dirent *> v;
  cur->eno = 0;
  while(struct dirent *e = sim_readdir(d))
  {
    if(filter && !filter(e)) continue;
    struct dirent *c = (struct dirent *)sim_malloc(sizeof *c);
    if(!c) { sim_closedir(d); return -1; }
    *c = *e;
    v.push_back(c);
  }
  int en = cur->eno;
  sim_closedir(d);
  if(en) return fail(en);
  if(cmp) std::stable_sort(v.begin(), v.end(), [&](struct dirent *a, struct dirent *b) { const struct dirent *x = a, *y = b; return cmp(&x, &y) < 0; });
  *out = (struct dirent **)sim_malloc(sizeof(void *) * (v.size() + 1));
  if(!*out) return -1;
  for(size_t i = 0; i < v.size(); i++) (*out)[i] = v[i];
  return (int)v.size();
}

// --- stdio
SFile *sim_fopen(const char *p, const char *m)
{
  int fl;
  if(!parseMode(m, fl)) { cur->eno = EINVAL; return nullptr; }
  if(memFault()) { cur->eno = ENOMEM; return nullptr; }
  int fd = doOpen(AT_FDCWD, p, fl, 0666);
  if(fd < 0) return nullptr;
  return newFile(fd, (fl & O_ACCMODE) != O_WRONLY, (fl & O_ACCMODE) != O_RDONLY, cur->env.iobuf);
}
SFile *sim_fdopen(int fd, const char *m)
{
  int fl;
  if(!parseMode(m, fl) || !getFd(fd)) { cur->eno = EINVAL; return nullptr; }
  return newFile(fd, (fl & O_ACCMODE) != O_WRONLY, (fl & O_ACCMODE) != O_RDONLY, cur->env.iobuf);
}
int sim_fclose(SFile *f)
{
  checkFile(f);
  int e = 0;
  if(f->w && flushW(f)) e = cur->eno;
  auto o = getFd(f->fd);
  if(f->r && o && !o->special && f->rpos < f->rbuf.size()) o->pos -= f->rbuf.size() - f->rpos;
  int fd = f->fd;
  if(f == cur->in_) cur->in_ = nullptr;
  dropFile(f);
  if(doClose(fd) < 0 && !e) e = cur->eno;
  if(e) { cur->eno = e; return EOF; }
  return 0;
}
int sim_fflush(SFile *f)
{
  if(!f) { int r = 0; for(size_t i = 0; i < cur->files.size(); i++) if(cur->files[i]->w && flushW(cur->files[i])) r = EOF; return r; }
  checkFile(f);
  return f->w ? flushW(f) : 0;
}
size_t sim_fread(void *b, size_t sz, size_t n, SFile *f)
{
  checkFile(f);
  size_t total = sz * n, done = 0;
  char *out = (char *)b;
  while(done < total)
  {
    if(!f->unget.empty()) { out[done++] = (char)f->unget.back(); f->unget.pop_back(); continue; }
    if(f->rpos < f->rbuf.size())
    {
      size_t k = std::min(total - done, f->rbuf.size() - f->rpos);
      memcpy(out + done, f->rbuf.data() + f->rpos, k);
      f->rpos += k; done += k;
      continue;
    }
    if(f->eof) break;
    if(total - done >= f->cap && f->r)
    {
      auto o = getFd(f->fd);
      if(!o) { f->err = true; cur->eno = EBADF; break; }
      ssize_t k = doReadAt(o, out + done, total - done, &o->pos);
      if(k < 0) { f->err = true; break; }
      if(k == 0) { f->eof = true; break; }
      done += (size_t)k;
      continue;
    }
    if(fillR(f) <= 0) break;
  }
  return sz ? done / sz : 0;
}
size_t sim_fwrite(const void *b, size_t sz, size_t n, SFile *f)
{
  checkFile(f);
  if(!sz || !n) return 0;
  return putBytes(f, (const char *)b, sz * n) / sz;
}
size_t sim_fread_unlocked(void *b, size_t s, size_t n, SFile *f) { return sim_fread(b, s, n, f); }
size_t sim_fwrite_unlocked(const void *b, size_t s, size_t n, SFile *f) { return sim_fwrite(b, s, n, f); }
int sim_fgetc(SFile *f) { checkFile(f); return getByte(f); }
int sim_getc(SFile *f) { checkFile(f); return getByte(f); }
int sim_getchar() { return sim_fgetc(sim_stdin); }
int sim_getc_unlocked(SFile *f) { return sim_fgetc(f); }
int sim__IO_getc(SFile *f) { return sim_fgetc(f); }
int sim_ungetc(int c, SFile *f) { checkFile(f); if(c == EOF) return EOF; f->unget.push_back((unsigned char)c); f->eof = false; return (unsigned char)c; }
char *sim_fgets(char *b, int n, SFile *f)
{
  checkFile(f);
  int i = 0;
  while(i < n - 1)
  {
    int c = getByte(f);
    if(c == EOF) break;
    b[i++] = (char)c;
    if(c == '\n') break;
  }
  if(!i) return nullptr;
  b[i] = 0;
  return b;
}
ssize_t sim_getdelim(char **b, size_t *cap, int delim, SFile *f)
{
  checkFile(f);
  std::string s;
  for(;;)
  {
    int c = getByte(f);
    if(c == EOF) break;
    s += (char)c;
    if(c == delim) break;
  }
  if(s.empty()) return -1;
  if(!*b || *cap < s.size() + 1)
  {
    char *p = (char *)sim_realloc(*b, s.size() + 1);
    if(!p) return -1;
    *b = p; *cap = s.size() + 1;
  }
  memcpy(*b, s.c_str(), s.size() + 1);
  return (ssize_t)s.size();
}
ssize_t sim_getline(char **b, size_t *cap, SFile *f) { return sim_getdelim(b, cap, '\n', f); }
int sim_fputc(int c, SFile *f) { checkFile(f); char ch = (char)c; return putBytes(f, &ch, 1) == 1 ? (unsigned char)c : EOF; }
int sim_putc(int c, SFile *f) { return sim_fputc(c, f); }
int sim__IO_putc(int c, SFile *f) { return sim_fputc(c, f); }
int sim_putchar(int c) { return sim_fputc(c, sim_stdout); }
int sim_fputs(const char *s, SFile *f) { checkFile(f); size_t n = strlen(s); return putBytes(f, s, n) == n ? 1 : EOF; }
int sim_puts(const char *s)
{
  std::string t = std::string(s) + "\n";
  return putBytes(sim_stdout, t.data(), t.size()) == t.size() ? (int)t.size() : EOF;
}
int sim_vfprintf(SFile *f, const char *fmt, va_list ap)
{
  checkFile(f);
  errno = cur->eno;
  char small[512];
  va_list ap2; va_copy(ap2, ap);
  int n = vsnprintf(small, sizeof small, fmt, ap2);
  va_end(ap2);
  if(n < 0) return n;
  if((size_t)n < sizeof small) return putBytes(f, small, (size_t)n) == (size_t)n ? n : -1;
  std::string s((size_t)n + 1, '\0');
  vsnprintf(&s[0], s.size(), fmt, ap);
  return putBytes(f, s.data(), (size_t)n) == (size_t)n ? n : -1;
}
int sim_fprintf(SFile *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(f, fmt, ap); va_end(ap); return n; }
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(sim_stdout, fmt, ap); va_end(ap); return n; }
int sim_vprintf(const char *fmt, va_list ap) { return sim_vfprintf(sim_stdout, fmt, ap); }
int sim_dprintf(int fd, const char *fmt, ...)
{
  va_list ap; va_start(ap, fmt);
  char b[4096];
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  auto f = getFd(fd);
  if(!f) return fail(EBADF);
  return (int)doWriteAt(f, b, std::min<size_t>((size_t)n, sizeof b - 1), &f->pos);
}
void sim_perror(const char *s) { std::string t = std::string(s ? s : "") + ": " + strerror(cur->eno) + "\n"; putBytes(sim_stderr, t.data(), t.size()); }
int sim_feof(SFile *f) { checkFile(f); return f->eof && f->unget.empty(); }
int sim_ferror(SFile *f) { checkFile(f); return f->err; }
void sim_clearerr(SFile *f) { checkFile(f); f->eof = f->err = false; }
int sim_fileno(SFile *f) { checkFile(f); return f->fd; }
int sim_fileno_unlocked(SFile *f) { return sim_fileno(f); }
int sim_feof_unlocked(SFile *f) { return sim_feof(f); }
int sim_ferror_unlocked(SFile *f) { return sim_ferror(f); }
int sim_fgetc_unlocked(SFile *f) { return sim_fgetc(f); }
char *sim_fgets_unlocked(char *b, int n, SFile *f) { return sim_fgets(b, n, f); }
int sim_fputc_unlocked(int c, SFile *f) { return sim_fputc(c, f); }
int sim_putc_unlocked(int c, SFile *f) { return sim_fputc(c, f); }
int sim_putchar_unlocked(int c) { return sim_fputc(c, sim_stdout); }
int sim_fputs_unlocked(const char *s, SFile *f) { return sim_fputs(s, f); }
int sim_fflush_unlocked(SFile *f) { return sim_fflush(f); }
int sim_mkostemp(char *t, int) { return sim_mkstemp(t); }
int sim_euidaccess(const char *p, int m) { return sim_faccessat(AT_FDCWD, p, m, 0); }
int sim_eaccess(const char *p, int m) { return sim_faccessat(AT_FDCWD, p, m, 0); }
int sim_dup3(int fd, int to, int) { return sim_dup2(fd, to); }
ssize_t sim_readv(int fd, const struct iovec *v, int n)
{
  ssize_t sum = 0;
  for(int i = 0; i < n; i++)
  {
    ssize_t k = sim_read(fd, v[i].iov_base, v[i].iov_len);
    if(k < 0) return sum ? sum : k;
    sum += k;
    if((size_t)k < v[i].iov_len) break;
  }
  return sum;
}
ssize_t sim_writev(int fd, const struct iovec *v, int n)
{
  ssize_t sum = 0;
  for(int i = 0; i < n; i++)
  {
    ssize_t k = sim_write(fd, v[i].iov_base, v[i].iov_len);
    if(k < 0) return sum ? sum : k;
    sum += k;
    if((size_t)k < v[i].iov_len) break;
  }
  return sum;
}
void sim_setbuf(SFile *f, char *b) { checkFile(f); f->cap = b ? 4096 : 1; }
void sim_setbuffer(SFile *f, char *b, size_t n) { checkFile(f); f->cap = b ? n : 1; }
void sim_setlinebuf(SFile *) {}
int sim_setvbuf(SFile *f, char *, int mode, size_t n) { checkFile(f); f->cap = mode == _IONBF ? 1 : n ? n : 4096; return 0; }
void sim_flockfile(SFile *) {}
void sim_funlockfile(SFile *) {}
int sim_fseeko(SFile *f, off_t o, int wh)
{
  checkFile(f);
  if(f->w && flushW(f)) return -1;
  auto x = getFd(f->fd);
  if(!x) return fail(EBADF);
  if(wh == SEEK_CUR) o -= (off_t)(f->rbuf.size() - f->rpos + f->unget.size());
  f->rbuf.clear(); f->rpos = 0; f->unget.clear();
  if(sim_lseek(f->fd, o, wh) < 0) return -1;
  f->eof = false;
  return 0;
}
int sim_fseek(SFile *f, long o, int wh) { return sim_fseeko(f, o, wh); }
off_t sim_ftello(SFile *f)
{
  checkFile(f);
  off_t p = sim_lseek(f->fd, 0, SEEK_CUR);
  if(p < 0) return -1;
  return p - (off_t)(f->rbuf.size() - f->rpos) - (off_t)f->unget.size() + (off_t)f->wbuf.size();
}
long sim_ftell(SFile *f) { return sim_ftello(f); }
void sim_rewind(SFile *f) { sim_fseeko(f, 0, SEEK_SET); f->err = false; }
SFile *sim_tmpfile() { unsupported("tmpfile"); }

// --- weakened hash (hash collisions)
int blake2b_final(void *, void *, size_t);
static void maskHash(unsigned char *o, size_t n)
{
  if(!W.hashMask) return;
  uint64_t h = 0;
  for(size_t i = 0; i < n; i++) h = h * 131 + o[i];
  h %= W.hashMask;
  for(size_t i = 0; i < n; i++) o[i] = (unsigned char)(h * 37 + 11 + (i & 1));
}
int blake2b_init(void *, size_t);
int blake2b_update(void *, const void *, size_t);
// hash class of a content under a weakened hash, for the reference model
uint64_t maskedHash(const void *p, size_t n, uint32_t mask)
{
  alignas(64) static unsigned char st[1024];
  unsigned char o[20];
  blake2b_init(st, 20); blake2b_update(st, p, n); blake2b_final(st, o, 20);
  uint64_t h = 0;
  for(size_t i = 0; i < 20; i++) h = h * 131 + o[i];
  return h % mask;
}
int sim_blake2b_final(void *s, void *o, size_t n) { int r = blake2b_final(s, o, n); maskHash((unsigned char *)o, n); return r; }

} // extern "C"
