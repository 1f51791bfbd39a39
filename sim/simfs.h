// In-memory file system with a volatile view (page cache) and a durable view.
#pragma once
#include "rng.h"
#include <map>
#include <memory>
#include <functional>
#include <set>
#include <string>
#include <vector>

enum class FT : uint8_t { Reg, Dir, Lnk, Fifo };
typedef uint32_t Ino;
typedef std::shared_ptr<const std::string> Blob;
Blob mkblob(std::string s);

struct Inode
{
  FT type = FT::Reg;
  uint32_t mode = 0644; // permission bits only (07777)
  uint32_t uid = 0, gid = 0;
  int64_t mtime = 0; // ns
  Blob data;         // content or symlink target
  std::map<std::string, Ino> ents;
  Ino parent = 0; // directories
  uint8_t dev = 0;
  uint16_t nlink = 0; // names, only kept in the volatile view
};

// One pending (not yet durable) operation.
struct Op
{
  enum K : uint8_t { Ent, Data, Trunc, Attr } k;
  // Ent: up to two entry changes applied atomically
  struct E { Ino dir; std::string name; Ino ino; };
  std::vector<E> ents;
  Ino ino = 0;
  uint64_t off = 0; // Data offset, Trunc size
  Blob bytes;
  bool doomed = false; // a failed sync dropped this dirty data
  uint32_t mode = 0, uid = 0, gid = 0;
  int64_t mtime = 0;
};

struct Image // one view of the file system
{
  std::map<Ino, std::shared_ptr<Inode>> nodes;
  const Inode *get(Ino i) const { auto it = nodes.find(i); return it == nodes.end() ? nullptr : it->second.get(); }
  Inode &w(Ino i)
  {
    auto &p = nodes[i];
    if(!p) p = std::make_shared<Inode>();
    else if(p.use_count() > 1) p = std::make_shared<Inode>(*p);
    return *p;
  }
};

enum CrashMode { CM_Weak = 0, CM_Ordered = 1, CM_None = 2 /* nothing unsynced survives */, CM_All = 3 };

struct Entry // snapshot of one path
{
  FT type; uint32_t mode, uid, gid; int64_t mtime; Blob data;
};
typedef std::map<std::string, Entry> Tree; // full path -> entry

struct FS
{
  Image vol, dur;
  std::vector<Op> log;
  Ino next = 2;
  bool track = true; // record pending operations
  uint64_t version = 0; // bumped by every change (for cheap change detection)

  FS();
  // raw operations on the volatile view, all recorded in the log
  Ino create(Ino dir, const std::string &name, FT t, uint32_t mode, uint32_t uid, uint32_t gid, int64_t now, const std::string &target = "");
  void unlink(Ino dir, const std::string &name, int64_t now);
  void rename(Ino sd, const std::string &sn, Ino dd, const std::string &dn, int64_t now);
  void link(Ino ino, Ino dd, const std::string &dn, int64_t now);
  void write(Ino ino, uint64_t off, const char *p, size_t n, int64_t now);
  void truncate(Ino ino, uint64_t size, int64_t now);
  void setAttr(Ino ino, uint32_t mode, uint32_t uid, uint32_t gid, int64_t mtime);
  void touchDir(Ino dir, int64_t now);

  void syncData(Ino ino, bool ordered);
  void failSync(Ino ino);
  void syncDir(Ino dir, bool ordered);
  void syncAll();
  void syncEntry(Ino dir, const std::string &name);
  void syncOutside(Ino top);
  void compact(); // forgets unreachable inodes (nothing pending, no process running)
  // Replaces both views by the state found after a power failure.
  void powerLoss(int mode, uint64_t seed);
  bool dirty() const { return !log.empty(); }

  // helpers working on vol, without access checks
  Ino lookup(const std::string &path, bool follow, int depth = 0) const; // 0 if missing
  Ino lookupIn(Ino dir, const std::string &path, bool follow, int depth) const;
  void removeTree(Ino dir, const std::string &name, int64_t now);
  void snapshot(const std::string &path, Tree &out, const std::string &exclude = "") const;
  void hashTree(Ino ino, Hash &h, bool attrs) const;
  std::string pathOf(Ino ino) const;

private:
  void applyEnt(const Op &op);
  void pushEnt(std::vector<Op::E> e);
  void applyData(const Op &op);
};

std::string normPath(const std::string &p);
