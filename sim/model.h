// Independent reference model of nano-backup's documented behaviour, and an
// independent reader of its metadata format.
#pragma once
#include "simfs.h"
#include "kernel.h"
#include <map>
#include <string>
#include <vector>
#include <regex.h>

enum Pol { P_none = 0, P_copy, P_mirror, P_track };
enum ST { ST_gone = 0, ST_reg, ST_lnk, ST_dir };

struct MState
{
  int type = ST_gone;
  uint32_t uid = 0, gid = 0, mode = 0; // mode: permission bits
  int64_t mtime = 0; // seconds
  uint64_t size = 0;
  Blob data; // content or target
  bool same(const MState &o) const;
};

// ---- metadata file -------------------------------------------------------
struct FPoint { uint64_t id; MState st; std::string hash; uint8_t slot = 0; std::string inl; };
struct FNode { std::string path; int pol; std::vector<FPoint> hist; };
struct FMeta
{
  bool ok = false;
  std::vector<int64_t> times; // per backup id
  uint64_t total = 0;
  std::vector<FNode> nodes; // every path node, parents first
  std::string err;
};
FMeta parseMeta(const std::string &bytes);
std::string objName(const FPoint &p); // relative path of the stored object ("" if inline)

// ---- configuration -------------------------------------------------------
struct Rx { std::string text; int line = 0; regex_t re; Rx(const std::string &t); ~Rx(); bool ok; bool match(const std::string &s) const; };
typedef std::shared_ptr<Rx> RxP;
struct CNode
{
  std::string name; RxP rx; int pol = 0; bool inherited = false; bool rxSub = false;
  int line = 0, polLine = 0; // where the node, its policy was defined
  std::vector<std::shared_ptr<CNode>> subs; // newest definition first
};
struct Conf
{
  bool ok = true; std::string err;
  int line = 0, otherLine = 0; // of the mistake, the earlier definition
  std::shared_ptr<CNode> root;
  std::vector<RxP> ignore, summarize;
  bool ignored(const std::string &path) const;
  bool summarized(const std::string &path) const;
};
Conf parseConf(const std::string &text);

// ---- backup model --------------------------------------------------------
enum MHint { H_none = 0, H_same, H_added, H_removed, H_wiped, H_type };
struct MPoint { int seq; MState st; };
struct MNode
{
  std::string name, path;
  int pol = 0;
  std::vector<MPoint> hist; // newest first
  std::map<std::string, std::shared_ptr<MNode>> subs;
  // hints of the last run
  int hint = 0; // MHint
  int fromType = 0; // H_type: the old type
  bool polChanged = false, losesHist = false;
  bool cOwner = false, cMode = false, cTime = false, cData = false;
  bool any() const { return cOwner || cMode || cTime || cData; }
};
typedef std::shared_ptr<MNode> MNodeP;

struct Totals { uint64_t n = 0, size = 0; void add(uint64_t a, uint64_t b) { n += a; size += b; } void add(const Totals &o) { n += o.n; size += o.size; } };
struct Summary { Totals added, removed, lost, changed; uint64_t attrs = 0; bool other = false, parentTs = false;
  bool contents() const { return added.n || removed.n || lost.n || changed.n; }
  bool changes() const { return contents() || attrs || other; } };

struct PrintLine { std::string mark, path; char type = 'f'; int64_t plus = -1, minus = -1; bool dots = false; std::string target;
  bool owner = false, perm = false, time = false, sameTime = false, policy = false, loses = false;
  int64_t changed = -1, metaChanged = -1; std::string typeChange; uint64_t plusSize = 0, minusSize = 0;
  std::string text() const; };

struct RunResult
{
  bool dies = false; std::string why;
  bool asks = false; // has something to confirm
  std::vector<PrintLine> lines;
  Summary sum;
  std::vector<std::string> summaryTests; // directories the [summarize] expressions are asked about
};

std::string humanSize(uint64_t size);

struct Model
{
  std::map<std::string, MNodeP> root;
  int seq = 0; // of the most recent committed backup
  uint32_t hashMask = 0;
  Model() {}
  Model(const Model &o) { *this = o; }
  Model &operator=(const Model &o);
  // Computes what a backup of the current file system would do; with commit the model becomes the new history.
  RunResult backup(const FS &fs, const Conf &c, bool commit);
  // What a restore of the backup ("": of everything) would report on the given file system.
  RunResult restore(const FS &fs, int id, const std::string &path) const;
  int ids() const; // number of backup ids
  std::vector<int> seqs() const; // referenced sequence numbers, newest first
  // Everything backup `id` contains: path -> (state, policy)
  std::map<std::string, std::pair<MState, int>> tree(int id) const;
  void forAll(const std::function<void(const MNode &)> &f) const;
};
// What the search would find: path -> (state with content, policy). err set if the run must stop.
struct Found { MState st; int pol; const CNode *node; bool other = false; };
// What the rules and [ignore] expressions were asked about.
struct SearchLog { std::map<const CNode *, int> hits; /* 1 file, 2 symlink, 4 directory, 8 other */ std::vector<std::string> ignoreTests; };
std::map<std::string, Found> searchFs(const FS &fs, const Conf &c, std::string &err, int *followed = nullptr, SearchLog *log = nullptr);
MState stateOf(const Inode *n);
