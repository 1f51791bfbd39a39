// Executes plans: common helpers for all properties.
#pragma once
#include "model.h"
#include "plan.h"
#include <unordered_map>

struct Abort { std::string why; }; // the simulator cannot judge this run

struct Stats
{
  uint64_t runs = 0, procs = 0, syscalls = 0, observations = 0, skipped = 0, modelChecks = 0, reexec = 0;
  int64_t simNs = 0;
  std::map<std::string, uint64_t> faults; // kind:syscall -> times fired
  std::map<std::string, uint64_t> count;  // property specific counters
  std::unordered_set<uint64_t> states;    // distinct repository/fs states reached after a simulated process
  std::unordered_set<uint64_t> traces;    // distinct system call traces
  std::unordered_set<uint64_t> sites;     // distinct (command, fault kind, call, path class)
  std::vector<std::string> samples;
};

struct Out
{
  End end; int code; std::string crash, out, err;
  uint32_t nsys, nmem, nrx;
  uint64_t memPeak = 0; uint32_t fdPeak = 0;
  uint64_t hash;
  std::vector<SysRec> trace;
  std::vector<std::pair<FK, Sys>> fired;
  std::set<std::string> touched;
  uint64_t useFirst = 0, useLast = 0, firstStep = 0, lastStep = 0;
  bool ok() const { return end == End::Exited && code == 0; }
  bool failed() const { return end == End::Exited && code != 0; }
  bool asked() const { return out.find("(y/n)") != std::string::npos; }
  std::string brief() const;
};

struct Hist
{
  bool ok = true; std::string err;
  std::vector<Tree> ids;
  bool meta = false; // a metadata file exists
};

struct St // complete state of a run, copied for variants
{
  World w;
  Model m;
  std::map<std::string, std::string> vars;
  std::vector<Tree> trees;
  std::vector<Hist> hists;
  std::string notes;
  std::vector<World> alt; // further worlds which see the same edits (C18)
};

struct Ex;
struct Prop
{
  const char *id;
  void (*gen)(Ex &, Rng &);
  // Executes one run-like step on the given state and checks the property.
  void (*run)(Ex &, St &, const Step &);
  void (*finish)(Ex &, St &); // checks at the end of the plan (may be null)
};

struct Ex
{
  Stats &st;
  const Prop *prop = nullptr;
  Plan plan;
  St s;
  std::string viol;
  Hash h;
  bool thorough = false;
  bool exploring = true; // false while replaying
  explicit Ex(Stats &x) : st(x) {}

  // Records and executes a step. Returns false once a violation was found.
  bool step(const Step &x);
  bool step(const std::string &text) { return step(Step::parse(text)); }
  void exec(const Step &x);
  void end();
  void fail(const std::string &why) { if(viol.empty()) viol = why; }
  bool bad() const { return !viol.empty(); }

  // Runs nb as described by the step on the world.
  Out nb(World &w, const Step &x, bool trace = false);
  Hist observe(const World &w);
  // An ordinary undisturbed run that has to succeed.
  Out plain(World &w, const Step &x);
  std::string config(const World &w);
  // The same step without its faults, on a copy (cached).
  struct Dry { World w; Out o; };
  std::shared_ptr<const Dry> dry(const World &w, const Step &x);
  std::vector<std::pair<uint64_t, std::shared_ptr<const Dry>>> dryCache;
  // Picks a fault plan for a run and returns it as step arguments.
};
void setupProc(Proc &p, World &w, const Step &x);
Step withoutFaults(const Step &x);

uint64_t repoHash(const World &w, bool attrs = false);
uint64_t worldHash(const World &w);
std::string fileAt(const World &w, const std::string &path, bool *exists = nullptr);
extern bool showRuns;
bool sameTree(const Tree &a, const Tree &b, std::string &why, bool dirTimes = true);
bool sameEntry(const Entry &a, const Entry &b, bool time, std::string &why);
bool sameHist(const Hist &a, const Hist &b, std::string &why);
// Full, exact comparison of everything below a path (used for "nothing changed").
bool identical(const Tree &a, const Tree &b, std::string &why);
Tree snap(const World &w, const std::string &path, const std::string &exclude = "");
void wipeExceptRepo(World &w);
Step runStep(const std::string &cmd, int id = -1, const std::string &path = "");
bool inPath(const std::string &p, const std::string &base);
int64_t secs(int64_t ns);
extern const std::vector<const Prop *> allProps;
const Prop *findProp(const std::string &id);

// Fault selection helpers (gen.cpp)
extern uint64_t runIndex; // of the run being generated
struct GenOpts
{
  bool types = true;       // symlinks, directories replaced etc.
  bool owners = true;
  bool special = true;     // fifos
  bool oddNames = true;
  bool big = true;
  bool regex = true, ignore = true, summarize = false, implicitParents = true, rootPolicy = false, symlinkDirs = false;
  bool copy = true, mirror = true, track = true;
  bool hardlinks = true;
  bool allReadable = true;
  uint32_t uid = 0;
  int maxFiles = 14;
  double collide = 0;      // worlds with a weakened hash
  bool sameSecondEdits = false; // edits that keep size and mtime
};
struct Gen
{
  Ex &ex; Rng &r; GenOpts o;
  std::vector<std::string> roots; // source roots
  int64_t ts = 1500000000;
  Gen(Ex &e, Rng &g, const GenOpts &op) : ex(e), r(g), o(op) {}
  std::vector<std::string> paths(bool dirs, bool files, bool links = false);
  std::string name();
  std::string newPath();
  Step mkFile(const std::string &p);
  Step mkAny(const std::string &p);
  uint64_t size();
  int64_t kind(); // of content
  int64_t stamp();
  void tree();
  void deep();
  bool crowd();
  void edit(int n);
  Step oneEdit();
  std::vector<std::string> cfgLines;
  void config();
  void editConfig();
  bool usable(const Conf &c);
  void fixConfig();
  void dropDirLinks();
  void writeConfig();
  void initWorld(const std::string &extra = "");
  // tree, config, and some completed backups with edits in between
  void history(int backups, int editsPer, bool cfgEdits = false);
  int ids();
  std::string anyRepoPath(int &id); // a path some backup contains
};
std::vector<uint32_t> pickCalls(Rng &r, const std::vector<SysRec> &tr, int n, bool mutOnly = false);
std::string powerSuffix(Rng &r);
std::string errFault(Rng &r, const std::vector<SysRec> &tr, uint32_t at);
