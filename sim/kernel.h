// Simulated kernel: processes as coroutines, system calls, faults, scheduling.
#pragma once
#include "simfs.h"
#include <deque>
#include <ucontext.h>
#include <unordered_map>
#include <unordered_set>

enum Sys : uint8_t
{
  S_none, S_open, S_openw, S_close, S_read, S_write, S_lseek, S_fstat, S_stat, S_lstat, S_access, S_mkdir, S_rmdir,
  S_unlink, S_rename, S_symlink, S_link, S_readlink, S_chmod, S_chown, S_utime, S_sync, S_trunc, S_opendir, S_readdir,
  S_closedir, S_lock, S_unlock, S_getcwd, S_chdir, S_time, S_clock, S_readin, S_writeout, S_isatty, S_misc, S_exit,
  S_count
};
extern const char *sysNames[];
bool sysMutates(Sys s);

enum class FK : uint8_t { None, Err, Short, Kill, Power, Mem, Regex, Jump, Mutate, Full, Stop };
struct Fault
{
  FK k = FK::None;
  uint32_t at = 0;   // system call number (Mem: allocation number, Regex: regexec number), 1-based
  int64_t arg = 0;   // errno / byte count / clock jump ns / free bytes (Full)
  bool sticky = false; // Err: all later calls of the same kind and path too
  std::string ext;   // Mutate: encoded file system operation
};

struct Env // incidental environment of one process
{
  uint64_t seed = 1;     // readdir order, dot positions, removed-entry visibility
  uint32_t blksize = 4096;
  uint64_t blkmix = 0;   // preferred block sizes differ between files
  bool dirlink = false;  // directories always have one link, as on btrfs
  bool noblocks = false; // no file seems to occupy any blocks
  uint32_t iobuf = 4096;
  uint8_t fill = 0xA5;   // contents of fresh memory
  uint32_t pid = 100;
  bool tty = false;
  bool dtype = true;
  uint32_t uid = 0, gid = 0;
  uint32_t umask = 022;
  int64_t tick = 1000;   // ns per system call
  uint32_t nofile = 256; // limit of open files
  uint64_t memMax = 0;   // limit of allocated memory (0: none)
  std::string cwd = "/";
};

struct OpenFile { Ino ino = 0; uint64_t pos = 0; int flags = 0; int special = 0; /*1 stdin 2 stdout 3 stderr*/ bool append = false; std::string path; int flocked = 0; };
struct SFile;
struct SDir;

struct Lock { uint32_t pid; bool write; OpenFile *ofd; };

struct World
{
  FS fs;
  int64_t clock = 1600000000LL * 1000000000LL;
  int64_t simSpan = 0; // simulated time consumed
  bool ordered = false; // durability model of syncs
  bool ro1 = false; // device 1 is mounted read-only
  int64_t freeBytes = -1; // -1 unlimited
  uint32_t hashMask = 0; // 0: real hash, otherwise only this many distinct hashes
  std::map<Ino, std::vector<Lock>> locks;
};

struct SysRec { Sys s; std::string path; int err; uint64_t size; uint8_t flag; };

enum class End : uint8_t { Running, Exited, Killed, Crashed, Hang, Power, Unsupported, Blocked };

struct Proc
{
  World *w = nullptr;
  Env env;
  std::vector<std::string> argv;
  std::string in; size_t inPos = 0;
  std::string out, err;
  std::vector<Fault> faults;
  // results
  End end = End::Running;
  int code = -1;
  std::string crash;
  uint32_t nsys = 0, nmem = 0, nrx = 0;
  std::vector<SysRec> *trace = nullptr;
  Hash hash;
  std::vector<std::pair<FK, Sys>> fired;
  // Repository use, in global steps (see C11)
  uint64_t useFirst = 0, useLast = 0;
  uint64_t firstStep = 0, lastStep = 0;
  std::set<std::string> *touched = nullptr; // paths mutated
  // runtime
  ucontext_t ctx;
  char *stack = nullptr;
  std::vector<char> globals;
  int eno = 0;
  std::string cwd;
  std::vector<std::shared_ptr<OpenFile>> fds;
  std::vector<SFile *> files;
  std::vector<SDir *> dirs;
  std::vector<void (*)(void)> atexits;
  std::vector<std::pair<void (*)(int, void *), void *>> onexits;
  std::unordered_map<void *, size_t> mem;
  std::deque<std::pair<void *, size_t>> freed;
  size_t freedSize = 0;
  uint64_t memNow = 0, memPeak = 0;
  uint32_t fdPeak = 0;
  std::unordered_set<void *> regexes;
  uint32_t umask_ = 022;
  uint64_t rnd = 1;
  Sys stickyKind = S_none; std::string stickyPath; int stickyErr = 0;
  SFile *in_ = nullptr, *out_ = nullptr, *err_ = nullptr;
  bool started = false;
  bool wantYield = false;
  uint64_t cpuMark = 0;
  bool exiting = false;
  ~Proc();
};

extern Proc *cur;            // running process
extern uint64_t globalStep;  // counts all system calls of all processes
extern uint32_t sysBudget;
extern std::string repoPath; // repository under observation (for useFirst/useLast)
extern volatile bool asanReported;
extern std::string asanText;

// Callbacks
extern std::function<void(World &, const std::string &)> mutateHook;

void kernelInit();
// Runs one process to its end.
void runProc(Proc &p);
// Runs several processes; pick(runnable) chooses the next one before every system call.
void runMulti(std::vector<Proc *> &ps, const std::function<size_t(const std::vector<Proc *> &)> &pick);
void finishProc(Proc &p);

// used by libc.cpp
int sysPoint(Sys s, const std::string &path, uint64_t size = 0); // returns errno to inject or 0; may not return
extern int64_t sysShort; // set by sysPoint if a short transfer was requested (-1 none)
[[noreturn]] void procEnd(End e, int code, const std::string &why = "");
[[noreturn]] void unsupported(const char *what);
