#include "kernel.h"
#include "libc.h"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif

extern "C" char __start_nbdata[], __stop_nbdata[];
extern "C" int nb_main(int, const char **);

Proc *cur = nullptr;
uint64_t globalStep = 0;
uint32_t sysBudget = 400000;
std::string repoPath = "/repo";
int64_t sysShort = -1;
volatile bool asanReported = false;
std::string asanText;
std::function<void(World &, const std::string &)> mutateHook;

const char *sysNames[] = {
  "none", "open", "openw", "close", "read", "write", "lseek", "fstat", "stat", "lstat", "access", "mkdir", "rmdir",
  "unlink", "rename", "symlink", "link", "readlink", "chmod", "chown", "utime", "sync", "trunc", "opendir", "readdir",
  "closedir", "lock", "unlock", "getcwd", "chdir", "time", "clock", "readin", "writeout", "isatty", "misc", "exit"};

bool sysMutates(Sys s)
{
  switch(s)
  {
    case S_openw: case S_write: case S_mkdir: case S_rmdir: case S_unlink: case S_rename: case S_symlink: case S_link:
    case S_chmod: case S_chown: case S_utime: case S_sync: case S_trunc: return true;
    default: return false;
  }
}

// memcpy that the address sanitizer does not check (globals contain red zones)
static void rawCopy(void *d, const void *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }

static const size_t STACK = 8 << 20;
static std::vector<char> pristine;
static ucontext_t mainCtx;
static std::vector<char *> freeStacks;
static volatile sig_atomic_t inProc = 0;
static const char *crashSig = nullptr;
#if defined(__SANITIZE_ADDRESS__)
static void *mainFake = nullptr;
static const void *mainBottom = nullptr; static size_t mainSize = 0;
#endif

static void switchToMain()
{
  Proc *p = cur;
#if defined(__SANITIZE_ADDRESS__)
  bool dying = p->end != End::Running;
  void *fake = nullptr;
  __sanitizer_start_switch_fiber(dying ? nullptr : &fake, mainBottom, mainSize);
#endif
  swapcontext(&p->ctx, &mainCtx);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_finish_switch_fiber(fake, &mainBottom, &mainSize);
#endif
}

static char *altStack;
static int faultSig;
static void landing()
{
  cur->end = faultSig == SIGVTALRM ? End::Hang : End::Crashed;
  cur->crash = faultSig == SIGSEGV ? "SIGSEGV" : faultSig == SIGBUS ? "SIGBUS" : faultSig == SIGFPE ? "SIGFPE" :
    faultSig == SIGILL ? "SIGILL" : faultSig == SIGVTALRM ? "endless loop" : "SIGABRT";
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_start_switch_fiber(nullptr, mainBottom, mainSize);
#endif
  setcontext(&mainCtx);
}
static ucontext_t landCtx;
static char *landStack;
static void onSignal(int sig, siginfo_t *, void *uc)
{
  if(sig == SIGVTALRM && !inProc) return;
  if(!inProc || !cur)
  {
    const char m[] = "simulator: fatal signal outside of a simulated process\n";
    ssize_t n = write(2, m, sizeof m - 1); (void)n;
    signal(sig, SIG_DFL);
    raise(sig);
    return;
  }
  faultSig = sig;
  (void)uc;
  cur->end = End::Crashed;
  getcontext(&landCtx);
  landCtx.uc_stack.ss_sp = landStack; landCtx.uc_stack.ss_size = 65536; landCtx.uc_link = nullptr;
  sigemptyset(&landCtx.uc_sigmask);
  makecontext(&landCtx, (void (*)())landing, 0);
  setcontext(&landCtx);
}

#if defined(__SANITIZE_ADDRESS__)
static void onAsan(const char *text)
{
  if(!asanReported) { asanReported = true; asanText = text; }
}
extern "C" const char *__asan_default_options()
{
  return "halt_on_error=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_abort=0:detect_leaks=0:"
         "detect_stack_use_after_return=0:allocator_may_return_null=1:log_path=/dev/null:print_stats=0:symbolize=1:"
         "max_allocation_size_mb=600:quarantine_size_mb=16";
}
#endif

void kernelInit()
{
  static bool done = false;
  if(done) return;
  done = true;
  pristine.resize((size_t)(__stop_nbdata - __start_nbdata));
  rawCopy(pristine.data(), __start_nbdata, pristine.size());
  altStack = (char *)malloc(131072);
  landStack = (char *)malloc(65536);
  stack_t ss{};
  ss.ss_sp = altStack; ss.ss_size = 131072;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_sigaction = onSignal;
  sa.sa_flags = SA_ONSTACK | SA_SIGINFO | SA_NODEFER;
  for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
#if defined(__SANITIZE_ADDRESS__)
  __asan_set_error_report_callback(onAsan);
#endif
}

static char *getStack()
{
  if(!freeStacks.empty()) { char *s = freeStacks.back(); freeStacks.pop_back(); return s; }
  char *s = (char *)mmap(nullptr, STACK + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(s, 4096, PROT_NONE);
  return s;
}

static void entry()
{
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_finish_switch_fiber(nullptr, &mainBottom, &mainSize);
#endif
  Proc *p = cur;
  std::vector<const char *> av;
  av.push_back("nb");
  for(auto &a : p->argv) av.push_back(a.c_str());
  int n = (int)av.size();
  av.push_back(nullptr);
  int c = nb_main(n, av.data());
  simExit(c);
}

static void startProc(Proc &p)
{
  p.started = true;
  p.stack = getStack();
  p.globals = pristine;
  p.rnd = p.env.seed * 77 + 5;
  p.cwd = p.env.cwd;
  libcStart(p);
  getcontext(&p.ctx);
  p.ctx.uc_stack.ss_sp = p.stack + 4096;
  p.ctx.uc_stack.ss_size = STACK;
  p.ctx.uc_link = nullptr;
  makecontext(&p.ctx, (void (*)())entry, 0);
}

static void resume(Proc &p)
{
  if(!p.started) startProc(p);
  rawCopy(__start_nbdata, p.globals.data(), p.globals.size());
  cur = &p;
  libcSwitch(p);
  itimerval tv{}; tv.it_value.tv_sec = 20;
  static int count = 0;
  if((count++ & 63) == 0 || !p.w->fs.track) setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  inProc = 1;
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_start_switch_fiber(&mainFake, p.stack + 4096, STACK);
#endif
  swapcontext(&mainCtx, &p.ctx);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_finish_switch_fiber(mainFake, nullptr, nullptr);
#endif
  inProc = 0;
  if(p.end == End::Running) rawCopy(p.globals.data(), __start_nbdata, p.globals.size());
  cur = nullptr;
}

void finishProc(Proc &p)
{
  if(p.w)
    for(auto it = p.w->locks.begin(); it != p.w->locks.end();)
    {
      auto &v = it->second;
      for(size_t i = v.size(); i-- > 0;) if(v[i].pid == p.env.pid) v.erase(v.begin() + i);
      if(v.empty()) it = p.w->locks.erase(it); else ++it;
    }
  libcFinish(p);
  p.fds.clear();
  if(p.stack)
  {
#if defined(__SANITIZE_ADDRESS__)
    __asan_unpoison_memory_region(p.stack + 4096, STACK);
#endif
    freeStacks.push_back(p.stack);
    p.stack = nullptr;
  }
  if(asanReported && p.end != End::Crashed)
  {
    p.end = End::Crashed;
    size_t a = asanText.find("AddressSanitizer: ");
    p.crash = "memory error: " + (a == std::string::npos ? "?" : asanText.substr(a + 18, asanText.find_first_of(" \n", a + 18) - a - 18));
  }
  p.hash.add((uint64_t)p.end); p.hash.add((uint64_t)p.code); p.hash.add(p.nsys); p.hash.add(p.out); p.hash.add(p.err);
}

Proc::~Proc() { if(stack) finishProc(*this); }

void runProc(Proc &p)
{
  asanReported = false;
  resume(p);
  finishProc(p);
}

void runMulti(std::vector<Proc *> &ps, const std::function<size_t(const std::vector<Proc *> &)> &pick)
{
  asanReported = false;
  for(auto p : ps) p->wantYield = true;
  for(;;)
  {
    std::vector<Proc *> run;
    for(auto p : ps) if(p->end == End::Running) run.push_back(p);
    if(run.empty()) break;
    Proc *p = run[pick(run)];
    resume(*p);
    if(p->end != End::Running) finishProc(*p);
    if(p->end == End::Power)
    {
      for(auto q : run) if(q != p && q->started && q->end == End::Running) { q->end = End::Power; finishProc(*q); }
      for(auto q : run) if(!q->started) q->end = End::Power;
      break;
    }
  }
}

void procEnd(End e, int code, const std::string &why)
{
  cur->end = e;
  cur->code = code;
  cur->crash = why;
  switchToMain();
  abort();
}
void unsupported(const char *what) { procEnd(End::Unsupported, -1, what); }

// errno values each kind of call may plausibly return
static bool errnoValid(Sys s, int e)
{
  switch(s)
  {
    case S_open: return e == EIO || e == EMFILE || e == ENFILE || e == ENOMEM || e == EACCES || e == EINTR;
    case S_openw: return e == EIO || e == EMFILE || e == ENFILE || e == ENOMEM || e == EACCES || e == ENOSPC || e == EROFS || e == EINTR || e == EDQUOT;
    case S_close: return e == EIO || e == EINTR || e == ENOSPC || e == EDQUOT;
    case S_read: case S_readin: return e == EIO || e == EINTR;
    case S_write: return e == EIO || e == ENOSPC || e == EDQUOT || e == EFBIG || e == EINTR;
    case S_writeout: return e == EIO || e == ENOSPC || e == EBADF;
    case S_fstat: return e == EIO || e == EOVERFLOW;
    case S_stat: case S_lstat: case S_access: return e == EIO || e == EACCES || e == ENOMEM || e == EOVERFLOW;
    case S_mkdir: case S_symlink: case S_link: return e == EIO || e == ENOSPC || e == EACCES || e == EROFS || e == EDQUOT || e == ENOMEM || e == EMLINK;
    case S_rmdir: case S_unlink: return e == EIO || e == EACCES || e == EPERM || e == EROFS || e == EBUSY || e == ENOMEM;
    case S_rename: return e == EIO || e == ENOSPC || e == EACCES || e == EROFS || e == EDQUOT || e == ENOMEM || e == EBUSY;
    case S_readlink: return e == EIO || e == EACCES || e == ENOMEM;
    case S_chmod: case S_chown: case S_utime: return e == EIO || e == EPERM || e == EROFS || e == EACCES || e == ENOMEM;
    case S_sync: return e == EIO || e == ENOSPC || e == EDQUOT || e == EINTR;
    case S_trunc: return e == EIO || e == EFBIG;
    case S_opendir: return e == EIO || e == EACCES || e == EMFILE || e == ENFILE || e == ENOMEM;
    case S_readdir: return e == EIO || e == EOVERFLOW;
    case S_closedir: return e == EIO || e == EINTR;
    case S_lock: return e == EINTR || e == ENOLCK || e == EDEADLK || e == EIO;
    case S_getcwd: return e == ENOENT || e == EACCES || e == ENOMEM;
    case S_time: case S_clock: return e == EINVAL;
    default: return false;
  }
}
bool faultErrValid(Sys s, int e) { return errnoValid(s, e); }

static bool under(const std::string &p, const std::string &base)
{
  return p.compare(0, base.size(), base) == 0 && (p.size() == base.size() || p[base.size()] == '/');
}

int sysPoint(Sys s, const std::string &path, uint64_t size)
{
  Proc *p = cur;
  if(p->wantYield && s != S_exit)
  {
    switchToMain(); // the scheduler decides who runs before every call
    libcSwitch(*p);
  }
  globalStep++;
  if(!p->firstStep) p->firstStep = globalStep;
  p->lastStep = globalStep;
  p->nsys++;
  p->w->clock += p->env.tick;
  p->w->simSpan += p->env.tick;
  sysShort = -1;
  // a call that succeeds may leave anything in errno; reading keeps it, to let the end be told from an error
  if(s != S_readdir && s != S_read && s != S_readin && p->env.seed % 4 == 1) p->eno = (int[]){EAGAIN, ENOTTY, EINTR, ENOENT, EEXIST}[p->nsys % 5];
  p->hash.add(((uint64_t)s << 32) ^ size);
  p->hash.add(path);
  if(p->trace) p->trace->push_back({s, path, 0, size, 0});
  if(p->nsys > (p->w->fs.track ? sysBudget : 10 * sysBudget)) procEnd(End::Hang, -1, "system call budget exceeded");
  if(s == S_readin) { if(p->useFirst) p->useLast = globalStep; }
  else if((s == S_open || s == S_openw || s == S_opendir || s == S_read || s == S_write || s == S_readdir || (sysMutates(s))) && under(path, repoPath) && path != repoPath + "/lockfile" && path != repoPath + "/config" && !(s == S_open && path == repoPath))
  {
    if(!p->useFirst) p->useFirst = globalStep;
    p->useLast = globalStep;
  }
  int err = 0;
  if(p->stickyErr && p->stickyKind == s && p->stickyPath == path) err = p->stickyErr;
  for(auto &f : p->faults)
  {
    if(f.at != p->nsys) continue;
    switch(f.k)
    {
      case FK::Kill: p->fired.push_back({f.k, s}); procEnd(End::Killed, -1);
      case FK::Power: p->fired.push_back({f.k, s}); procEnd(End::Power, -1);
      case FK::Stop: procEnd(End::Blocked, -1);
      case FK::Err:
        if(errnoValid(s, (int)f.arg))
        {
          err = (int)f.arg;
          p->fired.push_back({f.k, s});
          if(f.sticky) { p->stickyKind = s; p->stickyPath = path; p->stickyErr = err; }
        }
        break;
      case FK::Short: if(size > 1 && (s == S_read || s == S_write || s == S_readin)) { sysShort = 1 + f.arg % (size - 1); p->fired.push_back({f.k, s}); } break;
      case FK::Jump: p->w->clock = std::max<int64_t>(0, p->w->clock + f.arg); // no system lets its clock go below zero
        p->fired.push_back({f.k, s}); break;
      case FK::Full: p->w->freeBytes = f.arg; p->fired.push_back({f.k, s}); break;
      case FK::Mutate: if(mutateHook) mutateHook(*p->w, f.ext); p->fired.push_back({f.k, s}); break;
      default: break;
    }
  }
  if(err && p->trace) p->trace->back().err = err;
  if(err) p->hash.add((uint64_t)err * 31);
  return err;
}
