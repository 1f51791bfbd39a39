// Command line of the simulator: seeded search, replay and minimisation.
#include "exec.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

static double now()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}
static std::string readFile(const char *p)
{
  std::string s;
  FILE *f = fopen(p, "rb");
  if(!f) { fprintf(stderr, "cannot read %s\n", p); exit(3); }
  char b[65536];
  size_t n;
  while((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
static void writeFile(const std::string &p, const std::string &s)
{
  FILE *f = fopen(p.c_str(), "wb");
  if(!f) { fprintf(stderr, "cannot write %s\n", p.c_str()); exit(3); }
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
}
static std::string js(const std::string &s)
{
  std::string r = "\"";
  for(unsigned char c : s)
  {
    if(c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}
struct Res { std::string viol; uint64_t hash = 0; bool aborted = false; std::string why; };
static Res execPlan(const Plan &p, Stats &st)
{
  Res r;
  Ex ex(st);
  ex.exploring = false;
  ex.prop = findProp(p.prop);
  if(!ex.prop) { r.aborted = true; r.why = "unknown property"; return r; }
  ex.plan.prop = p.prop;
  try
  {
    for(auto &x : p.steps) if(!ex.step(x)) break;
    ex.end();
  }
  catch(Abort &a) { r.aborted = true; r.why = a.why; }
  r.viol = ex.viol;
  r.hash = ex.h.h;
  return r;
}
static uint64_t runSeed(uint64_t seed, const char *prop, uint64_t i)
{
  Hash h;
  h.add(seed); h.add(std::string(prop)); h.add(i);
  return h.h;
}
static std::string summary(const Plan &p)
{
  std::string t;
  for(auto &s : p.steps)
  {
    std::string l = s.text();
    if(l.size() > 110) l = l.substr(0, 107) + "...";
    t += l + " | ";
    if(t.size() > 1600) { t += "..."; break; }
  }
  return t;
}

static int cmdRun(int argc, char **argv)
{
  // run PROP SEED K W N LIMIT THOROUGH OUTDIR
  if(argc < 10) return 3;
  std::string prop = argv[2];
  uint64_t seed = strtoull(argv[3], 0, 10), k = strtoull(argv[4], 0, 10), w = strtoull(argv[5], 0, 10), n = strtoull(argv[6], 0, 10);
  double limit = atof(argv[7]);
  bool thorough = atoi(argv[8]) != 0;
  std::string dir = argv[9];
  Stats st;
  const Prop *p = findProp(prop);
  if(!p) return 3;
  double t0 = now();
  uint64_t done = 0, gate = 0;
  std::string viol, replay, aborted;
  uint64_t lastIndex = 0;
  std::unordered_set<uint64_t> planHashes;
  bool timedOut = false;
  for(uint64_t i = k; i < n; i += w)
  {
    if(now() - t0 > limit) { timedOut = true; break; }
    lastIndex = i;
    writeFile(dir + "/progress." + std::to_string(k), std::to_string(i));
    Rng r(runSeed(seed, prop.c_str(), i));
    runIndex = i;
    uint64_t procs0 = st.procs, obs0 = st.observations + st.modelChecks, fired0 = 0;
    for(auto &e : st.faults) fired0 += e.second;
    Ex ex(st);
    ex.prop = p;
    ex.plan.prop = prop;
    ex.thorough = thorough;
    try
    {
      p->gen(ex, r);
      ex.end();
    }
    catch(Abort &a) { aborted = a.why; writeFile(dir + "/abort." + std::to_string(k) + ".plan", ex.plan.text()); break; }
    done++;
    uint64_t fired1 = 0;
    for(auto &e : st.faults) fired1 += e.second;
    if(st.procs > procs0 && (fired1 > fired0 || st.observations + st.modelChecks > obs0)) planHashes.insert(ex.h.h);
    if(st.samples.size() < 2 && i % 7 == k % 7) st.samples.push_back("run " + std::to_string(i) + ": " + summary(ex.plan));
    bool check = ex.bad() || done % 40 == 1;
    if(check)
    {
      Stats tmp;
      Res a = execPlan(ex.plan, tmp);
      st.reexec++;
      gate++;
      if(a.aborted || a.hash != ex.h.h || a.viol != ex.viol)
      {
        aborted = "nondeterministic: re-executing run " + std::to_string(i) + " gave a different result (" + ex.viol + " | " + a.viol + " " + a.why + ")";
        writeFile(dir + "/abort." + std::to_string(k) + ".plan", ex.plan.text());
        break;
      }
    }
    if(ex.bad())
    {
      viol = ex.viol;
      replay = dir + "/raw." + std::to_string(k) + ".plan";
      writeFile(replay, ex.plan.text());
      break;
    }
  }
  double dt = now() - t0;
  FILE *f = fopen((dir + "/sets." + std::to_string(k)).c_str(), "wb");
  auto dump = [&](const std::unordered_set<uint64_t> &s) { uint64_t c = s.size(); fwrite(&c, 8, 1, f); for(uint64_t v : s) fwrite(&v, 8, 1, f); };
  dump(st.states); dump(st.traces); dump(st.sites); dump(planHashes);
  fclose(f);
  std::string o = "{";
  auto num = [&](const char *nm, double v) { char b[128]; snprintf(b, sizeof b, "%s\"%s\": %.17g", o.size() > 1 ? ", " : "", nm, v); o += b; };
  num("runs", (double)done); num("last", (double)lastIndex); num("seconds", dt); num("processes", (double)st.procs); num("syscalls", (double)st.syscalls);
  num("observations", (double)st.observations); num("model_checks", (double)st.modelChecks); num("reexecuted", (double)gate); num("sim_seconds", (double)st.simNs * 1e-9);
  num("timed_out", timedOut);
  o += ", \"faults\": {";
  bool first = true;
  for(auto &e : st.faults) { o += (first ? "" : ", ") + js(e.first) + ": " + std::to_string(e.second); first = false; }
  o += "}, \"counts\": {";
  first = true;
  for(auto &e : st.count) { o += (first ? "" : ", ") + js(e.first) + ": " + std::to_string(e.second); first = false; }
  o += "}, \"samples\": [";
  first = true;
  for(auto &e : st.samples) { o += (first ? "" : ", ") + js(e); first = false; }
  o += "], \"violation\": " + (viol.empty() ? std::string("null") : js(viol)) + ", \"replay\": " + js(replay) + ", \"aborted\": " + (aborted.empty() ? std::string("null") : js(aborted)) + "}";
  writeFile(dir + "/stats." + std::to_string(k) + ".json", o);
  return 0;
}
static int cmdReplay(int argc, char **argv)
{
  Plan p;
  if(argc < 3 || !Plan::parse(readFile(argv[2]), p)) { fprintf(stderr, "bad plan\n"); return 3; }
  Stats st;
  Res r = execPlan(p, st);
  if(r.aborted) { printf("ABORT %s\n", r.why.c_str()); return 3; }
  printf("hash %016lx\n", r.hash);
  if(!r.viol.empty()) { printf("VIOLATION %s\n", r.viol.c_str()); return 1; }
  printf("OK\n");
  return 0;
}

// ---- minimisation ----------------------------------------------------------
static std::vector<std::string> knownSigs;
static std::string kind(const std::string &v)
{
  // The violation text without names and numbers.
  std::string k;
  for(size_t i = 0; i < v.size() && k.size() < 110; i++)
  {
    if(v[i] == '(') break;
    if(v[i] == '"') { size_t e = v.find('"', i + 1); if(e != std::string::npos) { i = e; continue; } }
    if(v[i] == '/') { while(i < v.size() && v[i] != ' ' && v[i] != ':') i++; if(i < v.size()) i--; continue; }
    if(!isdigit((unsigned char)v[i])) k += v[i];
  }
  return k;
}
static std::string tryPlan(const Plan &p, double limit)
{
  static char *sh = (char *)mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh[0] = 0;
  pid_t c = fork();
  if(c == 0)
  {
    alarm((unsigned)limit);
    Stats st;
    Res r = execPlan(p, st);
    if(!r.aborted && !r.viol.empty()) { strncpy(sh, r.viol.c_str(), 60000); sh[60000] = 0; }
    _exit(0);
  }
  int s;
  waitpid(c, &s, 0);
  return sh;
}
static int cmdMin(int argc, char **argv)
{
  // min FILE OUT SECONDS
  Plan p;
  if(argc < 5 || !Plan::parse(readFile(argv[2]), p)) return 3;
  double t0 = now(), limit = atof(argv[4]);
  std::string v = tryPlan(p, 120);
  if(v.empty()) return 3;
  std::string want = kind(v);
  auto accept = [&](const Plan &c) {
    if(now() - t0 > limit) return false;
    std::string x = tryPlan(c, 60);
    if(x.empty() || kind(x) != want) return false;
    v = x; p = c;
    return true;
  };
  bool again = true;
  while(again && now() - t0 < limit)
  {
    again = false;
    for(size_t n = p.steps.size() / 2; n >= 1; n /= 2) // chunks of steps
    {
      for(size_t i = 1; i < p.steps.size();)
      {
        Plan c = p;
        size_t e = std::min(p.steps.size(), i + n);
        c.steps.erase(c.steps.begin() + (long)i, c.steps.begin() + (long)e);
        if(accept(c)) again = true; else i += n;
      }
      if(n == 1) break;
    }
    for(size_t i = 0; i < p.steps.size(); i++) // single arguments
      for(size_t j = 0; j < p.steps[i].kv.size();)
      {
        const std::string &key = p.steps[i].kv[j].first;
        if(key == "p" || key == "cmd" || key == "q" || key == "t" || key == "id") { j++; continue; }
        Plan c = p;
        c.steps[i].kv.erase(c.steps[i].kv.begin() + (long)j);
        if(accept(c)) again = true; else j++;
      }
    for(size_t i = 0; i < p.steps.size(); i++) // smaller numbers
      for(size_t j = 0; j < p.steps[i].kv.size(); j++)
      {
        auto &e = p.steps[i].kv[j];
        if(e.first != "n" && e.first != "c" && e.first != "d") continue;
        for(const char *s : {"0", "1", "21", "100", "1000000000"})
        {
          if(strtoll(s, 0, 10) >= strtoll(e.second.c_str(), 0, 10)) break;
          Plan c = p;
          c.steps[i].kv[j].second = s;
          if(accept(c)) { again = true; break; }
        }
      }
  }
  Stats st;
  writeFile(argv[3], p.text());
  printf("%s\n", v.c_str());
  return 0;
}
static int cmdShow(int argc, char **argv)
{
  Plan p;
  if(argc < 3 || !Plan::parse(readFile(argv[2]), p)) return 3;
  extern bool showRuns;
  showRuns = true;
  Stats st;
  Res r = execPlan(p, st);
  printf("%s\n", r.aborted ? r.why.c_str() : r.viol.empty() ? "OK" : r.viol.c_str());
  return 0;
}
int main(int argc, char **argv)
{
  kernelInit();
  if(argc < 2) return 3;
  if(!strcmp(argv[1], "run")) return cmdRun(argc, argv);
  if(!strcmp(argv[1], "replay")) return cmdReplay(argc, argv);
  if(!strcmp(argv[1], "min")) return cmdMin(argc, argv);
  if(!strcmp(argv[1], "show")) return cmdShow(argc, argv);
  if(!strcmp(argv[1], "tee") && argc > 5) // tee PROP SEED I FILE: writes every step before executing it
  {
    Rng r(runSeed(strtoull(argv[3], 0, 10), argv[2], runIndex = strtoull(argv[4], 0, 10)));
    extern std::string teeFile;
    teeFile = argv[5];
    Stats st;
    Ex ex(st);
    ex.prop = findProp(argv[2]);
    if(!ex.prop) return 3;
    ex.plan.prop = argv[2];
    try { ex.prop->gen(ex, r); ex.end(); }
    catch(Abort &a) { printf("ABORT %s\n", a.why.c_str()); return 3; }
    writeFile(teeFile, ex.plan.text());
    printf("%s\n", ex.viol.c_str());
    return ex.bad() ? 1 : 0;
  }
  if(!strcmp(argv[1], "gen"))
  {
    Rng r(runSeed(strtoull(argv[3], 0, 10), argv[2], runIndex = strtoull(argv[4], 0, 10)));
    Stats st;
    Ex ex(st);
    ex.prop = findProp(argv[2]);
    ex.plan.prop = argv[2];
    ex.prop->gen(ex, r);
    ex.end();
    printf("%s", ex.plan.text().c_str());
    fprintf(stderr, "%s\n", ex.viol.c_str());
    return 0;
  }
  return 3;
}
