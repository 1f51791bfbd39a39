// A plan is the complete, replayable description of one simulated run.
#pragma once
#include "kernel.h"
#include <string>
#include <vector>

std::string esc(const std::string &s);
std::string unesc(const std::string &s);

struct Step
{
  std::string op;
  std::vector<std::pair<std::string, std::string>> kv;
  Step() {}
  explicit Step(const std::string &o) : op(o) {}
  const std::string *find(const std::string &k) const
  {
    for(auto &e : kv) if(e.first == k) return &e.second;
    return nullptr;
  }
  std::string get(const std::string &k, const std::string &d = "") const { auto p = find(k); return p ? *p : d; }
  bool has(const std::string &k) const { return find(k) != nullptr; }
  int64_t num(const std::string &k, int64_t d = 0) const { auto p = find(k); return p && !p->empty() ? strtoll(p->c_str(), nullptr, 10) : d; }
  std::vector<std::string> all(const std::string &k) const
  {
    std::vector<std::string> r;
    for(auto &e : kv) if(e.first == k) r.push_back(e.second);
    return r;
  }
  Step &set(const std::string &k, const std::string &v)
  {
    for(auto &e : kv) if(e.first == k) { e.second = v; return *this; }
    kv.push_back({k, v});
    return *this;
  }
  Step &set(const std::string &k, const char *v) { return set(k, std::string(v)); }
  Step &set(const std::string &k, int v) { return set(k, std::to_string(v)); }
  Step &set(const std::string &k, long long v) { return set(k, std::to_string(v)); }
  Step &set(const std::string &k, uint32_t v) { return set(k, std::to_string(v)); }
  Step &set(const std::string &k, int64_t v) { return set(k, std::to_string(v)); }
  Step &add(const std::string &k, const std::string &v) { kv.push_back({k, v}); return *this; }
  std::string text() const;
  static Step parse(const std::string &line);
};

struct Plan
{
  std::string prop;
  std::vector<Step> steps;
  std::string text() const;
  static bool parse(const std::string &t, Plan &out);
};

Fault parseFault(const std::string &s);
std::string faultText(const Fault &f);

// Deterministic file content for an id (see plan.cpp).
std::string content(uint64_t id, uint64_t n);
// World edits, used by plan steps and by mid-run mutations.
bool worldOp(World &w, const Step &s);
Env makeEnv(uint64_t es);
