// Deterministic PRNG used everywhere; no other source of randomness exists.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <cstddef>

inline uint64_t splitmix(uint64_t &x)
{
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b)
{
  uint64_t s = a ^ (b * 0xd6e8feb86659fd93ULL) ^ 0x1234567ULL;
  splitmix(s);
  return splitmix(s);
}
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { splitmix(s); }
  uint64_t u64() { return splitmix(s); }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
  bool chance(double p) { return (u64() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template<class V> auto &pick(V &v) { return v[below(v.size())]; }
  template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  template<class V> void shuffle(V &v)
  {
    for(size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]);
  }
};
struct Hash
{
  uint64_t h = 1469598103934665603ULL;
  void add(uint64_t v) { h = (h ^ v) * 1099511628211ULL; h ^= h >> 29; }
  void add(const void *p, size_t n)
  {
    const unsigned char *c = (const unsigned char *)p;
    uint64_t x = 0;
    size_t i = 0;
    for(; i + 8 <= n; i += 8) { __builtin_memcpy(&x, c + i, 8); add(x); }
    x = 0;
    for(size_t j = 0; i + j < n; j++) x |= (uint64_t)c[i + j] << (8 * j);
    add(x); add(n);
  }
  void add(const std::string &s) { add(s.data(), s.size()); }
};
