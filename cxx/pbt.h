// Property-based testing runtime: choice tapes, forked execution (so that crashes are caught), shrinking.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
struct Fail { std::string m; };
struct Discard { };
struct Tape {
  std::vector<uint32_t> d; size_t pos = 0; bool replay = false; uint64_t s = 0;
  uint32_t *out = nullptr; size_t *outn = nullptr; // shared memory copy
  uint64_t rnd() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  uint32_t raw(uint32_t n) { uint32_t v; if (replay) v = pos < d.size() ? d[pos] : 0; else { v = (uint32_t)(rnd() >> 32) % (n ? n : 1); d.push_back(v); } pos++; if (n) v %= n; if (out && pos <= 60000) { out[pos - 1] = v; *outn = pos; } return v; }
  uint32_t below(uint32_t n) { return n <= 1 ? 0 : raw(n); }
  bool bit() { return below(2); }
  bool chance(uint32_t n) { return below(n) == n - 1; }
  uint64_t word() { uint32_t k = below(6); switch (k) { case 0: return below(4); case 1: return below(256); case 2: return (uint64_t)raw(0xffffffffu); case 3: return ((uint64_t)raw(0xffffffffu) << 32) | raw(0xffffffffu); case 4: return ~0ull - below(3); } return (1ull << below(64)) - below(2); }
  uint32_t size(uint32_t m) { uint32_t k = below(4); return below(k == 0 ? 2 : k == 1 ? m / 4 + 2 : m + 1); }
  std::vector<uint8_t> bytes(uint32_t m) { std::vector<uint8_t> r(size(m)); uint32_t st = below(3); for (auto &x : r) x = st == 0 ? below(3) : st == 1 ? below(256) : 126 + below(4); return r; }
};
struct Ctx {
  bool nt = false; std::string desc; std::map<std::string, int> labels; std::vector<std::string> log; bool keep = false;
  void nontrivial(bool b = true) { if (b) nt = true; }
  void label(std::string const &s) { labels[s]++; }
  template <typename F> void note(F f) { if (keep) log.push_back(f()); }
};
#define CHECK(c, msg) do { if (!(c)) throw Fail{msg}; } while (0)
typedef void (*Part)(Tape &, Ctx &);
std::map<std::string, Part> &parts();
struct Reg { Reg(const char *n, Part p) { parts()[n] = p; } };
#define PART(n) static void part_##n(Tape &t, Ctx &c); static Reg reg_##n(#n, part_##n); static void part_##n(Tape &t, Ctx &c)
