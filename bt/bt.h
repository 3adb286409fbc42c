// support for the executable contracts: generator, bookkeeping, reporting
#ifndef BT_H_
#define BT_H_
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_set>
#include <sstream>
#include <algorithm>
#include <exception>
#include <time.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
namespace bt {
static uint64_t S = 1, EV = 0, NS = 0, NF = 0;
static double T0, LIMIT = 10;
static std::string CASE_;
static std::unordered_set<uint64_t> SEEN;
static inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static inline uint64_t rnd() { uint64_t z = (S += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static inline uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
static inline bool chance(int pct) { return (int)below(100) < pct; }
static inline double unit() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
// the share of the time budget used so far is below f
static inline bool more(double f = 1.0) { return now() - T0 < LIMIT * f; }
static inline void show_case() { if (!CASE_.empty()) { printf("CASE %s\n", CASE_.c_str()); } fflush(stdout); }
static inline void stat() { printf("STAT evals=%llu distinct=%llu\n", (unsigned long long)EV, (unsigned long long)SEEN.size()); fflush(stdout); }
static inline void on_term() { show_case(); std::string w = "unexpected exception"; try { if (std::current_exception()) std::rethrow_exception(std::current_exception()); } catch (std::exception& e) { w += std::string(": ") + e.what(); } catch (...) {} printf("FAIL %s; case: %s\n", w.c_str(), CASE_.c_str()); fflush(stdout); _exit(3); }
static inline void init(int argc, char** argv) {
  T0 = now(); if (argc > 1) S = strtoull(argv[1], 0, 10) * 7919 + 17; if (argc > 2) LIMIT = atof(argv[2]);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback(show_case);
#endif
  std::set_terminate(on_term);
}
static inline uint64_t hash(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
// start a case; nontrivial cases are counted by their hash
static inline void begin(const std::string& what, bool nontrivial = true) {
  CASE_ = what.size() > 1500 ? what.substr(0, 1500) + "..." : what; ++EV;
  if (nontrivial) { uint64_t h = hash(what); if (SEEN.insert(h).second && NS < 3 && SEEN.size() % 7 == 1) { ++NS; printf("SAMPLE %s\n", CASE_.substr(0, 250).c_str()); } }
}
static inline void fail(const std::string& why) {
  printf("FAIL %s; case: %s\n", why.c_str(), CASE_.c_str()); fflush(stdout);
  if (++NF >= 3) { stat(); _exit(1); }
}
static inline int finish() { stat(); fflush(stdout); _exit(NF ? 1 : 0); }
template <typename... A> static inline std::string fmt(const char* f, A... a) { char b[2048]; snprintf(b, sizeof b, f, a...); return b; }
template <typename T> static inline std::string list(const T* p, size_t n) { std::ostringstream o; o.precision(9); o << "["; for (size_t i = 0; i < n && i < 60; ++i) o << (i ? " " : "") << +p[i]; if (n > 60) o << " ...(" << n << ")"; o << "]"; return o.str(); }
static inline uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static inline bool same(float a, float b) { return bits(a) == bits(b) || (a != a && b != b); }
}
#define EXPECT(c, ...) do { if (!(c)) { bt::fail(bt::fmt(__VA_ARGS__)); return; } } while (0)
#endif
