// Common harness support: deterministic random numbers, ndjson trace output, crash reporting.
#pragma once
#include <blend2d/blend2d.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(0x1234567) { s ^= seed * 0xD6E8FEB86659FD93ull; s = next() ^ (seed << 32); s = next(); }
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint32_t below(uint32_t n) { return n ? uint32_t((next() >> 16) % n) : 0; }
  int range(int a, int b) { return a + int(below(uint32_t(b - a + 1))); }
  bool chance(uint32_t pct) { return below(100) < pct; }
  template<class T> const T& pick(const std::vector<T>& v) { return v[below(uint32_t(v.size()))]; }
  int pick(std::initializer_list<int> l) { return *(l.begin() + below(uint32_t(l.size()))); }
};

// JSON object/array writer into a string.
struct J {
  std::string s;
  bool first = true;
  char close = 0;
  static J obj() { J j; j.s = "{"; j.close = '}'; return j; }
  static J arr() { J j; j.s = "["; j.close = ']'; return j; }
  void sep() { if (!first) s += ','; first = false; }
  J& k(const char* key) { sep(); s += '"'; s += key; s += "\":"; return *this; }
  J& i(const char* key, long long v) { k(key); s += std::to_string(v); return *this; }
  J& b(const char* key, bool v) { k(key); s += v ? "true" : "false"; return *this; }
  J& str(const char* key, const std::string& v) { k(key); s += '"'; s += v; s += '"'; return *this; }
  J& raw(const char* key, const std::string& v) { k(key); s += v; return *this; }
  template<class V> J& ints(const char* key, const V& v) {
    k(key); s += '['; bool f = true; for (auto x : v) { if (!f) s += ','; f = false; s += std::to_string((long long)x); } s += ']'; return *this;
  }
  J& add(const std::string& v) { sep(); s += v; return *this; }
  J& addi(long long v) { sep(); s += std::to_string(v); return *this; }
  std::string done() { return s + close; }
};

// Where the driver currently is: reported when it crashes.
inline char g_where[4096];
inline void crash_handler(int sig) {
  char buf[4400]; int n = snprintf(buf, sizeof buf, "CRASH signal=%d at: %s\n", sig, g_where);
  if (n > 0) { (void)!write(2, buf, size_t(n)); }
  signal(sig, SIG_DFL); raise(sig);
}
inline void install_crash_handler() {
#ifndef BL_VERIF_ASAN
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, crash_handler);
#endif
}
inline void where(const std::string& s) { snprintf(g_where, sizeof g_where, "%s", s.c_str()); }

struct Args {
  uint64_t seed = 1; int n = 100; int len = 40; std::string out; std::string mode; int extra = 0; std::string scratch;
  Args(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; i += 2) {
      std::string a = argv[i]; const char* v = argv[i + 1];
      if (a == "--seed") seed = strtoull(v, 0, 10); else if (a == "--n") n = atoi(v); else if (a == "--len") len = atoi(v);
      else if (a == "--out") out = v; else if (a == "--mode") mode = v; else if (a == "--extra") extra = atoi(v);
      else if (a == "--scratch") scratch = v;
    }
    install_crash_handler();
  }
};

// One trace per line: {"id":..,"meta":..,"ev":[...]}.
struct TraceFile {
  FILE* f; long long n = 0;
  explicit TraceFile(const std::string& path) { f = path.empty() ? stdout : fopen(path.c_str(), "w"); if (!f) { perror("out"); exit(2); } }
  ~TraceFile() { if (f != stdout) fclose(f); else fflush(f); }
  std::string cur; bool first = true; std::string head;
  void begin(const std::string& head_fields = "") { cur.clear(); first = true; head = head_fields; }
  void ev(const std::string& e) { if (!first) cur += ','; first = false; cur += e; where("trace " + std::to_string(n + 1) + " after " + (e.size() > 900 ? e.substr(0, 900) : e)); }
  void end() {
    fputs("{\"id\":", f); fputs(std::to_string(++n).c_str(), f);
    if (!head.empty()) { fputs(",", f); fputs(head.c_str(), f); }
    fputs(",\"ev\":[", f); fputs(cur.c_str(), f); fputs("]}\n", f);
  }
};

} // namespace vh
