// Case driver and recorder shared by the harnesses.
#ifndef VH_H
#define VH_H
#include "StatModelDefs.h"
#include "LM_Defs.h"
#include <algorithm>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <ftw.h>

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 1) : s(x * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }  // inclusive
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  template <class C> auto pick(C& c) -> decltype(c[0]) { return c[below(c.size())]; }
  template <class V> void shuffle(V& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
};

struct Failed {};

inline std::string jesc(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

struct Ctx {
  Rng rng;
  uint64_t seed = 1, idx = 0, ncases = 0;
  bool thorough = false;
  std::string scratch, mode;
  std::map<std::string, double> counters;
  std::map<std::string, double> maxima;
  std::unordered_set<uint64_t> seen;
  std::vector<std::string> samples;
  FILE* out = nullptr;
  uint64_t nviol = 0, evals = 0;
  std::string caselog;   // description of the current case, attached to violations

  void count(const std::string& k, double n = 1) { counters[k] += n; }
  void maxi(const std::string& k, double n) { auto it = maxima.find(k); if (it == maxima.end() || it->second < n) maxima[k] = n; }
  void eval(uint64_t n = 1) { evals += n; }
  void distinct(uint64_t h) { if (seen.size() < 400000) seen.insert(h); }
  void distinct(const std::string& s) { distinct(fnv(s)); }
  void sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s.substr(0, 1500)); }
  static uint64_t fnv(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
  void note(const char* f, ...) __attribute__((format(printf, 2, 3))) {
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    if (caselog.size() < 60000) { caselog += b; caselog += "\n"; }
  }
  // record a violation and abandon the case
  [[noreturn]] void fail(const std::string& key, const char* f, ...) __attribute__((format(printf, 3, 4))) {
    char b[8192]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    fprintf(out, "{\"t\":\"viol\",\"key\":%s,\"case\":%" PRIu64 ",\"msg\":%s,\"log\":%s}\n", jesc(key).c_str(), idx, jesc(b).c_str(),
            jesc(caselog.size() > 20000 ? caselog.substr(0, 8000) + "\n...\n" + caselog.substr(caselog.size() - 12000) : caselog).c_str());
    fflush(out);
    nviol++;
    throw Failed();
  }
  // record and go on
  void report(const std::string& key, const std::string& msg) {
    try { fail(key, "%s", msg.c_str()); } catch (Failed&) {}
  }
};

inline int rmcb(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
// only ever called on directories below the worker's own scratch directory
inline void wipe(const std::string& d) { nftw(d.c_str(), rmcb, 32, FTW_DEPTH | FTW_PHYS); }

inline bool close_enough(double a, double b, double rel = 1e-4, double abs_ = 1e-6) {
  if (a == b) return true;
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  double d = std::fabs(a - b);
  return d <= abs_ || d <= rel * std::max(std::fabs(a), std::fabs(b));
}

inline int run(int argc, char** argv, std::function<void(Ctx&)> one) {
  Ctx c;
  uint64_t start = 0, only = UINT64_MAX;
  std::string outp = "/dev/stdout";
  c.ncases = 1; c.scratch = "/tmp";
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed") c.seed = strtoull(v.c_str(), 0, 10);
    else if (a == "--cases") c.ncases = strtoull(v.c_str(), 0, 10);
    else if (a == "--start") start = strtoull(v.c_str(), 0, 10);
    else if (a == "--only") only = strtoull(v.c_str(), 0, 10);
    else if (a == "--out") outp = v;
    else if (a == "--scratch") c.scratch = v;
    else if (a == "--tier") c.thorough = v == "thorough";
    else if (a == "--mode") c.mode = v;
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 9; }
  }
  c.out = fopen(outp.c_str(), "a");
  if (!c.out) return 9;
  int cur = open((c.scratch + "/current").c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
  uint64_t b = start, e = c.ncases;
  if (only != UINT64_MAX) { b = only; e = only + 1; }
  for (uint64_t i = b; i < e; ++i) {
    char buf[64];
    int n = snprintf(buf, sizeof buf, "%-20" PRIu64, i);
    if (pwrite(cur, buf, n, 0) != n) return 9;
    c.idx = i;
    c.rng = Rng(c.seed * 0x100000001B3ULL + i * 0x9E3779B9ULL);
    c.caselog.clear();
    try { one(c); } catch (Failed&) { if (c.nviol >= 20) break; }
  }
  fprintf(c.out, "{\"t\":\"sum\",\"evals\":%" PRIu64, c.evals);
  fprintf(c.out, ",\"counters\":{");
  bool first = true;
  for (auto& k : c.counters) { fprintf(c.out, "%s%s:%.0f", first ? "" : ",", jesc(k.first).c_str(), k.second); first = false; }
  fprintf(c.out, "},\"maxima\":{");
  first = true;
  for (auto& k : c.maxima) { fprintf(c.out, "%s%s:%g", first ? "" : ",", jesc(k.first).c_str(), std::isfinite(k.second) ? k.second : -1); first = false; }
  fprintf(c.out, "},\"samples\":[");
  for (size_t i = 0; i < c.samples.size(); ++i) fprintf(c.out, "%s%s", i ? "," : "", jesc(c.samples[i]).c_str());
  fprintf(c.out, "],\"distinct\":%zu}\n", c.seen.size());
  fclose(c.out);
  FILE* h = fopen((outp + ".hash").c_str(), "ab");
  if (h) { for (uint64_t x : c.seen) fwrite(&x, 8, 1, h); fclose(h); }
  return 0;
}
}  // namespace vh
#endif
