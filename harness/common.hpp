// Shared by every harness: seeded generator, case runner, oracle reporting (JSON lines on stdout).
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace H {

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double r(double a, double b) { return a + (b - a) * u(); }
  long long i(long long a, long long b) { return a + (long long)(next() % (uint64_t)(b - a + 1)); }  // inclusive
  bool p(double q) { return u() < q; }
  double g() { double a = u(), b = u(); if (a < 1e-300) a = 1e-300; return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[(size_t)(next() % v.size())]; }
  template <class T> void shuffle(std::vector<T>& v) { for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[(size_t)(next() % k)]); }
  double pickd(std::initializer_list<double> l) { return *(l.begin() + (size_t)(next() % l.size())); }
};

inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ull)
{ for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
struct Hash
{
  uint64_t h = 1469598103934665603ull;
  Hash& add(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t k = 0; k < n; ++k) { h ^= c[k]; h *= 1099511628211ull; } return *this; }
  Hash& d(double x) { return add(&x, sizeof x); }
  Hash& l(long long x) { return add(&x, sizeof x); }
  Hash& s(const std::string& x) { add(x.data(), x.size()); return l((long long)x.size()); }
};

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
  char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
inline std::string jesc(const std::string& s)
{
  std::string o;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 0x20 || c > 0x7e) o += fmt("\\u%04x", c);
    else o += (char)c;
  }
  return o;
}

struct Ctx
{
  uint64_t seed = 1;
  long long first = 0, cases = 100, only = -1;
  double softWall = 1e9;
  int hangSec = 20;
  std::string scratch = "/tmp", arg;
  std::string tier = "quick";
  long long cur = -1, evals = 0, events = 0, violations = 0, skipped = 0, nontrivial = 0;
  std::map<std::string, long long> stats;
  std::vector<std::string> samples;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, int> perKey;
  volatile long long* prog = nullptr;
  double t0 = 0;
};
inline Ctx& ctx() { static Ctx c; return c; }
inline bool thorough() { return ctx().tier == "thorough"; }

inline void violation(const std::string& key, const std::string& msg)
{
  Ctx& c = ctx();
  c.violations++;
  int n = ++c.perKey[key];
  if (n <= 3)
  {
    std::printf("{\"t\":\"viol\",\"case\":%lld,\"key\":\"%s\",\"msg\":\"%s\"}\n", c.cur, jesc(key).c_str(), jesc(msg).c_str());
    std::fflush(stdout);
  }
}
#define CHECK_THAT(cond, key, ...) do { if (!(cond)) ::H::violation(key, ::H::fmt(__VA_ARGS__)); } while (0)
inline void note(const std::string& k, long long n = 1) { ctx().stats[k] += n; }
inline void event(long long n = 1) { ctx().events += n; }
inline void sample(const std::string& s) { if (ctx().samples.size() < 4) ctx().samples.push_back(s); }
// marks this case as distinct and non-trivial under a descriptor hash
inline void distinct(uint64_t h) { ctx().distinct.insert(h); }
inline void skip() { ctx().skipped++; }

inline bool near(double a, double b, double tol = 1e-9)
{
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

inline bool sameOr(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

inline double nowWall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

extern "C" inline void onHang(int)
{
  char b[96]; int n = snprintf(b, sizeof b, "HANG case=%lld\n", ctx().cur);
  ssize_t r = write(2, b, (size_t)n); (void)r; _exit(97);
}
inline void arm(int sec)
{ struct itimerval v; memset(&v, 0, sizeof v); v.it_value.tv_sec = sec; setitimer(ITIMER_VIRTUAL, &v, nullptr); }

inline void parseArgs(int argc, char** argv)
{
  Ctx& c = ctx();
  for (int k = 1; k + 1 < argc; k += 2)
  {
    std::string a = argv[k], v = argv[k + 1];
    if (a == "--seed") c.seed = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--first") c.first = atoll(v.c_str());
    else if (a == "--cases") c.cases = atoll(v.c_str());
    else if (a == "--only") c.only = atoll(v.c_str());
    else if (a == "--wall") c.softWall = atof(v.c_str());
    else if (a == "--hang") c.hangSec = atoi(v.c_str());
    else if (a == "--tier") c.tier = v;
    else if (a == "--scratch") c.scratch = v;
    else if (a == "--arg") c.arg = v;
    else if (a == "--progress")
    {
      int fd = open(v.c_str(), O_RDWR | O_CREAT, 0644);
      if (fd >= 0 && ftruncate(fd, 8) == 0)
        c.prog = (volatile long long*)mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (c.prog == MAP_FAILED) c.prog = nullptr;
      if (c.prog) *c.prog = -1;
    }
  }
  c.t0 = nowWall();
  signal(SIGVTALRM, onHang);
}

inline void finish()
{
  Ctx& c = ctx();
  std::string s = fmt("{\"t\":\"done\",\"evals\":%lld,\"events\":%lld,\"skipped\":%lld,\"distinct\":%lld,\"violations\":%lld,\"stats\":{",
                      c.evals, c.events, c.skipped, (long long)c.distinct.size(), c.violations);
  bool f = true;
  for (auto& kv : c.stats) { s += fmt("%s\"%s\":%lld", f ? "" : ",", jesc(kv.first).c_str(), kv.second); f = false; }
  s += "},\"samples\":[";
  f = true;
  for (auto& x : c.samples) { s += (f ? "\"" : ",\"") + jesc(x) + "\""; f = false; }
  s += "]}\n";
  fputs(s.c_str(), stdout);
  fflush(stdout);
}

// Runs one case per index; a case's generator depends only on (seed, index).
inline int runCases(int argc, char** argv, const std::function<void(long long, Rng&)>& fn)
{
  parseArgs(argc, argv);
  Ctx& c = ctx();
  long long a = c.first, b = c.first + c.cases;
  if (c.only >= 0) { a = c.only; b = a + 1; }
  for (long long k = a; k < b; ++k)
  {
    if (nowWall() - c.t0 > c.softWall || c.violations > 400) { note("stopped_early_at_case", k); break; }
    c.cur = k;
    if (c.prog) *c.prog = k;
    Rng rng(c.seed * 1000003ull + (uint64_t)k * 7919ull + 17);
    arm(c.hangSec);
    try { fn(k, rng); }
    catch (const std::exception& e) { violation(std::string("exception:") + e.what(), std::string("unexpected exception: ") + e.what()); }
    c.evals++;
  }
  arm(0);
  finish();
  return 0;
}

} // namespace H
