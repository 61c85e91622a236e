// Random well-formed map, log and settings documents together with what they say.
#pragma once
#include <locale>
#include "common.hpp"
#include <sys/syscall.h>
#include <unistd.h>
#include <streambuf>
#include <iostream>
namespace D {
using H::Rng; using H::fmt;

struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
// a process whose C++ locale writes 1.234,5: what a document says does not depend on it
struct Punct : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
struct OddLocale
{
  bool on; std::locale old;
  explicit OddLocale(bool o) : on(o) { if (on) old = std::locale::global(std::locale(std::locale::classic(), new Punct)); }
  ~OddLocale() { if (on) std::locale::global(old); }
};
inline void quiet() { static NullBuf nb; std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb); std::clog.rdbuf(&nb); }

// a file held in memory, reachable by name
struct MemFile
{
  int fd = -1; std::string path;
  MemFile() { fd = (int)syscall(SYS_memfd_create, "doc", 0u); path = fmt("/proc/%d/fd/%d", (int)getpid(), fd); }
  void set(const char* p, size_t n)
  {
    if (ftruncate(fd, 0)) {}
    size_t o = 0; while (o < n) { ssize_t w = pwrite(fd, p + o, n - o, (off_t)o); if (w <= 0) abort(); o += (size_t)w; }
  }
  void set(const std::string& s) { set(s.data(), s.size()); }
};

struct W   // writes values in randomly chosen but equivalent ways
{
  Rng& g;
  explicit W(Rng& g_) : g(g_) {}
  std::string ws() { if (!pretty) return ""; static const char* o[] = {"", "", "", " ", "  ", "\t", " \t"}; std::string s = o[g.i(0, 6)]; if (nl && g.p(0.1)) s += "\n"; return s; }
  bool pretty = false, nl = false;
  std::string str(const std::string& s)
  {
    std::string o = "\"";
    for (size_t k = 0; k < s.size(); ++k)
    {
      unsigned char c = (unsigned char)s[k];
      if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
      else if (c < 0x20 || (c < 0x80 && g.p(0.02))) o += fmt("\\u%04x", c);
      else if (c == '/' && g.p(0.3)) o += "\\/";
      else o += (char)c;
    }
    return o + "\"";
  }
  std::string num(double v)
  {
    if (v == std::floor(v) && std::fabs(v) < 1e15 && g.p(0.7)) return (v == 0 && std::signbit(v)) ? "-0.0" : fmt("%lld", (long long)v);
    if (g.p(0.2)) return fmt("%.17e", v);
    std::string s = fmt("%.17g", v);
    if (s.find_first_of(".eE") == std::string::npos) s += ".0";
    return s;
  }
  std::string integer(long long v) { return fmt("%lld", v); }
  std::string obj(std::vector<std::pair<std::string, std::string>> kv)
  {
    g.shuffle(kv);
    std::string o = "{" + ws(); bool f = true;
    for (auto& p : kv) { if (!f) o += "," + ws(); f = false; o += str(p.first) + ws() + ":" + ws() + p.second + ws(); }
    return o + "}";
  }
  std::string arr(const std::vector<std::string>& v)
  {
    std::string o = "[" + ws(); bool f = true;
    for (auto& p : v) { if (!f) o += "," + ws(); f = false; o += p + ws(); }
    return o + "]";
  }
  std::string junk()
  {
    switch (g.i(0, 5)) { case 0: return "null"; case 1: return "true"; case 2: return num(g.r(-5, 5)); case 3: return str("x y"); case 4: return "[1,[2,{}]]"; default: return "{\"a\":[],\"type\":\"graph\"}"; }
  }
};
inline std::string rid(Rng& g)
{
  static const char* alpha = "0123456789ABCDEFabcdef:-,() _.";
  switch (g.i(0, 3))
  {
  case 0: return fmt("%02X:%02X:%02X:%02X:%02X:%02X", (int)g.i(0, 255), (int)g.i(0, 255), (int)g.i(0, 255), (int)g.i(0, 255), (int)g.i(0, 255), (int)g.i(0, 255));
  case 1: return fmt("(%d,%d,%08llX-F7826DA6)", (int)g.i(0, 65535), (int)g.i(0, 65535), (unsigned long long)g.i(0, 0xffffffffll));
  case 2: { std::string s; long long n = g.i(1, 40); for (long long k = 0; k < n; ++k) s += alpha[g.i(0, 29)]; return s + fmt("%lld", g.i(0, 99999)); }
  default: return "\xD0\xBC\xD0\xB0\xD1\x8F\xD0\xBA/\"" + fmt("%lld", g.i(0, 999999)) + "\"\\";
  }
}
} // namespace D
