// P48: memory.  Every allocation of the process is counted; a session fed the same walk over and over must settle, and must give all of it back.
#include <cstdlib>
#include <new>
#include <atomic>
#include <malloc.h>
static std::atomic<long long> gLive{0}, gBlocks{0};
static long long gPeak = 0;
static void* take(size_t n)
{
  void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc();
  long long l = gLive += (long long)malloc_usable_size(p); ++gBlocks; if (l > gPeak) gPeak = l; return p;
}
static void give(void* p) { if (p) { gLive -= (long long)malloc_usable_size(p); --gBlocks; std::free(p); } }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
#include "session_common.hpp"

// satellite fixes of somebody about one place, now and then one from far away, which the sigma filter turns down
static void fixes(Rng& g, Setup& s)
{
  s.c.useGps = true; s.c.useGpsSigmaFilter = true; s.c.sigmaFilterWindow = (unsigned)g.i(2, 15); s.c.sigmaFilterDelta = g.pickd({1, 5, 20}); s.c.minNumSats = 0;
  s.c.maxGpsDeviation = std::numeric_limits<double>::infinity(); if (g.p(0.5)) s.c.useGpsOutsideMap = true;
  s.stream.clear(); auto& l = s.m.lv[0]; long long ts = 1541003875000LL; int n = (int)g.i(60, 150), each = (int)g.i(15, 40);
  double nz = g.pickd({0, 0.5, 2});
  for (int k = 0; k < n; ++k)
  {
    ts += g.i(500, 1500); double x = l.W / 2 + nz * g.g(), y = l.Hh / 2 + nz * g.g();
    if (k % each == 7) { x += g.p(0.5) ? 150 : -150; y += g.r(-90, 90); }
    s.stream.push_back(G::sensor(ts, SType::LOCATION, l.lat(y), l.lon(x), 3 + g.u()));
  }
}
static void bounded(Rng& g)
{
  Setup s = setup(g, 200);
  bool far = g.p(0.15); if (far) fixes(g, s);
#ifdef WITH_ALT
  if (g.p(0.3)) s.c.useAltitude = true;
#endif
  // a user who stands still may have his signals kept for as long as he stands
  bool acc = false;
  for (auto& m : s.stream) if (auto* q = boost::get<nc::SensorMeasurementData>(&m.data)) acc = acc || q->type == SType::ACCELEROMETER;
  if (acc && s.c.useStops) { if (g.p(0.5)) s.c.useStops = false; else { std::vector<nc::Measurement> v; for (auto& m : s.stream) { auto* q = boost::get<nc::SensorMeasurementData>(&m.data); if (!q || q->type != SType::ACCELEROMETER) v.push_back(m); } if (v.size() < 20) return skip(); s.stream = v; } }
  s.c.sigAveragingTime = std::min(s.c.sigAveragingTime, 20.0);
  long long t0 = s.stream.front().ts, span = s.stream.back().ts - t0 + g.i(20, 3000);
  int first = (int)std::max(6LL, 60000 / std::max(1LL, span) + 2), more = thorough() ? 60 : far ? 700 : (int)std::max(12LL, 6000 / (long long)s.stream.size());   // windows of up to a minute have filled after that
  if (first > 60) { skip(); return; }
  auto coll = G::collector(s.m); auto st = G::settings(s.m, s.c);
  long long before = gLive;
  {
    auto c = nc::createNavigationClient(coll, st);
    auto round = [&](long long k)
    {
      gPeak = gLive; long long sum = 0;
      for (auto& m : s.stream) { nc::Measurement q = m; q.ts += k * span; auto o = c->navigate({q}); for (auto& x : o) sum += x.status == nc::OK; }
      event((long long)s.stream.size()); note("positions", sum);
      return gPeak;
    };
    long long k = 0, early = 0, late = 0;
    for (; k < first; ++k) early = std::max(early, round(k));
    for (int n = 0; n < 3; ++n) early = std::max(early, round(k++));
    for (int n = 0; n < more; ++n) late = std::max(late, round(k++));
    long long base = early - before;
    if (late - early > 3000 + base / 10)
      return violation("grows", fmt("after %d rounds of the same %zu messages the session held at most %lld bytes, after %d more %lld", first + 3, s.stream.size(), base, more, late - before));
    note("rounds", k); note("sessions_of_fixes", far); Hash h; h.l(base).l((long long)s.stream.size()).l(span); distinct(h.h);
    sample(fmt("%lld rounds of %zu messages over %.1f s: never more than %lld bytes, of them %lld at the end", k, s.stream.size(), (double)span / 1000, std::max(early, late) - before, (long long)gLive - before));
  }
}

// makes everything, uses it, drops it; done twice, the second time must leave nothing
static void returned(Rng& g)
{
  auto once = [](uint64_t seed)
  {
    Rng r(seed); Setup s = setup(r, 120);
#ifdef WITH_ALT
    s.c.useAltitude = seed & 1;
#endif
    s.stream.resize(std::min<size_t>(s.stream.size(), 120));
    auto coll = G::collector(s.m); auto st = G::settings(s.m, s.c);
    auto c = nc::createNavigationClient(coll, st); if (seed & 2) coll.reset();
    for (auto& m : s.stream) { c->navigate({m}); c->getStates(); }
    std::shared_ptr<nc::NavigationClient> d = c; c.reset();
    if (seed & 4) d->navigate(s.stream);
  };
  uint64_t a = g.next();
  once(a);                                        // whatever is made once per process is made now
  long long live = gLive, blocks = gBlocks;
  for (int k = 0; k < 3; ++k) { once(a); event(); }
  if (gBlocks != blocks || gLive != live) violation("kept", fmt("three maps and sessions were made, used and dropped, and %lld bytes in %lld pieces are left", (long long)gLive - live, (long long)gBlocks - blocks));
  // nor may every new map leave something of its own
  int left = 0; long long from = gLive;
  for (int k = 0; k < 8; ++k) { long long l = gBlocks; once(g.next()); left += gBlocks > l; event(); }
  if (left >= 6) violation("kept-each", fmt("%d of 8 different maps and sessions left something behind when dropped, %lld bytes together", left, (long long)gLive - from));
  note("sessions_dropped", 11);
  Hash h; h.l((long long)a); distinct(h.h);
}

int main(int argc, char** argv)
{
  G::Quiet q; parseArgs(argc, argv); std::string a = ctx().arg;
  return runCases(argc, argv, [&](long long, Rng& g) { if (a == "returned") returned(g); else bounded(g); });
}
