// Relational and safety monitors over whole sessions.  arg: P01 | P03 | P04 | P05 | P06 | hash | threads
#include "session_common.hpp"
#include <malloc.h>
#include <unistd.h>
#include <sys/wait.h>
#include <thread>
#include <atomic>
#ifdef WITH_FUNCS
#include "geometry.h"
#include "triangulation.h"
#include "knn/knn_utils.h"
#include "sensor_fusion/complementary_filter.h"
#include "sensor_fusion/pedometer.h"
#include "position_postprocessor/polynomial_fit.h"
#endif

static void scribbleStack() { volatile unsigned char b[60000]; for (size_t k = 0; k < sizeof b; ++k) b[k] = (unsigned char)(0xA5 ^ (k * 7)); }
static void scribbleHeap(Rng& g)
{
  std::vector<void*> p; for (int k = 0; k < 300; ++k) { size_t n = (size_t)g.i(8, 900); void* q = malloc(n); memset(q, (int)g.i(0, 255), n); p.push_back(q); }
  g.shuffle(p); for (void* q : p) free(q);
}

// another map that goes by the same names: everything is called the same and is somewhere else
static Setup sibling(Rng& g, const Setup& s)
{
  Setup t = s;
  double k = g.r(0.7, 1.3), dx = g.r(-4, 4); bool flip = g.p(0.3);
  for (auto& l : t.m.lv)
  {
    if (g.p(0.5)) { l.bindLat += g.r(-1, 1); l.bindLon += g.r(-1, 1); }
    l.altitude += g.r(-9, 9); l.A += g.r(-10, 10); l.B *= k;
    auto at = [&](double& x, double W) { x = std::max(0., std::min(W, (flip ? W - x : x) + dx)); };
    for (auto& x : l.txs) { at(x.x, l.W); at(x.y, l.Hh); x.alt += g.r(0, 3); x.A += g.r(-12, 12); x.B *= k; x.power += g.r(-6, 6); if (g.p(0.1)) x.type = (nc::TransmitterType)(int)g.i(0, 4); }
    for (auto& r : l.rps) { at(r.x, l.W); at(r.y, l.Hh); for (auto& f : r.fp) { f.second.mean = std::max(-99., std::min(-20., f.second.mean + g.r(-12, 12))); f.second.var *= k; } }
    for (auto& v : l.gv) { at(v.x, l.W); at(v.y, l.Hh); }
    if (g.p(0.5)) for (auto& z : l.zones) z.holes.clear();
    if (g.p(0.2) && !l.txs.empty()) l.txs.pop_back();
    if (g.p(0.2)) g.shuffle(l.txs);
  }
  if (g.p(0.2)) g.shuffle(t.m.lv);
  if (g.p(0.3)) { t.c = G::genSettings(g);
#ifndef WITH_ALT
    t.c.useAltitude = false;
#endif
  }
  if (g.p(0.5)) for (auto& x : t.stream) x.ts += 37;
  return t;
}

// what a session reports in a process that has done nothing else under these names
static std::vector<uint64_t> reports(const Outs& o, const States& t)
{
  std::vector<uint64_t> v;
  for (auto& q : o) { Hash h; h.l(q.status).s(q.posLevel.value).d(q.posLatitude).d(q.posLongitude).d(q.posAltitude).d(q.posR).d(q.posOrientation).l((int)q.provider); v.push_back(h.h); }
  for (auto& q : t) { Hash h; h.l(q.getStepCounter()).d(q.getStepLen()).d(q.getHeading()).d(q.getIndoorPosition().x).d(q.getIndoorPosition().y).d(q.getOutdoorPosition().x).d(q.getOutdoorPosition().y); v.push_back(h.h); }
  return v;
}
static std::vector<uint64_t> reportsApart(const Setup& s, bool& ok)
{
  ok = false;
  std::vector<uint64_t> v; int fd[2];
  if (pipe(fd)) return v;
  pid_t p = fork();
  if (p < 0) { close(fd[0]); close(fd[1]); return v; }
  if (p == 0)
  {
    close(fd[0]);
    Outs o; States t; runAll(session(s), s.stream, o, t);
    auto r = reports(o, t); const char* q = (const char*)r.data(); size_t n = r.size() * sizeof r[0];
    while (n) { ssize_t w = write(fd[1], q, n); if (w <= 0) _exit(3); q += w; n -= (size_t)w; }
    close(fd[1]); _exit(0);
  }
  close(fd[1]);
  std::string buf; char c[65536]; ssize_t n; while ((n = read(fd[0], c, sizeof c)) > 0) buf.append(c, (size_t)n);
  close(fd[0]); int st = 0; waitpid(p, &st, 0);
  ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
  v.resize(buf.size() / sizeof v[0]); memcpy(v.data(), buf.data(), v.size() * sizeof v[0]);
  return v;
}

static void p01(Rng& g)
{
  Setup s = setup(g), s2 = setup(g);
  bool kin = g.p(0.6);
  if (kin) s2 = sibling(g, s);
#ifdef WITH_ALT
  if (g.p(0.3)) s.c.useAltitude = true;
#endif
  note(kin ? "strangers_with_equal_names" : "strangers");
  bool apart = false; std::vector<uint64_t> want;
  if (g.p(0.6)) want = reportsApart(s2, apart);
  Outs a, b, c2; States sa, sb, sc;
  runAll(session(s), s.stream, a, sa);
  if (apart)
  {
    Outs o; States t; runAll(session(s2), s2.stream, o, t);
    auto got = reports(o, t); event((long long)o.size());
    size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
    if (got.size() != want.size() || k < got.size())
      return violation("deterministic:other-process", fmt("a session in a process that had navigated on another map before reports something else than in a process of its own: report %zu of %zu%s%s", k, got.size(), k < o.size() ? ": " : "", k < o.size() ? G::descr(o[k]).c_str() : ""));
    note("compared_with_own_process");
  }
  mallopt(M_PERTURB, (int)g.i(1, 255)); scribbleHeap(g); scribbleStack();
  int mode = (int)g.i(0, 2);
  // a stranger first
  if (mode == 0) { Outs x; States y; runAll(session(s2), s2.stream, x, y); runAll(session(s), s.stream, b, sb); differs(a, sa, b, sb, "deterministic", "after another session"); }
  // two equal sessions and a stranger taking turns, maps shared or not
  else
  {
    auto coll = G::collector(s.m); auto st = G::settings(s.m, s.c);
    ClientP p = nc::createNavigationClient(coll, st), q = mode == 1 ? nc::createNavigationClient(coll, st) : session(s), z = session(s2);
    size_t i = 0, j = 0, k = 0;
    while (i < s.stream.size() || j < s.stream.size())
    {
      scribbleStack();
      int w = (int)g.i(0, 2);
      if (w == 0 && i < s.stream.size()) { auto o = p->navigate({s.stream[i++]}); auto t = p->getStates(); b.insert(b.end(), o.begin(), o.end()); sb.insert(sb.end(), t.begin(), t.end()); }
      else if (w == 1 && j < s.stream.size()) { auto o = q->navigate({s.stream[j++]}); auto t = q->getStates(); c2.insert(c2.end(), o.begin(), o.end()); sc.insert(sc.end(), t.begin(), t.end()); }
      else if (w == 2 && k < s2.stream.size()) { z->navigate({s2.stream[k++]}); if (k == s2.stream.size() / 2 && g.p(0.3)) z = session(s2); }
    }
    if (!differs(a, sa, b, sb, "deterministic", "interleaved")) differs(a, sa, c2, sc, "deterministic", "interleaved twin");
  }
  mallopt(M_PERTURB, 0);
  note("positions", okCount(a)); note(fmt("mode_%d", mode));
  if (okCount(a) > 0) { Hash h; for (auto& o : a) h.d(o.posLatitude).d(o.posOrientation); distinct(h.h); }
  sample(fmt("%zu messages, %d positions, mode %d", s.stream.size(), okCount(a), mode));
}

static void p04(Rng& g)
{
  Setup s = setup(g);
  Outs a, b; States sa, sb;
  runAll(session(s), s.stream, a, sa);
  if (a.size() != s.stream.size() || sa.size() != s.stream.size()) { violation("batch:one", fmt("%zu outputs and %zu states for %zu messages", a.size(), sa.size(), s.stream.size())); return; }
  auto c = session(s);
  size_t k = 0; int cuts = 0, late = 0, empties = 0; bool few = g.p(0.3);
  double pLate = g.pickd({0, 0.1, 0.5});
  Setup other = s;
  while (k < s.stream.size())
  {
    size_t n = (size_t)(few ? g.i(1, (long long)s.stream.size()) : g.i(1, 12));
    std::vector<nc::Measurement> batch; long long last = 0; size_t first = k;
    for (; k < s.stream.size() && k < first + n; ++k)
    {
      batch.push_back(s.stream[k]); last = s.stream[k].ts;
      while (g.p(pLate))
      {
        // an older message: a copy from anywhere, or something new
        nc::Measurement x = s.stream[(size_t)g.i(0, (long long)s.stream.size() - 1)];
        x.ts = last - (g.p(0.5) ? g.i(1, 3) : g.i(1, 20000));
        batch.push_back(x); late++;
      }
    }
    if (g.p(0.2)) { auto before = c->getStates(); auto e = c->navigate({}); auto after = c->getStates(); empties++;
      CHECK_THAT(e.empty(), "batch:empty", "%zu outputs for an empty batch", e.size());
      bool same = before.size() == after.size(); for (size_t q = 0; same && q < before.size(); ++q) same = G::same(before[q], after[q]);
      CHECK_THAT(same, "batch:empty", "an empty batch changed the debug states"); }
    auto o = c->navigate(batch); auto t = c->getStates(); cuts++;
    b.insert(b.end(), o.begin(), o.end()); sb.insert(sb.end(), t.begin(), t.end());
    if (o.size() != t.size()) { violation("batch:count", fmt("%zu outputs, %zu states", o.size(), t.size())); return; }
  }
  differs(a, sa, b, sb, late ? "late" : "batch", fmt("cut into %d batches with %d late messages", cuts, late).c_str());
  note("batches", cuts); note("late_messages", late); note("empty_batches", empties); note("positions", okCount(a));
  if (okCount(a) > 0 && cuts > 1) { Hash h; for (auto& o : a) h.d(o.posLatitude); h.l(cuts).l(late); distinct(h.h); }
  sample(fmt("%zu messages in %d batches, %d late, %d empty, %d positions", s.stream.size(), cuts, late, empties, okCount(a)));
}

// values nothing sane would send, but finite
static void wild(Rng& g, std::vector<nc::Measurement>& v, bool finite, const R::Map& m)
{
  auto val = [&](double was) -> double
  {
    switch (g.i(0, finite ? 9 : 13))
    {
      case 0: return 0; case 1: return -0.0; case 2: return -was; case 3: return was * 1e6; case 4: return g.pickd({1e300, -1e300, 1e150, -1e150}); case 5: return g.pickd({1e-300, -1e-300, 4.9e-324}); case 6: return g.pickd({90, -90, 180, -180, 360, 89.9999});
      case 7: return g.r(-1000, 1000); case 8: return g.pickd({-100, -99.999, -1e-9, -50, -0.5}); case 9: return was + g.g() * 1e-3;
      case 10: return std::numeric_limits<double>::quiet_NaN(); case 11: return std::numeric_limits<double>::infinity(); case 12: return -std::numeric_limits<double>::infinity(); default: return g.pickd({1.7e308, -1.7e308});
    }
  };
  double p = g.pickd({0.02, 0.1, 0.4});
  for (auto& x : v)
  {
    if (auto* r = boost::get<nc::RadioMeasurementData>(&x.data))
    { if (g.p(p)) r->rssi = val(r->rssi); if (g.p(p)) r->distance = val(r->distance); if (g.p(p)) r->power = val(r->power); if (g.p(p * 0.3)) r->type = (RType)(int)g.i(0, 4); if (g.p(p * 0.1)) r->id.value = g.p(0.5) ? "" : std::string(300, 'x'); }
    else if (auto* s = boost::get<nc::SensorMeasurementData>(&x.data))
    { if (g.p(p)) s->values.x = val(s->values.x); if (g.p(p)) s->values.y = val(s->values.y); if (g.p(p)) s->values.z = val(s->values.z); if (g.p(p * 0.3)) s->type = (SType)(int)g.i(0, 5); if (g.p(p * 0.1)) s->values = nc::Vector3d(0, 0, 0); }
    else { auto& n = boost::get<nc::NmeaMeasurementData>(x.data); if (g.p(p)) n.satellitesNumber = (int)g.pickd({0, -1, 2147483647, -2147483648.0, 1}); if (g.p(p)) n.sentenceNumber = (int)g.pickd({0, 1, -1, 2147483647}); }
  }
  (void)m;
}

static bool wellFormed(const Setup& s, const nc::NavigationOutput& o, std::string& why)
{
  if (o.status != nc::OK)
  {
    if (!o.posLevel.value.empty() || o.posLatitude != 0 || o.posLongitude != 0 || o.provider != nc::Provider::NONE) { why = "a non-OK output carries a position"; return false; }
    return true;
  }
  if (!std::isfinite(o.posLatitude) || !std::isfinite(o.posLongitude)) { why = "coordinates are not finite"; return false; }
  if (!(o.posR >= 0)) { why = "radius is not a non-negative number"; return false; }
  if (o.provider == nc::Provider::NONE || (int)o.provider < 0 || (int)o.provider > 2) { why = "no provider"; return false; }
  if (!(o.posOrientation >= -M_PI && o.posOrientation < M_PI)) { why = "orientation out of [-pi, pi)"; return false; }
  const R::Lvl* l = s.m.byId(o.posLevel.value);
  if (!l) { why = "level is not on the map"; return false; }
  if (!s.c.useGpsOutsideMap)
  {
    R::P2 p = l->local(o.posLatitude, o.posLongitude);
    double t = 0.0101;
    if (p.x < -t || p.y < -t || p.x > l->W + t || p.y > l->Hh + t) { why = fmt("(%.4f,%.4f) is outside the %.4f x %.4f box of its level", p.x, p.y, l->W, l->Hh); return false; }
  }
  return true;
}

static void p05(Rng& g)
{
  Setup s = setup(g);
  if (g.p(0.4)) { s.c.useGps = true; s.c.fuseGps = g.p(0.5); }
  bool hostile = g.p(0.4);
  if (hostile) wild(g, s.stream, true, s.m);
  auto c = session(s);
  int ok = 0, bad = 0; Hash h; std::set<std::string> lv;
  for (size_t k = 0; k < s.stream.size(); ++k)
  {
    auto o = c->navigate({s.stream[k]});
    event();
    for (auto& q : o)
    {
      std::string why;
      if (!wellFormed(s, q, why)) { violation("output:" + why.substr(0, why.find('(')), fmt("message %zu (%s): %s: %s", k, G::descr(s.stream[k]).c_str(), why.c_str(), G::descr(q).c_str())); return; }
      if (q.status == nc::OK) { ok++; lv.insert(q.posLevel.value); note(fmt("provider_%d", (int)q.provider)); h.d(q.posLatitude).d(q.posR); } else bad++;
    }
  }
  note("positions", ok); note("without_position", bad); note(hostile ? "hostile_streams" : "plain_streams");
  if (ok > 1) distinct(h.h);
  sample(fmt("%zu messages, %s values: %d positions on %zu levels, %d without", s.stream.size(), hostile ? "hostile" : "plain", ok, lv.size(), bad));
}

// ignored signals: what remains must be as if they had been signals of no strength at the same moment
static void p06(Rng& g)
{
  Setup s = setup(g);
  R::Radio model(&s.m, s.c);
  auto v = s.stream; int ign = 0, acc = 0;
  for (auto& x : v) if (auto* r = boost::get<nc::RadioMeasurementData>(&x.data))
  {
    if (g.p(0.1)) r->rssi = g.pickd({0, 3, s.c.sigCutOffRss, s.c.sigCutOffRss - 1, -0.0});
    if (g.p(0.08)) r->type = (RType)(int)g.i(0, 4);
    if (g.p(0.05)) r->id.value = g.p(0.5) ? r->id.value + "x" : "nobody";
  }
  auto sub = v;
  for (auto& x : sub) if (auto* r = boost::get<nc::RadioMeasurementData>(&x.data))
  {
    if (model.accepts(*r)) { acc++; continue; }
    ign++;
    // a different signal that is ignored as well
    nc::RadioMeasurementData n; n.type = s.c.measurementType == CommonSettings::MeasurementType::RSSI ? RType::BEACON : RType::WIFI; n.id = nc::TransmitterId("nobody-else"); n.rssi = 0; n.distance = 1; n.power = 0;
    *r = n;
  }
  Outs a, b; States sa, sb;
  runAll(session(s), sub, a, sa); runAll(session(s), v, b, sb);
  differs(a, sa, b, sb, "ignored", fmt("%d ignorable signals", ign).c_str());
  note("ignored", ign); note("accepted", acc); note("positions", okCount(a));
  if (ign > 3 && okCount(a) > 0) { Hash h; for (auto& o : a) h.d(o.posLatitude); h.l(ign); distinct(h.h); }
  sample(fmt("%zu messages, %d accepted, %d ignored, %d positions", v.size(), acc, ign, okCount(a)));
}

// anything at all
static void p03(Rng& g)
{
  Setup s = setup(g, thorough() ? 0 : 160);
  G::MapOpt mo; mo.maxLevels = 3; mo.maxSize = 80;
  if (g.p(0.5))
  {
    // degenerate maps
    for (auto& l : s.m.lv)
    {
      if (g.p(0.2)) l.txs.clear();
      if (g.p(0.2)) l.rps.clear();
      if (g.p(0.15)) { double y = g.r(0, l.Hh); for (auto& r : l.rps) r.y = y; }
      if (g.p(0.1)) for (auto& r : l.rps) { r.x = 5; r.y = 5; }
      if (g.p(0.1)) for (auto& r : l.rps) r.fp.clear();
      if (g.p(0.2)) { l.gv.clear(); l.ge.clear(); }
      if (g.p(0.1)) { for (auto& v : l.gv) v = {3, 3}; }
    }
    if (g.p(0.03)) s.m.lv.clear();
  }
  if (g.p(0.5))
  {
    CommonSettings& c = s.c;
    auto m = [&](double& d) { if (g.p(0.15)) d = g.pickd({0, -1, 1e-9, 1e6, 0.001, 1e9, -1e6}); };
    auto num = [&](unsigned& n) { if (g.p(0.25)) n = (unsigned)(long long)g.pickd({0, 1, 1000, 4294967295.0, 2147483648.0}); };
    m(c.sigAveragingTime); m(c.sigWindowShift); m(c.stopDetectionTime); m(c.averageMovSpeed); m(c.smoothing); m(c.deadReckoningTime); m(c.stopUpdateTime); m(c.graphProjDist);
    m(c.useStopsDistanceThresholdM); m(c.priorDeviation); m(c.minGpsDeviation); m(c.maxGpsDeviation); m(c.fuseGpsBorderM); m(c.positionIsTooOldSec); m(c.gpsValidTimeWindowSec); m(c.deviceAzimuthLifetimeSeconds); m(c.stepMultiplier); m(c.wiFiRttOffset); m(c.sigmaFilterDelta); m(c.sigCutOffRss);
    num(c.kNeighbors); num(c.numClosestAps); num(c.sigmaFilterWindow); num(c.minNumOfMeasurementsForPositionCalculation); num(c.minNumSats); num(c.minMsrNumForMutation);
    if (g.p(0.3)) c.useClosestAps = true;
    if (g.p(0.2)) c.noSignalTimeThreshold = (long long)g.pickd({0, -1, 100000});
    if (g.p(0.2)) c.noActionTimeThreshold = (long long)g.pickd({0, -1, 100000});
  }
#ifdef WITH_ALT
  if (g.p(0.8)) s.c.useAltitude = true;
#endif
  wild(g, s.stream, false, s.m);
  // times
  int tm = (int)g.i(0, 4);
  for (auto& x : s.stream)
  {
    if (tm == 1 && g.p(0.1)) x.ts -= g.i(0, 100000);
    if (tm == 2) x.ts = g.i(-5, 5);
    if (tm == 3 && g.p(0.05)) x.ts = (long long)g.pickd({0, -1, 1e12, 1e15, -1e15});
    if (tm == 4) x.ts = -x.ts;
  }
  Hash h; int thrown = 0, ok = 0; bool created = false;
  try
  {
    auto c = session(s); created = true;
    size_t k = 0;
    while (k < s.stream.size())
    {
      size_t n = (size_t)(g.p(0.5) ? 1 : g.i(0, 30));
      std::vector<nc::Measurement> b(s.stream.begin() + (long)k, s.stream.begin() + (long)std::min(s.stream.size(), k + n));
      k += b.size();
      event();
      try { auto o = c->navigate(b); for (auto& q : o) { ok += q.status == nc::OK; h.d(q.posLatitude); } auto st = c->getStates(); h.l((long long)st.size()); }
      catch (const std::exception& e) { thrown++; violation(std::string("exception:") + e.what(), std::string("navigating ended in the exception ") + e.what()); }
    }
  }
  catch (const std::exception& e) { thrown++; violation(std::string("exception-creating:") + e.what(), std::string("creating a session ended in the exception ") + e.what()); }
  note("positions", ok); note(fmt("time_mode_%d", tm));
  if (created && ok) distinct(h.h);
  sample(fmt("%zu hostile messages, %d positions, %d exceptions, time mode %d", s.stream.size(), ok, thrown, tm));
}

// prints one line per case: what a session reported, for comparison across differently initialised builds
static void hashed(long long k, Rng& g)
{
  Setup s = setup(g);
  scribbleHeap(g);
  Outs a; States sa; runAll(session(s), s.stream, a, sa);
  std::string d;
  Hash h;
  for (auto& o : a) { h.l(o.status).s(o.posLevel.value).d(o.posLatitude).d(o.posLongitude).d(o.posAltitude).d(o.posR).d(o.posOrientation).l((int)o.provider); }
  for (auto& t : sa) { h.l(t.getStepCounter()).d(t.getStepLen()).d(t.getHeading()).d(t.getIndoorPosition().x).d(t.getIndoorPosition().y).d(t.getOutdoorPosition().x).d(t.getOutdoorPosition().y).l((long long)t.getParticles().size()); }
  event((long long)a.size());
  note("positions", okCount(a));
  if (okCount(a)) distinct(h.h);
  printf("{\"t\":\"hash\",\"case\":%lld,\"h\":\"%016llx\",\"n\":%zu}\n", k, (unsigned long long)h.h, a.size());
}

// sessions over one shared map in several threads; each must report what it reports alone
static void threads(Rng& g)
{
  int n = (int)g.i(2, 6);
  G::MapOpt mo; mo.maxLevels = 3; mo.maxRp = 10;
  auto m = G::genMap(g, mo);
  bool alike = g.p(0.4), storeys = g.p(0.05);   // the same stages at work in every thread; long walks over the storeys
  std::vector<Setup> ss; std::vector<Outs> want((size_t)n), got((size_t)n); std::vector<States> ws((size_t)n), gs((size_t)n);
  for (int k = 0; k < n; ++k)
  {
    Setup s; s.m = m; s.c = alike && k ? ss[0].c : G::genSettings(g);
#ifdef WITH_ALT
    s.c.useAltitude = g.p(0.6);
#else
    s.c.useAltitude = false;
#endif
    if (storeys) s.c.useBarometer = true;
    auto o = G::genStreamOpt(g); o.maxLen = 120; o.minLen = 60;
    if (storeys) { o.minLen = 500; o.maxLen = 700; o.pBaro = 1.5; o.pLevelHop = 0.05; o.pRadio = 0.4; o.maxDt = 60; }
    s.stream = G::genStream(g, m, o); ss.push_back(s);
  }
  auto coll = G::collector(m);
  bool repeat = g.p(0.5);
  std::atomic<int> ready{0}; std::vector<uint64_t> seeds; for (int k = 0; k < n; ++k) seeds.push_back(g.next());
  std::vector<std::thread> th; std::atomic<long long> order{0}; std::vector<std::vector<int>> trace((size_t)n); std::vector<int> whoRan(20000);
  for (int k = 0; k < n; ++k) th.emplace_back([&, k]()
  {
    Rng r(seeds[(size_t)k]);
    ready++; while (ready < n) std::this_thread::yield();
    for (int rep = 0; rep < (repeat ? 2 : 1); ++rep)
    {
      got[(size_t)k].clear(); gs[(size_t)k].clear();
      auto c = nc::createNavigationClient(coll, G::settings(m, ss[(size_t)k].c));
      for (auto& x : ss[(size_t)k].stream)
      {
        auto o = c->navigate({x}); auto t = c->getStates();
        got[(size_t)k].insert(got[(size_t)k].end(), o.begin(), o.end()); gs[(size_t)k].insert(gs[(size_t)k].end(), t.begin(), t.end());
        long long at = order.fetch_add(1, std::memory_order_relaxed); if (at < 20000) whoRan[(size_t)at] = k;
        if (r.p(0.05)) std::this_thread::yield();
        if (r.p(0.01)) std::this_thread::sleep_for(std::chrono::microseconds(r.i(1, 200)));
      }
    }
  });
  for (auto& t : th) t.join();
  // alone, afterwards and on a map of its own: nothing may have been prepared for the parallel runs
  for (int k = 0; k < n; ++k) runAll(nc::createNavigationClient(G::collector(m), G::settings(m, ss[(size_t)k].c)), ss[(size_t)k].stream, want[(size_t)k], ws[(size_t)k]);
  long long tot = std::min<long long>(order, 20000), sw = 0; Hash h;
  for (long long k = 1; k < tot; ++k) { if (whoRan[(size_t)k] != whoRan[(size_t)k - 1]) sw++; h.l(whoRan[(size_t)k]); }
  for (int k = 0; k < n; ++k) if (differs(want[(size_t)k], ws[(size_t)k], got[(size_t)k], gs[(size_t)k], "threads", fmt("session %d of %d in parallel", k, n).c_str())) return;
  note("sessions", n); note("switches_between_threads", sw); note("messages", tot);
  if (sw > n) distinct(h.h);
  sample(fmt("%d sessions on one map, %lld messages, %lld switches between threads observed", n, tot, sw));
}

#ifdef WITH_FUNCS
// the free functions and stage classes used from several threads at once, against the same calls made alone
static uint64_t funcsOnce(uint64_t seed, const std::shared_ptr<nc::LevelCollector>& coll, bool yields)
{
  Rng r(seed); Hash h;
  for (int k = 0; k < 60; ++k)
  {
    auto c = [&]() { return r.p(0.3) ? (double)r.i(-3, 3) : r.r(-50, 50); };
    switch (r.i(0, 9))
    {
      case 0: { double ox = 0, oy = 0; h.d(nc::GetIntersection(c(), c(), c(), c(), c(), c(), c(), c(), &ox, &oy)); h.d(ox); h.d(oy); break; }
      case 1: h.l(nc::CheckIntersection(c(), c(), c(), c(), c(), c(), c(), c())); break;
      case 2: h.l(nc::PointOnLine(c(), c(), c(), c(), c(), c())); h.l(nc::XRayIntersectsLine(c(), c(), c(), c(), c(), c())); break;
      case 3: { double px = 0, py = 0; h.d(nc::GetProjection(c(), c(), c(), c(), c(), c(), &px, &py)); h.d(px); h.d(py); h.d(nc::SegmentPointDist(nc::XYPoint(c(), c()), nc::XYPoint(c(), c()), nc::XYPoint(c(), c()))); break; }
      case 4: { nc::GeoPoint b(r.r(-80, 80), r.r(-180, 180)); auto p = nc::localToGps(nc::XYPoint(c(), c()), b); auto q = nc::gpsToLocal(p, b); h.d(p.latitude); h.d(p.longitude); h.d(q.x); h.d(q.y); break; }
      case 5: { std::vector<nc::TriangleVertex> v; int n = (int)r.i(3, 20); for (int i = 0; i < n; ++i) v.push_back(nc::TriangleVertex(r.r(0, 40), r.r(0, 40), nc::ReferencePointId(std::to_string(i))));
        for (auto& t : nc::TriangulateVertices(v, 60)) { h.d(t.getA().x); h.d(t.getB().y); h.d(t.getC().x); } break; }
      case 6: { for (auto& t : nc::triangulate(coll)) h.l((long long)t.second.size()); for (auto& l : coll->levels()) { nc::Linestring ls; ls.push_back(nc::Point(c(), c())); ls.push_back(nc::Point(c(), c())); h.l(l.geometry().isPathTouchesBarriers(ls)); } break; }
      case 7: { nc::NavigationSettings s; nc::ComplementaryFilter f(s); nc::SensorMeasurement m; m.ts = 1000;
        for (int i = 0; i < 10; ++i) { m.ts += r.i(1, 50); m.data.type = (SType)r.i(0, 2); m.data.values = nc::Vector3d(c(), c(), c()); f.update(m); } h.d(f.getFusedOrientation().roll); h.d(f.getFusedAzimuth()); h.d(f.getMagneticAzimuth()); h.d(nc::to_minus_Pi_Pi(c() * 10)); break; }
      case 8: { nc::Pedometer p; nc::SensorMeasurement m; m.ts = 1000; m.data.type = SType::ACCELEROMETER; for (int i = 0; i < 60; ++i) { m.ts += 20; m.data.values = nc::Vector3d(0, 0, 9.8 + (i / 12 % 2 ? 3 : -3) * r.u()); p.update(m); for (auto& st : p.calculateSteps()) h.d(st.len); } break; }
      default: { int n = (int)r.i(1, 4); std::vector<double> A((size_t)(n * n)), b((size_t)n), x((size_t)n); for (auto& v : A) v = c(); for (auto& v : b) v = c(); nc::solveLinearSystem(A, b, x, n); for (double v : x) h.d(v);
        nc::PolynomialFit f(1, 5, 0.5, 0.7); for (int i = 0; i < 8; ++i) { f.addSequencePoint(i, c()); h.d(f.predict(i)); } break; }
    }
    if (yields && r.p(0.1)) std::this_thread::yield();
    else if (!yields) (void)r.p(0.1);
  }
  return h.h;
}
static void funcs(Rng& g)
{
  int n = (int)g.i(3, 6); G::MapOpt mo; mo.maxRp = 14;
  auto m = G::genMap(g, mo); auto coll = G::collector(m);
  std::vector<uint64_t> seeds, got((size_t)n); for (int k = 0; k < n; ++k) seeds.push_back(g.next());
  std::atomic<int> ready{0}; std::vector<std::thread> th;
  for (int k = 0; k < n; ++k) th.emplace_back([&, k]() { ready++; while (ready < n) std::this_thread::yield(); got[(size_t)k] = funcsOnce(seeds[(size_t)k], coll, true); });
  for (auto& t : th) t.join();
  Hash h;
  for (int k = 0; k < n; ++k)
  {
    uint64_t w = funcsOnce(seeds[(size_t)k], G::collector(m), false);
    if (w != got[(size_t)k]) return violation("functions", fmt("thread %d of %d computed something else than the same calls made alone", k, n));
    h.l((long long)w);
  }
  note("calls", 60 * n); distinct(h.h);
  sample(fmt("%d threads making 60 calls each", n));
}
#else
static void funcs(Rng&) {}
#endif

int main(int argc, char** argv)
{
  G::Quiet q; parseArgs(argc, argv); std::string a = ctx().arg;
  return runCases(argc, argv, [&](long long k, Rng& g)
  {
    if (a == "P01") p01(g); else if (a == "P03") p03(g); else if (a == "P04") p04(g); else if (a == "P05") p05(g); else if (a == "P06") p06(g); else if (a == "threads") threads(g); else if (a == "funcs") funcs(g); else hashed(k, g);
  });
}
