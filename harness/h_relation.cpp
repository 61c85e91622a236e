// Relations between two whole sessions.  arg: P43 (times) | P44 (names, storage order) | P45 (what is switched off)
#include "session_common.hpp"
#include <sstream>

// ---------------------------------------------------------------- P43
static void p43(Rng& g)
{
  Setup s = setup(g);
#ifdef WITH_ALT
  if (g.p(0.2)) s.c.useAltitude = true;
#endif
  bool sensors = false;
  for (auto& m : s.stream) if (auto* q = boost::get<nc::SensorMeasurementData>(&m.data)) sensors = sensors || (q->type != SType::LOCATION && q->type != SType::BAROMETER && q->type != SType::ORIENTATION);
  long long t0 = s.stream.front().ts, span = s.stream.back().ts - t0;
  auto base = [&]() -> long long
  {
    // starts that make the history run across, up to or past a round number of the clock
    long long lo = sensors ? 200000000000LL : 1000000000LL;
    static const long long M[] = {1LL << 31, 1LL << 32, 1LL << 40, 1LL << 41, 1LL << 42, 2147483648000LL, 4294967296000LL, 1000000000000LL, 10000000000000LL, 1LL << 50};
    for (int tries = 0; tries < 20; ++tries)
    {
      static const long long U[] = {86400000LL, 3600000LL, 604800000LL, 60000LL, 65536000LL};
      long long b = g.p(0.3) ? M[g.i(0, 9)] - g.i(0, span + 10) : g.p(0.4) ? (long long)std::exp(g.r(std::log((double)lo), std::log(1e13))) / 604800000LL * 604800000LL + U[g.i(0, 4)] * g.i(0, 6) - g.i(0, span + 10) : g.p(0.5) ? g.i(lo, 3000000000000LL) : (long long)std::exp(g.r(std::log((double)lo), std::log(1e15)));
      if (b >= lo) return b;
    }
    return lo;
  };
  long long A = base(), B = base();
  auto u = s.stream, v = s.stream;
  for (auto& m : u) m.ts += A - t0;
  for (auto& m : v) m.ts += B - t0;
  Outs a, b; States sa, sb; std::string why;
  runAll(session(s), u, a, sa); runAll(session(s), v, b, sb);
  event((long long)a.size());
  if (!closeTo(a, sa, b, sb, 1e-6, {}, true, why, 0.0101)) return violation("times:" + keyOf(why), fmt("the same history starting at %lld instead of %lld: ", B, A) + why);
  note("positions", okCount(a)); note(sensors ? "with_motion_sensors" : "without_motion_sensors");
  if (okCount(a) > 0) { Hash h; for (auto& o : a) h.d(o.posLatitude).d(o.posR); h.l(A).l(B); distinct(h.h); }
  sample(fmt("%zu messages over %.1f s from %lld and from %lld ms: %d positions", s.stream.size(), (double)span / 1000, A, B, okCount(a)));
}

// ---------------------------------------------------------------- P44
static std::string anyName(Rng& g)
{
  static const char* word[] = {"unknown", "none", "null", "0", "-1", "default", "level", "nan", " ", "\t", "(1,2,3)", "Floor 1", "\xC3\xA9tage", "\xE5\xB1\x82", "a/b", "a\\b", "\"", "%s", "..", "id",
    "N/A", "NULL", "undefined", "NaN", "None", "Unknown", "UNKNOWN", "ground", "G", "B1", "-2", "00", "01", "empty", "any", "*", "outdoor", "invalid", "test", "."};
  switch (g.i(0, 6))
  {
    case 6: { static const int L[] = {7, 8, 15, 16, 17, 31, 32, 36, 63, 64, 127, 255, 256}; std::string s((size_t)L[g.i(0, 12)], 'A'); return s + (g.p(0.5) ? fmt("%lld", g.i(0, 99)) : std::string(1, (char)g.i(1, 255))); }   // alike for long
    case 0: return word[g.i(0, 39)];
    case 1: return std::string(word[g.i(0, 39)]) + fmt("%lld", g.i(0, 99));
    case 2: { std::string s((size_t)g.i(20, 400), (char)g.i('a', 'z')); return s + fmt("%lld", g.i(0, 9)); }
    case 3: { std::string s; for (long long n = g.i(1, 6); n > 0; --n) s += (char)g.i(1, 255); return s; }
    case 4: return fmt("%lld", g.i(-1000, 1000000));
    default: return fmt("(%lld,%lld,F7826DA6-%04llX)", g.i(0, 65535), g.i(0, 65535), (unsigned long long)g.i(0, 65535));
  }
}
// new names in the old order
static std::map<std::string, std::string> renaming(Rng& g, const std::set<std::string>& old)
{
  std::set<std::string> fresh;
  while (fresh.size() < old.size())
  {
    std::string n = anyName(g);
    if (!fresh.empty() && g.p(0.3))
    {
      // much like another one
      auto it = fresh.begin(); std::advance(it, g.i(0, (long long)fresh.size() - 1)); n = *it;
      switch (g.i(0, 7))
      {
        case 0: for (auto& c : n) c = (char)((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ? c ^ 32 : c); break;
        case 1: n += ' '; break;
        case 2: n = " " + n; break;
        case 3: n += n[0]; break;
        case 4: if (n.size() > 1) n.pop_back(); break;
        case 5: if (n.size() > 1) n.erase(0, 1); break;
        case 6: n[n.size() / 2] = (char)g.i(33, 126); break;
        default: std::reverse(n.begin(), n.end());
      }
    }
    fresh.insert(n);
  }
  std::map<std::string, std::string> r; auto it = fresh.begin();
  for (auto& o : old) r[o] = *it++;
  return r;
}
// readings on a coarse scale, so that several are equally strong
static void coarse(Setup& s, Rng& g)
{
  if (!g.p(0.25)) return;
  double q = g.pickd({1, 1, 2, 5}); note("coarse readings");
  for (auto& m : s.stream) if (auto* d = boost::get<nc::RadioMeasurementData>(&m.data)) if (std::isfinite(d->rssi) && d->rssi < 0 && d->rssi > -100) d->rssi = std::min(-q, std::round(d->rssi / q) * q);
}
static void p44(Rng& g)
{
  Setup s = setup(g); coarse(s, g); Setup t = s;
  std::set<std::string> ln, tn, rn;
  for (auto& l : s.m.lv) { ln.insert(l.id); for (auto& x : l.txs) tn.insert(x.id); for (auto& r : l.rps) { rn.insert(r.id); for (auto& f : r.fp) tn.insert(f.first); } }
  for (auto& m : s.stream) if (auto* r = boost::get<nc::RadioMeasurementData>(&m.data)) tn.insert(r->id.value);
  auto lr = renaming(g, ln), tr = renaming(g, tn), rr = renaming(g, rn);
  if (g.p(0.2)) for (auto& x : lr) x.second = x.first;
  if (g.p(0.2)) for (auto& x : tr) x.second = x.first;
  for (auto& l : t.m.lv)
  {
    l.id = lr[l.id];
    for (auto& x : l.txs) x.id = tr[x.id];
    for (auto& r : l.rps) { r.id = rr[r.id]; std::map<std::string, R::Stat> f; for (auto& q : r.fp) f[tr[q.first]] = q.second; r.fp = f; }
    g.shuffle(l.txs);                  // the order a map lists its transmitters in means nothing either
  }
  for (auto& m : t.stream) if (auto* r = boost::get<nc::RadioMeasurementData>(&m.data)) r->id.value = tr[r->id.value];
  Outs a, b; States sa, sb; std::string why;
  runAll(session(s), s.stream, a, sa); runAll(session(t), t.stream, b, sb);
  event((long long)a.size());
  if (!closeTo(a, sa, b, sb, 1e-6, lr, true, why, 0.0101)) return violation("names:" + keyOf(why), "after renaming levels, transmitters and reference points: " + why);
  note("positions", okCount(a)); note("names", (long long)(lr.size() + tr.size() + rr.size()));
  if (okCount(a) > 0) { Hash h; for (auto& o : b) h.d(o.posLatitude).s(o.posLevel.value); distinct(h.h); }
  sample(fmt("%zu names changed, %zu messages, %d positions", lr.size() + tr.size() + rr.size(), s.stream.size(), okCount(a)));
}

// ---------------------------------------------------------------- P45
struct Knob { const char* name; std::function<void(Setup&, Rng&)> turn; };
static std::vector<Knob> inert(const Setup& s)
{
  const CommonSettings& c = s.c; std::vector<Knob> k;
  bool knn = c.useAlgorithm == U::KNN, rm = knn || c.useRadiomap, rssi = c.measurementType == CommonSettings::MeasurementType::RSSI;
  bool fixes = false, acc = false, strangers = false, locators = false; std::set<std::string> known;
  for (auto& l : s.m.lv) for (auto& t : l.txs) { known.insert(t.id); locators = locators || t.type == nc::TransmitterType::LOCATOR; }
  for (auto& m : s.stream)
  {
    if (auto* q = boost::get<nc::SensorMeasurementData>(&m.data)) { fixes = fixes || q->type == SType::LOCATION; acc = acc || q->type == SType::ACCELEROMETER; }
    if (auto* r = boost::get<nc::RadioMeasurementData>(&m.data)) strangers = strangers || !known.count(r->id.value);
  }
  k.push_back({"particle filter parameters", [](Setup& s, Rng& g) { auto& c = s.c; c.numParticles = (unsigned)g.i(0, 5000); c.minMsrNumForMutation = (unsigned)g.i(0, 9); c.resamplingThreshold = g.r(0, 1000); c.minNumParticlesAlive = (unsigned)g.i(0, 999); c.gyroNoiseDegree = g.r(0, 90);
    c.stepNoiseDeviationMeters = g.r(0, 3); c.useProjectionToWhiteArea = g.p(0.5); c.numParticlesAroundClosestAp = (unsigned)g.i(0, 99); c.numParticlesToMutate = (unsigned)g.i(0, 99); c.numSamplingAttempts = (unsigned)g.i(0, 99); c.numInitializationAttempts = (unsigned)g.i(0, 999); c.useUniformSampling = g.p(0.5); c.lklCorrectionNoise = g.r(0, 30); }});
  if (!c.useAltitude) k.push_back({"heights of levels and transmitters without altitude", [](Setup& s, Rng& g) { for (auto& l : s.m.lv) { l.altitude += g.r(-50, 50); for (auto& t : l.txs) t.alt = g.r(-5, 30); } }});
  if (!c.useAltitude) k.push_back({"round-trip-time offset without altitude", [](Setup& s, Rng& g) { s.c.wiFiRttOffset = g.r(-3, 3); }});
  if (!c.useAltitude && (rm || !c.useTxPower)) k.push_back({"transmitter path loss without altitude and power", [](Setup& s, Rng& g) { for (auto& l : s.m.lv) for (auto& t : l.txs) { t.A = g.r(-90, -30); t.B = g.r(3, 30); t.power = g.r(-30, 20); } }});
  if (rm) k.push_back({"beacon power with radio map levels", [](Setup& s, Rng&) { s.c.useTxPower = !s.c.useTxPower; }});
  else k.push_back({"best reference point level without radio map", [](Setup& s, Rng&) { s.c.useBestRefPointLevel = !s.c.useBestRefPointLevel; }});
  if (!rm) k.push_back({"radio map contents without radio map", [](Setup& s, Rng& g) { for (auto& l : s.m.lv) { if (g.p(0.3)) l.rps.clear(); else for (auto& r : l.rps) { r.x = g.u() * l.W; r.y = g.u() * l.Hh; for (auto& f : r.fp) f.second.mean = g.r(-99, -20); } } }});
  if (knn) k.push_back({"level path loss with fingerprint positioning", [](Setup& s, Rng& g) { for (auto& l : s.m.lv) { l.A = g.r(-90, -50); l.B = g.r(1, 20); } }});
  if (knn) k.push_back({"radio map switch with fingerprint positioning", [](Setup& s, Rng&) { s.c.useRadiomap = !s.c.useRadiomap; }});
  if (!knn)
  {
    k.push_back({"fingerprint settings with zone positioning", [](Setup& s, Rng& g) { s.c.kNeighbors = (unsigned)g.i(1, 20); s.c.useTriangles = g.p(0.5); s.c.useDiffMode = g.p(0.5); s.c.minNumOfMeasurementsForPositionCalculation = (unsigned)g.i(0, 9); }});
    k.push_back({"name of the zone algorithm", [](Setup& s, Rng& g) { s.c.useAlgorithm = (U)(int)g.i(0, 3); }});
  }
  if (!c.useClosestAps) k.push_back({"number of closest transmitters, unused", [](Setup& s, Rng& g) { s.c.numClosestAps = (unsigned)(g.p(0.8) ? g.i(0, 9) : g.i(10, 100000)); }});
  if (!c.useStops) k.push_back({"stop settings without stops", [](Setup& s, Rng& g) { s.c.stopDetectionTime = g.p(0.7) ? g.r(0, 9) : g.r(9, 1e4); s.c.stopUpdateTime = g.p(0.7) ? g.r(0, 9) : g.r(9, 1e4); s.c.useStopsDistanceThresholdM = g.p(0.7) ? g.r(0, 30) : g.r(30, 1e5); }});
  if (!c.useSmoothing) k.push_back({"smoother settings without smoothing", [](Setup& s, Rng& g) { s.c.smoothing = g.r(-1, 2); s.c.useAccuracyForSmoothing = g.p(0.5); s.c.useSpeedConstraint = g.p(0.5); s.c.useBarriers = g.p(0.5); s.c.useAbFilter = g.p(0.5); }});
  else if (!c.useAbFilter) k.push_back({"alpha-beta settings with least squares", [](Setup& s, Rng& g) { s.c.useAccuracyForSmoothing = g.p(0.5); s.c.useSpeedConstraint = g.p(0.5); }});
  else if (c.useAccuracyForSmoothing) k.push_back({"smoothing strength when accuracy sets it", [](Setup& s, Rng& g) { s.c.smoothing = g.r(-1, 2); }});
  if (!c.useGraphProjection) k.push_back({"route graph without projection", [](Setup& s, Rng& g) { s.c.graphProjDist = g.p(0.5) ? g.r(0, 50) : std::pow(10.0, g.r(-3, 7)); for (auto& l : s.m.lv) { if (g.p(0.3)) { l.gv.clear(); l.ge.clear(); } for (auto& v : l.gv) v = {g.u() * l.W, g.u() * l.Hh}; } }});
  if (!c.useSmoothing || !c.useBarriers) k.push_back({"inner walls without barriers", [](Setup& s, Rng& g) { for (auto& l : s.m.lv) { if (g.p(0.5)) { for (auto& z : l.zones) z.holes.clear(); } else { R::Zone z; z.outer = G::rect(0, 0, l.W, l.Hh); double a = g.r(0.1, 0.6), b = g.r(0.1, 0.6); z.holes.push_back(G::rect(a * l.W, b * l.Hh, (a + 0.3) * l.W, (b + 0.3) * l.Hh)); l.zones = {z}; } } }});
  if (!c.useBarometer) k.push_back({"pressure without barometer", [](Setup& s, Rng& g) { double p = g.r(900, 1100); for (auto& m : s.stream) if (auto* q = boost::get<nc::SensorMeasurementData>(&m.data)) if (q->type == SType::BAROMETER) { p += g.g(); q->values = nc::Vector3d(p, 0, 0); } }});
  if (!c.useGps && !c.useInstantGpsPosition) k.push_back({"fusion settings without GNSS", [](Setup& s, Rng& g) { s.c.preferIndoorSolution = g.p(0.5); s.c.fuseGps = g.p(0.5); s.c.fuseGpsBorderM = g.r(0, 100); s.c.positionIsTooOldSec = g.r(0, 30); s.c.priorDeviation = g.r(1, 90); s.c.averageMovSpeed = g.r(0, 3); }});
  else if (!c.fuseGps) k.push_back({"fusion border without fusion", [](Setup& s, Rng& g) { s.c.fuseGpsBorderM = g.r(0, 100); }});
  if (!c.useGpsSigmaFilter) k.push_back({"sigma filter parameters, unused", [](Setup& s, Rng& g) { s.c.sigmaFilterWindow = (unsigned)g.i(0, 9); s.c.sigmaFilterDelta = g.r(0, 30); }});
  if (!fixes) k.push_back({"GNSS settings without fixes", [](Setup& s, Rng& g) { auto& c = s.c; c.useGps = g.p(0.5); c.useInstantGpsPosition = g.p(0.3); c.preferIndoorSolution = g.p(0.5); c.fuseGps = g.p(0.5); c.useGpsSigmaFilter = g.p(0.5); c.sigmaFilterWindow = (unsigned)g.i(0, 9); c.sigmaFilterDelta = g.r(0, 9);
    c.minNumSats = (unsigned)g.i(0, 30); c.minGpsDeviation = g.r(0, 20); c.maxGpsDeviation = g.r(0, 50); c.fuseGpsBorderM = g.r(0, 100); c.positionIsTooOldSec = g.r(0, 30); c.priorDeviation = g.r(1, 90); c.averageMovSpeed = g.r(0, 3); c.gpsValidTimeWindowSec = g.r(0, 5); }});
  if (!fixes) k.push_back({"satellite reports without fixes", [](Setup& s, Rng& g) { for (auto& m : s.stream) if (auto* q = boost::get<nc::NmeaMeasurementData>(&m.data)) { q->sentenceNumber = (int)g.i(0, 3); q->satellitesNumber = (int)g.i(0, 40); } }});
  if (!rssi) k.push_back({"rssi cut-off in distance mode", [](Setup& s, Rng& g) { s.c.sigCutOffRss = g.r(-120, 0); }});
  if (!strangers && !locators && !c.useTracking) k.push_back({"unknown transmitters switch without unknown transmitters", [](Setup& s, Rng&) { s.c.useUnknownTransmitters = !s.c.useUnknownTransmitters; }});
  if (!acc) k.push_back({"step settings without accelerometer", [](Setup& s, Rng& g) { s.c.stepMultiplier = g.r(0, 3); s.c.noActionTimeThreshold = (long long)g.i(1, 60); s.c.stopDetectionTime = g.r(0, 9); s.c.stopUpdateTime = g.r(0, 9); s.c.useStopsDistanceThresholdM = g.r(0, 30); }});
  if (c.useCalculatedAzimuth) k.push_back({"device azimuth when calculated", [](Setup& s, Rng& g) { s.c.deviceAzimuthLifetimeSeconds = g.r(0, 20); for (auto& m : s.stream) if (auto* q = boost::get<nc::SensorMeasurementData>(&m.data)) if (q->type == SType::ORIENTATION) q->values = nc::Vector3d(g.r(-4, 4), g.r(-4, 4), g.r(-4, 4)); }});
  k.push_back({"transmitters nobody hears", [known](Setup& s, Rng& g) { for (auto& l : s.m.lv) for (long long n = g.i(0, 4); n > 0; --n) { R::Tx t; t.id = fmt("silent-%llx", (unsigned long long)g.next()); t.type = (nc::TransmitterType)(int)g.i(0, 5); t.x = g.u() * l.W; t.y = g.u() * l.Hh; t.alt = g.r(0, 4); t.A = g.r(-90, -40); t.B = g.r(5, 25); t.power = 0; l.txs.insert(l.txs.begin() + g.i(0, (long long)l.txs.size()), t); } }});
  k.push_back({"unused parts of sensor readings", [](Setup& s, Rng& g) { for (auto& m : s.stream) if (auto* q = boost::get<nc::SensorMeasurementData>(&m.data)) { if (q->type == SType::BAROMETER) { double w = std::pow(10.0, g.r(-2, 4)); q->values.y = g.r(-w, w); q->values.z = g.r(-w, w); } } else if (auto* r = boost::get<nc::RadioMeasurementData>(&m.data)) { r->stddev = g.p(0.5) ? g.r(0, 9) : std::pow(10.0, g.r(-2, 4)); if (r->type != RType::WIFI_RTT) r->distance = g.r(0, 50); } }});
#ifdef WITH_ALT
  k.push_back({"altitude switch", [](Setup& s, Rng&) { s.c.useAltitude = !s.c.useAltitude; }});
#endif
  return k;
}
static void p45(Rng& g)
{
  Setup s = setup(g);
#ifdef WITH_ALT
  if (g.p(0.3)) s.c.useAltitude = true;
#endif
  if (g.p(0.3)) { auto v = s.stream; s.stream.clear(); for (auto& m : v) { auto* q = boost::get<nc::SensorMeasurementData>(&m.data); if (!q || q->type != SType::LOCATION) s.stream.push_back(m); } }
  if (g.p(0.2)) { auto v = s.stream; s.stream.clear(); for (auto& m : v) { auto* q = boost::get<nc::SensorMeasurementData>(&m.data); if (!q || q->type != SType::ACCELEROMETER) s.stream.push_back(m); } }
  coarse(s, g);
  auto all = inert(s); std::vector<std::pair<Knob, uint64_t>> use;
  double p = g.pickd({0.15, 0.5, 0.9});
  for (auto& k : all) if (g.p(p)) use.push_back({k, g.next()});
  Setup t = s; for (auto& k : use) { Rng r(k.second); k.first.turn(t, r); note(fmt("turned: %s", k.first.name)); }
  Outs a, b; States sa, sb; std::string why;
  bool alt = s.c.useAltitude && t.c.useAltitude;
  runAll(session(s), s.stream, a, sa); runAll(session(t), t.stream, b, sb);
  event((long long)a.size());
  if (!closeTo(a, sa, b, sb, 1e-6, {}, alt, why, 0.0101))
  {
    // which one
    for (auto& k : use)
    {
      Setup q = s; Rng r(k.second); k.first.turn(q, r);
      Outs c; States sc; std::string w; runAll(session(q), q.stream, c, sc);
      if (!closeTo(a, sa, c, sc, 1e-6, {}, s.c.useAltitude && q.c.useAltitude, w, 0.0101)) return violation(std::string("inert:") + k.first.name, fmt("changing %s has an effect: ", k.first.name) + w);
    }
    return violation("inert:together", fmt("changing %zu switched-off things together has an effect: ", use.size()) + why);
  }
  note("positions", okCount(a));
  if (okCount(a) > 0 && !use.empty()) { Hash h; for (auto& o : a) h.d(o.posLatitude).d(o.posR); for (auto& k : use) h.s(k.first.name); distinct(h.h); }
  sample(fmt("%zu of %zu switched-off things changed, %zu messages, %d positions", use.size(), all.size(), s.stream.size(), okCount(a)));
}

int main(int argc, char** argv)
{
  G::Quiet q; parseArgs(argc, argv); std::string a = ctx().arg;
  return runCases(argc, argv, [&](long long, Rng& g) { if (a == "P43") p43(g); else if (a == "P44") p44(g); else p45(g); });
}
