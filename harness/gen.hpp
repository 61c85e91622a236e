// Generators: random maps, settings and message streams, and their conversion to the library's types.
#pragma once
#include <list>
#include <array>
#include "ref.hpp"
#include <navigine/navigation-core/navigation_client.h>
#include <navigine/navigation-core/geolevel.h>
#include <navigine/navigation-core/barriers_geometry_builder.h>

namespace G {
namespace nc = navigine::navigation_core;
using H::Rng;
using R::Map; using R::Lvl; using R::Tx; using R::Rp; using R::P2;
using nc::CommonSettings;
using RType = nc::RadioMeasurementData::Type;
using SType = nc::SensorMeasurementData::Type;

struct MapOpt
{
  int minLevels = 1, maxLevels = 3;
  bool sameBox = false, rps = true, graph = true, zones = true, holes = true, sharedTx = true, locators = true;
  int maxTx = 8, maxRp = 14;
  double maxSize = 60;
  double onWalls = 0;          // transmitters exactly on the west or south side
  bool big = true;             // may be many times larger
  bool farApart = false;       // levels elsewhere on earth
};

inline R::Ring rect(double x0, double y0, double x1, double y1)
{ R::Ring r; r.pts = {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}}; return r; }

inline void genZones(Rng& g, Lvl& l, const MapOpt& o)
{
  l.zones.clear();
  double W = l.W, Hh = l.Hh;
  auto addHoles = [&](R::Zone& z, double x0, double y0, double x1, double y1)
  {
    if (!o.holes) return;
    int n = (int)g.i(0, 2);
    double cw = (x1 - x0) / std::max(1, n);
    for (int k = 0; k < n; ++k)
    {
      double a = x0 + cw * k + cw * g.r(0.1, 0.4), b = x0 + cw * k + cw * g.r(0.55, 0.9);
      double c = y0 + (y1 - y0) * g.r(0.1, 0.4), d = y0 + (y1 - y0) * g.r(0.55, 0.9);
      R::Ring h;
      if (g.p(0.5)) h = rect(a, c, b, d);
      else h.pts = {{a, c}, {b, c}, {(a + b) / 2, d}};
      if (g.p(0.5)) std::reverse(h.pts.begin(), h.pts.end());
      z.holes.push_back(h);
    }
  };
  int kind = o.zones ? (int)g.i(0, 4) : 0;
  if (kind <= 1)
  {
    R::Zone z; z.outer = rect(0, 0, W, Hh); if (kind == 1) addHoles(z, 0, 0, W, Hh); l.zones.push_back(z);
  }
  else if (kind == 2)           // separated strips, together spanning the box
  {
    int n = (int)g.i(2, 3); double w = W / n;
    for (int k = 0; k < n; ++k)
    {
      double x0 = k ? w * k + w * g.r(0.02, 0.2) : 0, x1 = k == n - 1 ? W : w * (k + 1);
      double y0 = k == 0 ? 0 : Hh * g.r(0, 0.2), y1 = k == n - 1 ? Hh : Hh * g.r(0.7, 1);
      R::Zone z; z.outer = rect(x0, y0, x1, y1); addHoles(z, x0, y0, x1, y1); l.zones.push_back(z);
    }
  }
  else if (kind == 3)           // L-shape
  {
    double a = W * g.r(0.3, 0.7), b = Hh * g.r(0.3, 0.7);
    R::Zone z; z.outer.pts = {{0, 0}, {W, 0}, {W, b}, {a, b}, {a, Hh}, {0, Hh}};
    l.zones.push_back(z);
  }
  else                          // octagon touching all four sides
  {
    double a = W * g.r(0.05, 0.4), b = Hh * g.r(0.05, 0.4);
    R::Zone z; z.outer.pts = {{a, 0}, {W - a, 0}, {W, b}, {W, Hh - b}, {W - a, Hh}, {a, Hh}, {0, Hh - b}, {0, b}};
    l.zones.push_back(z);
  }
  for (auto& z : l.zones) if (g.p(0.5)) std::reverse(z.outer.pts.begin(), z.outer.pts.end());
  g.shuffle(l.zones);
}

inline Map genMap(Rng& g, const MapOpt& o = MapOpt())
{
  Map m;
  int n = (int)g.i(o.minLevels, o.maxLevels);
  double lat = g.r(-75, 75), lon = g.r(-179.5, 179.5);
  if (g.p(0.1)) lat = g.r(-0.0001, 0.0001);
  double W = g.r(8, o.maxSize), Hh = g.r(8, o.maxSize);
  bool same = o.sameBox || g.p(0.4);
  // a shopping centre now and then
  const bool big = o.big && g.p(0.03);
  const double maxSize = big ? 400 : o.maxSize; const int maxTx = big ? std::max(o.maxTx, std::min(o.maxTx * 6, 50)) : o.maxTx, maxRp = big ? o.maxRp * 2 : o.maxRp;
  if (big) { n = (int)g.i(o.minLevels, o.maxLevels * 3); W = g.r(8, maxSize); Hh = g.r(8, maxSize); }
  for (int k = 0; k < n; ++k)
  {
    Lvl l;
    l.id = g.p(0.5) ? H::fmt("%d", 7 * k + (int)g.i(0, 3) * 100) : H::fmt("floor-%c%d", 'z' - k, k);
    if (same) { l.bindLat = lat; l.bindLon = lon; l.W = W; l.Hh = Hh; }
    else
    {
      l.W = g.r(8, maxSize); l.Hh = g.r(8, maxSize);
      l.bindLat = lat + g.r(-30, 30) / R::metersPerLat(); l.bindLon = lon + g.r(-30, 30) / R::metersPerLon(lat);
      if (o.farApart && g.p(0.5)) { l.bindLat = g.r(-70, 70); l.bindLon = g.r(-179, 179); }
    }
    l.altitude = g.p(0.7) ? 3.5 * k + g.r(-1, 1) : g.r(-20, 200);
    l.A = g.r(-85, -50); l.B = g.r(2, 20);
    genZones(g, l, o);
    int nt = (int)g.i(1, maxTx);
    for (int t = 0; t < nt; ++t)
    {
      Tx x;
      x.id = g.p(0.5) ? H::fmt("(%d,%d,F7826DA6)", k, t) : H::fmt("tx%c%d", 'a' + (int)g.i(0, 25), k * 100 + t);
      if (t > 0 && g.p(0.1)) x.id = l.txs[0].id + "0";      // one id a prefix of another
      if (o.sharedTx && k > 0 && g.p(0.1)) x.id = m.lv[0].txs[(size_t)g.i(0, (long long)m.lv[0].txs.size() - 1)].id;
      x.type = (nc::TransmitterType)(int)g.i(0, 4);
      if (o.locators && g.p(0.12)) x.type = nc::TransmitterType::LOCATOR;
      x.x = g.r(0, l.W); x.y = g.r(0, l.Hh); x.alt = g.r(-1.5, 4);
      if (o.onWalls > 0 && g.p(o.onWalls)) (k % 2 ? x.y : x.x) = 0;
      x.A = g.r(-85, -45); x.B = g.r(5, 25); x.power = g.p(0.5) ? 0 : g.r(-20, 10);
      bool dup = false;
      for (auto& q : l.txs) dup = dup || q.id == x.id;
      if (!dup) l.txs.push_back(x);
    }
    m.lv.push_back(l);
  }
  if (o.rps)
    for (auto& l : m.lv)
    {
      int nr = g.p(0.12) ? (int)g.i(0, 3) : (int)g.i(4, maxRp);
      for (int k = 0; k < nr; ++k)
      {
        Rp r; r.id = H::fmt("rp%d_%s", (k * 37) % 101, l.id.c_str());
        r.x = g.r(0, l.W); r.y = g.r(0, l.Hh);
        for (auto& q : m.lv)
          for (auto& t : q.txs)
          {
            if (&q != &l && !g.p(0.25)) continue;
            if (&q == &l && g.p(0.1)) continue;
            double d = std::max(0.5, R::hyp(t.x - r.x, t.y - r.y));
            R::Stat s; s.mean = std::max(-99.0, std::min(-20.0, t.A - t.B * std::log(d) + 2 * g.g() - (&q != &l ? 15 : 0)));
            s.var = g.r(0, 5); s.n = (size_t)g.i(1, 30);
            r.fp[t.id] = s;
          }
        l.rps.push_back(r);
      }
    }
  if (o.graph)
    for (auto& l : m.lv)
    {
      int nv = (int)g.i(0, 8);
      for (int k = 0; k < nv; ++k) l.gv.push_back({g.r(0, l.W), g.r(0, l.Hh)});
      std::set<std::pair<int, int>> es;
      if (nv >= 2)
        for (int k = (int)g.i(0, 9); k > 0; --k)
        {
          int a = (int)g.i(0, nv - 1), b = (int)g.i(0, nv - 1);
          if (a != b || g.p(0.1)) { if (a > b) std::swap(a, b); es.insert({a, b}); }
        }
      l.ge.assign(es.begin(), es.end());
    }
  return m;
}

inline nc::Polygon geoPoly(const Lvl& l, const R::Zone& z, bool close)
{
  nc::Polygon p;
  auto put = [&](auto& ring, const R::Ring& r)
  {
    for (auto& q : r.pts) ring.push_back(nc::Point(l.lat(q.y), l.lon(q.x)));
    if (close && !r.pts.empty()) ring.push_back(nc::Point(l.lat(r.pts[0].y), l.lon(r.pts[0].x)));
  };
  put(p.outer(), z.outer);
  for (auto& h : z.holes) { p.inners().push_back({}); put(p.inners().back(), h); }
  return p;
}

inline nc::GeoLevel geoLevel(const Lvl& l, bool close = true)
{
  nc::GeoLevel q;
  q.id = nc::LevelId(l.id);
  q.altitude = l.altitude;
  for (auto& t : l.txs)
    q.transmitters.emplace_back(nc::TransmitterId(t.id), nc::GeoPoint3D(l.lat(t.y), l.lon(t.x), t.alt), nc::PathlossModel{t.A, t.B, t.power}, t.type);
  for (auto& r : l.rps)
  {
    std::map<nc::TransmitterId, nc::SignalStatistics> fp;
    for (auto& f : r.fp) fp[nc::TransmitterId(f.first)] = nc::SignalStatistics{nc::TransmitterType::BEACON, f.second.mean, f.second.var, f.second.n};
    q.referencePoints.emplace_back(nc::ReferencePointId(r.id), nc::GeoPoint(l.lat(r.y), l.lon(r.x)), fp);
  }
  std::list<nc::Polygon> polys;
  for (auto& z : l.zones) polys.push_back(geoPoly(l, z, close));
  q.geometry = nc::getGeometry(polys);
  std::vector<int> ids;
  for (auto& v : l.gv) ids.push_back(q.graph.addVertex(nc::GeoPoint(l.lat(v.y), l.lon(v.x))).id);
  for (auto& e : l.ge) q.graph.addEdge(ids[(size_t)e.first], ids[(size_t)e.second]);
  return q;
}

inline std::shared_ptr<nc::LevelCollector> collector(const Map& m)
{
  auto c = nc::createLevelCollector();
  for (auto& l : m.lv) c->addGeoLevel(geoLevel(l));
  return c;
}

inline nc::NavigationSettings settings(const Map& m, const CommonSettings& c)
{
  nc::NavigationSettings s; s.commonSettings = c;
  for (auto& l : m.lv) { s.levelsSettings[nc::LevelId(l.id)].normalModeA = l.A; s.levelsSettings[nc::LevelId(l.id)].normalModeB = l.B; }
  return s;
}

inline CommonSettings genSettings(Rng& g, int algo = -1)
{
  CommonSettings c;
  using U = CommonSettings::UseAlgorithm;
  c.useAlgorithm = algo >= 0 ? (U)algo : (g.p(0.5) ? U::ZONES : (g.p(0.8) ? U::KNN : (U)(int)g.i(0, 3)));
  c.useEnuAzimuth = g.p(0.3);
  c.useTxPower = g.p(0.4);
  c.useRadiomap = g.p(0.3);
  c.useStops = g.p(0.4);
  c.useTracking = g.p(0.08);
  c.stopDetectionTime = g.pickd({0.5, 1, 3, 3, 6});
  c.averageMovSpeed = g.pickd({0, 0.5, 1, 2});
  c.useBestRefPointLevel = g.p(0.4);
  c.useBarometer = g.p(0.15);
  c.useUnknownTransmitters = g.p(0.15);
  c.sigCutOffRss = g.pickd({-100, -100, -90, -80, -70});
  c.useClosestAps = g.p(0.3);
  c.numClosestAps = (unsigned)g.i(0, 5);
  c.sigAveragingTime = g.pickd({0.5, 1, 1, 2, 3, 5});
  c.sigWindowShift = g.pickd({0, 0, 0.3, 1, 2, 10});
  c.signalsToUse = g.p(0.6) ? CommonSettings::SignalsToUse::BOTH : (CommonSettings::SignalsToUse)(int)g.i(0, 1);
  c.measurementType = g.p(0.85) ? CommonSettings::MeasurementType::RSSI : (CommonSettings::MeasurementType)(int)g.i(1, 2);
  c.kNeighbors = (unsigned)g.i(1, 8);
  c.useTriangles = g.p(0.6);
  c.useDiffMode = g.p(0.6);
  c.minNumOfMeasurementsForPositionCalculation = (unsigned)g.i(1, 5);
  c.smoothing = g.pickd({0, 0.2, 0.5, 0.5, 0.8, 1, 1.5, -1});
  c.deadReckoningTime = g.pickd({0.5, 2, 5, 5, 20});
  c.stopUpdateTime = g.pickd({0.5, 2, 4});
  c.graphProjDist = g.pickd({0.5, 2, 5, 20});
  c.useStopsDistanceThresholdM = g.pickd({0.5, 2, 10, 10});
  c.useSmoothing = g.p(0.7);
  c.useGraphProjection = g.p(0.25);
  c.useAccuracyForSmoothing = g.p(0.3);
  c.useSpeedConstraint = g.p(0.6);
  c.useBarriers = g.p(0.3);
  c.useTimeSmoothing = g.p(0.25);
  c.useAbFilter = g.p(0.7);
  c.useAltitude = g.p(0.2);
  c.useGps = g.p(0.5);
  c.useInstantGpsPosition = g.p(0.1);
  c.preferIndoorSolution = g.p(0.25);
  c.fuseGps = g.p(0.5);
  c.useGpsOutsideMap = g.p(0.2);
  c.useGpsSigmaFilter = g.p(0.25);
  c.sigmaFilterWindow = (unsigned)(g.p(0.1) ? 0 : g.i(1, 4));
  c.sigmaFilterDelta = g.pickd({0, 1, 5, 20});
  c.minNumSats = (unsigned)g.pickd({0, 4, 8, 20});
  c.priorDeviation = g.pickd({5, 20, 50});
  c.minGpsDeviation = g.pickd({0, 2, 5});
  c.maxGpsDeviation = g.p(0.5) ? std::numeric_limits<double>::infinity() : g.pickd({4, 10, 20});
  c.fuseGpsBorderM = g.pickd({0, 5, 10, 100});
  c.noSignalTimeThreshold = (long long)g.pickd({1, 3, 10, 35});
  c.noActionTimeThreshold = (long long)g.pickd({1, 3, 20});
  c.positionIsTooOldSec = g.pickd({0.5, 3, 20});
  c.gpsValidTimeWindowSec = g.pickd({0, 0.5, 1, 3});
  c.useCalculatedAzimuth = g.p(0.3);
  c.deviceAzimuthLifetimeSeconds = g.pickd({0.5, 2, 10});
  c.stepMultiplier = g.pickd({0.5, 1, 1, 2});
  c.wiFiRttOffset = g.pickd({-1.5, 0, 2});
  if (g.p(0.2))
  {
    // any value at all, not only usual ones
    auto lg = [&](double a, double b) { return std::exp(g.r(std::log(a), std::log(b))); };
    auto may = [&](double& x, double v) { if (g.p(0.6)) x = v; };
    may(c.stopDetectionTime, lg(0.05, 60)); may(c.averageMovSpeed, lg(0.01, 30)); may(c.sigCutOffRss, g.r(-130, -30));
    may(c.sigAveragingTime, lg(0.05, 30)); may(c.sigWindowShift, lg(0.05, 40)); may(c.smoothing, g.r(0, 1)); may(c.deadReckoningTime, lg(0.05, 300));
    may(c.stopUpdateTime, lg(0.05, 60)); may(c.graphProjDist, lg(0.01, 300)); may(c.useStopsDistanceThresholdM, lg(0.05, 200));
    may(c.sigmaFilterDelta, lg(0.01, 100)); may(c.priorDeviation, lg(0.1, 1000)); may(c.minGpsDeviation, lg(0.01, 50)); may(c.maxGpsDeviation, lg(0.5, 100));
    may(c.fuseGpsBorderM, lg(0.01, 500)); may(c.positionIsTooOldSec, lg(0.05, 100)); may(c.gpsValidTimeWindowSec, lg(0.01, 60));
    may(c.deviceAzimuthLifetimeSeconds, lg(0.01, 100)); may(c.stepMultiplier, lg(0.05, 10)); may(c.wiFiRttOffset, g.r(-20, 20));
    if (g.p(0.5)) c.numClosestAps = (unsigned)g.i(0, 20);
    if (g.p(0.5)) c.kNeighbors = (unsigned)g.i(1, 40);
    if (g.p(0.5)) c.sigmaFilterWindow = (unsigned)g.i(0, 25);
    if (g.p(0.5)) c.minNumSats = (unsigned)g.i(0, 30);
    if (g.p(0.5)) c.noSignalTimeThreshold = g.i(1, 200);
    if (g.p(0.5)) c.noActionTimeThreshold = g.i(1, 200);
  }
  return c;
}

inline nc::Measurement radio(long long ts, const std::string& id, RType t, double rssi, double dist = 0, double power = 0)
{
  nc::RadioMeasurementData d; d.type = t; d.id = nc::TransmitterId(id); d.rssi = rssi; d.distance = dist; d.power = power;
  nc::Measurement m; m.data = d; m.ts = ts; return m;
}
inline nc::Measurement sensor(long long ts, SType t, double x, double y = 0, double z = 0)
{
  nc::SensorMeasurementData d; d.type = t; d.values = nc::Vector3d(x, y, z);
  nc::Measurement m; m.data = d; m.ts = ts; return m;
}
inline nc::Measurement nmea(long long ts, int sentence, int sats)
{
  nc::NmeaMeasurementData d; d.sentenceNumber = sentence; d.satellitesNumber = sats;
  nc::Measurement m; m.data = d; m.ts = ts; return m;
}

struct StreamOpt
{
  int minLen = 60, maxLen = 240;
  double pRadio = 0.6, pAcc = 0.12, pMag = 0.04, pGyro = 0.04, pOri = 0.05, pBaro = 0.03, pLoc = 0.08, pNmea = 0.04;
  double pGap = 0.02, pUnknown = 0.03, pBadRssi = 0.03, pOffMapFix = 0.2, pLevelHop = 0.03, pPause = 0.02;
  long long maxDt = 120;
  bool nanRssi = false;         // rssi that is no number
  double minDist = 0;           // round-trip-time distances of near devices may come out negative
  double pressStep = 0;         // resolution of the barometer
  double pTwinFix = 0;          // a second fix at the same moment, differing in one value only
  int pw(double) const { return 0; }
};
inline StreamOpt genStreamOpt(Rng& g)
{
  StreamOpt o;
  switch (g.i(0, 5))
  {
    case 0: break;
    case 1: o.pRadio = 1; o.pAcc = o.pMag = o.pGyro = o.pOri = o.pBaro = o.pLoc = o.pNmea = 0; break;
    case 2: o.pRadio = 0.35; o.pAcc = 0.6; o.pMag = o.pGyro = o.pBaro = o.pLoc = o.pNmea = 0; o.maxDt = 50; o.maxLen = 400; break;
    case 3: o.pRadio = 0.4; o.pLoc = 0.4; o.pNmea = 0.1; o.pAcc = 0.05; break;
    case 4: o.pRadio = 0.5; o.pAcc = 0; o.pMag = 0.15; o.pGyro = 0.1; o.pOri = 0.15; o.pLoc = 0.05; break;
    default: o.pRadio = 0.75; o.pLoc = 0; o.pNmea = 0; o.pGap = 0.05; break;
  }
  return o;
}

// a walk over the map's levels, heard, sensed and located
inline std::vector<nc::Measurement> genStream(Rng& g, const Map& m, const StreamOpt& o)
{
  std::vector<nc::Measurement> out;
  long long ts = g.p(0.5) ? 1541003875000LL + g.i(0, 1000000) : g.i(1, 5000);
  size_t li = (size_t)g.i(0, (long long)m.lv.size() - 1);
  double x = g.u() * m.lv[li].W, y = g.u() * m.lv[li].Hh, dir = g.r(0, 6.28), speed = g.r(0, 2);
  bool rest = false; double phase = 0, freq = g.r(1.4, 2.2), amp = g.r(1, 4);
  double press = g.p(0.2) ? g.r(300, 1080) : 1000 + g.r(-20, 20), magScale = g.p(0.2) ? std::exp(g.r(-3, 4)) : 1;
  int n = (int)g.i(o.minLen, o.maxLen);
  std::map<std::string, RType> types;
  std::map<std::string, double> powers;
  double sum = o.pRadio + o.pAcc + o.pMag + o.pGyro + o.pOri + o.pBaro + o.pLoc + o.pNmea;
  for (int k = 0; k < n; ++k)
  {
    long long dt = g.p(0.15) ? 0 : g.i(1, o.maxDt);
    if (g.p(o.pGap)) dt = g.i(300, 3000);
    if (g.p(o.pGap * 0.3)) dt = g.i(3000, 40000);
    if (g.p(o.pGap * 0.02)) dt = g.i(40000, 400000000);      // an hour, a night, a weekend
    ts += dt;
    double t = dt / 1000.0;
    if (g.p(0.05)) { dir = g.r(0, 6.28); speed = g.r(0, 2); }
    if (g.p(0.02)) rest = !rest;
    if (!rest) { x += std::cos(dir) * speed * std::min(t, 3.0); y += std::sin(dir) * speed * std::min(t, 3.0); }
    phase += 6.2832 * freq * t;
    const Lvl* l = &m.lv[li];
    if (g.p(o.pLevelHop)) { li = (size_t)g.i(0, (long long)m.lv.size() - 1); l = &m.lv[li]; press -= 0.4; }
    x = std::min(std::max(x, 0.0), l->W); y = std::min(std::max(y, 0.0), l->Hh);
    double q = g.u() * sum;
    auto take = [&](double p) { if (q < p) return true; q -= p; return false; };
    if (take(o.pRadio))
    {
      if (g.p(o.pUnknown)) { int u = (int)g.i(0, 5); out.push_back(radio(ts, u == 5 ? "unknown" : H::fmt("u%d", u), (RType)((u + n) % 5), g.r(-95, -40), g.r(0, 20))); continue; }
      size_t lj = g.p(0.85) ? li : (size_t)g.i(0, (long long)m.lv.size() - 1);
      const Lvl& L = m.lv[lj];
      const Tx& tx = L.txs[(size_t)g.i(0, (long long)L.txs.size() - 1)];
      double d = std::max(0.3, R::hyp(R::hyp(tx.x - x, tx.y - y), 3.0 * (double)std::llabs((long long)lj - (long long)li)));
      double rssi = tx.A - tx.B * std::log(d) + 3 * g.g();
      rssi = std::min(-15.0 + g.u(), std::max(-99.0 + g.u(), rssi));
      if (g.p(0.01)) rssi = g.r(-16, -0.01);                   // right at the antenna
      if (!types.count(tx.id)) { types[tx.id] = g.p(0.15) ? RType::WIFI_RTT : (RType)(int)g.i(0, 3); powers[tx.id] = g.p(0.6) ? 0 : g.r(-20, 10); }
      if (g.p(o.pBadRssi)) rssi = o.nanRssi && g.p(0.3) ? g.pickd({NAN, -NAN, -INFINITY, INFINITY}) : g.pickd({0, 5, -150, -100, -0.0});
      out.push_back(radio(ts, tx.id, types[tx.id], rssi, std::max(o.minDist, d + g.g() + o.minDist), powers[tx.id]));
    }
    else if (take(o.pAcc))
    {
      double a = rest ? 0.03 * g.g() : amp * std::max(0.0, std::sin(phase)) + 0.1 * g.g();
      out.push_back(sensor(ts, SType::ACCELEROMETER, 0.2 * g.g(), 0.1 * g.g(), 9.81 + a));
    }
    else if (take(o.pMag)) out.push_back(sensor(ts, SType::MAGNETOMETER, magScale * (20 * std::cos(dir) + g.g()), magScale * (20 * std::sin(dir) + g.g()), magScale * (-40 + g.g())));
    else if (take(o.pGyro)) out.push_back(sensor(ts, SType::GYROSCOPE, 0.1 * g.g(), 0.1 * g.g(), 0.5 * g.g()));
    else if (take(o.pOri)) out.push_back(sensor(ts, SType::ORIENTATION, g.r(-4, 4), g.g(), g.g()));
    else if (take(o.pBaro)) out.push_back(sensor(ts, SType::BAROMETER, o.pressStep > 0 ? std::round((press + 0.02 * g.g()) / o.pressStep) * o.pressStep : press + 0.02 * g.g()));
    else if (take(o.pLoc))
    {
      double fx = x + 3 * g.g(), fy = y + 3 * g.g();
      if (g.p(o.pOffMapFix)) { fx += g.r(-200, 200); fy += g.r(-200, 200); }
      out.push_back(sensor(ts, SType::LOCATION, l->lat(fy), l->lon(fx), g.pickd({0, 1, 3, 5, 8, 15, 30}) + g.u() * 0.1));
      if (o.pTwinFix > 0 && g.p(o.pTwinFix))
      {
        auto tw = out.back(); auto& v = boost::get<nc::SensorMeasurementData>(tw.data).values;
        switch (g.i(0, 2)) { case 0: v.x = l->lat(fy + g.r(-5, 5)); break; case 1: v.y = l->lon(fx + g.r(-5, 5)); break; default: v.z += g.r(0.5, 3); }
        out.push_back(tw);
      }
    }
    else out.push_back(nmea(ts, (int)g.i(0, 3), (int)g.pickd({0, 3, 6, 12, 25})));
  }
  return out;
}

inline std::string descr(const nc::Measurement& m)
{
  if (auto* r = boost::get<nc::RadioMeasurementData>(&m.data)) return H::fmt("%lld radio t%d %s %.3f d%.2f", m.ts, (int)r->type, r->id.value.c_str(), r->rssi, r->distance);
  if (auto* s = boost::get<nc::SensorMeasurementData>(&m.data)) return H::fmt("%lld sensor t%d %.6f %.6f %.3f", m.ts, (int)s->type, s->values.x, s->values.y, s->values.z);
  auto& n = boost::get<nc::NmeaMeasurementData>(m.data);
  return H::fmt("%lld nmea %d %d", m.ts, n.sentenceNumber, n.satellitesNumber);
}
inline std::string descr(const nc::NavigationOutput& o)
{
  return H::fmt("st%d lev'%s' %.9f %.9f alt%.4f r%.5f or%.5f pr%d", (int)o.status, o.posLevel.value.c_str(), o.posLatitude, o.posLongitude, o.posAltitude, o.posR, o.posOrientation, (int)o.provider);
}
inline bool sameBits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || a == b || (std::isnan(a) && std::isnan(b)); }
inline bool same(const nc::NavigationOutput& a, const nc::NavigationOutput& b)
{
  return a.status == b.status && a.posLevel == b.posLevel && sameBits(a.posLatitude, b.posLatitude) && sameBits(a.posLongitude, b.posLongitude)
    && sameBits(a.posAltitude, b.posAltitude) && sameBits(a.posR, b.posR) && sameBits(a.posOrientation, b.posOrientation) && a.provider == b.provider;
}
inline bool same(const nc::NavigationState& a, const nc::NavigationState& b)
{
  return a.getStepCounter() == b.getStepCounter() && sameBits(a.getStepLen(), b.getStepLen()) && sameBits(a.getHeading(), b.getHeading())
    && sameBits(a.getIndoorPosition().x, b.getIndoorPosition().x) && sameBits(a.getIndoorPosition().y, b.getIndoorPosition().y)
    && sameBits(a.getOutdoorPosition().x, b.getOutdoorPosition().x) && sameBits(a.getOutdoorPosition().y, b.getOutdoorPosition().y)
    && a.getParticles().size() == b.getParticles().size() && a.getParticleWeights().size() == b.getParticleWeights().size()
    && a.getLevelRadioMeasurements().size() == b.getLevelRadioMeasurements().size()
    && a.getLikelihoodMapPoints().size() == b.getLikelihoodMapPoints().size();
}
inline std::string descr(const nc::NavigationState& s)
{
  return H::fmt("steps %d len %.6f heading %.6f in(%.6f,%.6f) out(%.6f,%.6f)", s.getStepCounter(), s.getStepLen(), s.getHeading(),
    s.getIndoorPosition().x, s.getIndoorPosition().y, s.getOutdoorPosition().x, s.getOutdoorPosition().y);
}

// silences the library's std::cerr/std::clog chatter
struct Quiet
{
  std::streambuf *a, *b;
  Quiet();
  ~Quiet();
};
} // namespace G
#include <iostream>
namespace G {
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };
inline NullBuf& nullBuf() { static NullBuf b; return b; }
inline Quiet::Quiet() : a(std::cerr.rdbuf(&nullBuf())), b(std::clog.rdbuf(&nullBuf())) {}
inline Quiet::~Quiet() { std::cerr.rdbuf(a); std::clog.rdbuf(b); }
}
