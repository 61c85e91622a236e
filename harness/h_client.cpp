// Whole sessions through the public interface against the composed model.  arg: the property in focus.
#include "ref_client.hpp"
#ifdef WITH_TRI
#include "knn/knn_utils.h"
#endif
using namespace H;
using G::CommonSettings; using G::RType; using G::SType;
namespace nc = navigine::navigation_core;
using U = CommonSettings::UseAlgorithm;

static std::string focus;
static bool is(const char* p) { return focus == p; }

// only what the focus is about stays switched on
static void plain(CommonSettings& c)
{
  c.useAlgorithm = U::ZONES; c.useRadiomap = c.useStops = c.useTracking = c.useBarometer = c.useUnknownTransmitters = c.useClosestAps = false;
  c.sigCutOffRss = -100; c.sigAveragingTime = 1; c.sigWindowShift = 0; c.signalsToUse = CommonSettings::SignalsToUse::BOTH;
  c.measurementType = CommonSettings::MeasurementType::RSSI; c.useSmoothing = c.useGraphProjection = c.useTimeSmoothing = c.useAltitude = false;
  c.useGps = c.useInstantGpsPosition = c.preferIndoorSolution = c.fuseGps = c.useGpsSigmaFilter = false; c.useCalculatedAzimuth = c.useEnuAzimuth = false;
  c.noSignalTimeThreshold = 35; c.deadReckoningTime = 20; c.useTxPower = false;
}
static void tune(Rng& g, CommonSettings& c, G::StreamOpt& o, G::MapOpt& mo)
{
  CommonSettings r = c;                 // the random one
  if (is("P42") || is("tri"))
  {
    if (is("tri")) { c.useAlgorithm = U::KNN; c.useTriangles = true; mo.maxRp = 24; c.minNumOfMeasurementsForPositionCalculation = (unsigned)g.i(1, 3); }
#ifndef WITH_TRI
    c.useTriangles = false;
#endif
    return;
  }
  plain(c);
  c.useTriangles = false;
  mo.holes = false;
  G::StreamOpt radio; radio.pAcc = radio.pMag = radio.pGyro = radio.pOri = radio.pBaro = radio.pLoc = radio.pNmea = 0; radio.pRadio = 1;
  bool keepStream = false;
  if (is("P06")) { c.useUnknownTransmitters = r.useUnknownTransmitters; c.sigCutOffRss = r.sigCutOffRss; c.signalsToUse = r.signalsToUse; c.measurementType = r.measurementType; c.useTracking = g.p(0.2); radio.pUnknown = 0.1; radio.pBadRssi = 0.12; radio.nanRssi = c.measurementType == CommonSettings::MeasurementType::RSSI; c.noSignalTimeThreshold = (long long)g.pickd({1, 3, 35}); c.sigAveragingTime = g.pickd({0.5, 1}); }
  else if (is("P07")) { c.sigAveragingTime = r.sigAveragingTime; c.sigWindowShift = r.sigWindowShift; c.useClosestAps = r.useClosestAps; c.numClosestAps = r.numClosestAps; c.useStops = g.p(0.3); c.stopDetectionTime = r.stopDetectionTime; c.wiFiRttOffset = r.wiFiRttOffset; c.measurementType = r.measurementType; c.useAltitude = g.p(0.5); mo.maxTx = 12; radio.minDist = g.p(0.4) ? -2 : 0; if (c.useStops) { radio.pAcc = 1; radio.pRadio = 0.6; radio.maxLen = 500; radio.maxDt = 60; } }
  else if (is("P08")) { radio.pLevelHop = 0.06; mo.maxTx = 6; }
  else if (is("P09")) { c.useAlgorithm = U::KNN; c.kNeighbors = r.kNeighbors; c.useDiffMode = r.useDiffMode; c.minNumOfMeasurementsForPositionCalculation = (unsigned)g.i(1, 4); mo.maxRp = 20; radio.pUnknown = 0.01; }
  else if (is("P10")) { c.useTxPower = r.useTxPower; mo.minLevels = 2; mo.maxLevels = 5; radio.pLevelHop = 0.05; radio.maxLen = 500; c.sigAveragingTime = 0.5; }
  else if (is("P11")) { c.useRadiomap = true; c.useBestRefPointLevel = r.useBestRefPointLevel; mo.minLevels = 2; mo.maxLevels = 5; radio.pLevelHop = 0.05; radio.maxLen = 500; c.sigAveragingTime = 0.5; }
  else if (is("P12")) { mo.minLevels = 2; mo.maxLevels = 4; radio.pLevelHop = g.pickd({0.02, 0.1, 0.3}); radio.maxLen = 900; radio.minLen = 300; c.sigAveragingTime = g.pickd({0.3, 0.5}); radio.maxDt = 100; }
  else if (is("P13")) { c.useBarometer = true; mo.minLevels = 2; mo.maxLevels = 3; radio.pBaro = 1; radio.pRadio = 1; radio.pAcc = g.p(0.5) ? 0.3 : 0; radio.pLevelHop = g.pickd({0.01, 0.03}); radio.minLen = 600; radio.maxLen = 1400; c.sigAveragingTime = 0.3; radio.maxDt = 60; radio.pGap = 0.002; radio.pressStep = g.pickd({0, 0.01, 0.1}); }
  else if (is("P14") || is("P15"))
  {
    c.useGps = true; c.useGpsOutsideMap = r.useGpsOutsideMap; c.useGpsSigmaFilter = r.useGpsSigmaFilter; c.sigmaFilterWindow = r.sigmaFilterWindow; c.sigmaFilterDelta = r.sigmaFilterDelta;
    c.minNumSats = r.minNumSats; c.minGpsDeviation = r.minGpsDeviation; c.maxGpsDeviation = r.maxGpsDeviation; c.gpsValidTimeWindowSec = r.gpsValidTimeWindowSec;
    radio.pLoc = 1; radio.pTwinFix = g.p(0.3) ? 0.2 : 0; radio.pNmea = 0.2; radio.pRadio = is("P15") ? 1.5 : 0.4; radio.pAcc = g.p(0.5) ? 0.3 : 0; c.noSignalTimeThreshold = (long long)g.pickd({1, 3, 35});
    if (is("P15")) { c.useInstantGpsPosition = g.p(0.15); c.preferIndoorSolution = g.p(0.25); c.fuseGps = g.p(0.6); c.useGps = g.p(0.85); c.fuseGpsBorderM = r.fuseGpsBorderM; c.priorDeviation = r.priorDeviation; c.positionIsTooOldSec = r.positionIsTooOldSec; c.averageMovSpeed = r.averageMovSpeed; c.useGpsSigmaFilter = false; c.maxGpsDeviation = std::numeric_limits<double>::infinity(); radio.pOffMapFix = 0.05; }
  }
  else if (is("P16")) { c.useSmoothing = c.useAbFilter = true; c.smoothing = r.smoothing; c.useAccuracyForSmoothing = r.useAccuracyForSmoothing; c.useSpeedConstraint = r.useSpeedConstraint; c.useBarriers = g.p(0.5); mo.holes = true; mo.onWalls = g.p(0.4) ? g.pickd({0.3, 0.8}) : 0; c.sigAveragingTime = g.pickd({0.5, 1, 2}); }
  else if (is("P17")) { c.useSmoothing = true; c.useAbFilter = false; c.smoothing = g.r(0, 1); c.sigAveragingTime = g.pickd({2, 5}); c.sigWindowShift = g.pickd({0.3, 1}); }
  else if (is("P18")) { c.useTimeSmoothing = true; c.sigAveragingTime = g.pickd({0.5, 1, 2}); radio.pAcc = 1; radio.pRadio = 1; }
  else if (is("P19")) { c.deadReckoningTime = r.deadReckoningTime; radio.pAcc = 0.5; radio.pGap = 0.05; c.useGps = g.p(0.5); radio.pLoc = c.useGps ? 0.3 : 0; }
  else if (is("P20")) { c.useStops = true; c.stopDetectionTime = r.stopDetectionTime; c.stopUpdateTime = r.stopUpdateTime; c.useStopsDistanceThresholdM = r.useStopsDistanceThresholdM; radio.pAcc = 1.5; radio.maxDt = 50; radio.minLen = 300; radio.maxLen = 900; c.sigAveragingTime = 0.5; c.useSmoothing = g.p(0.5); c.useAbFilter = true; }
  else if (is("P21")) { c.useGraphProjection = true; c.graphProjDist = g.pickd({0.5, 2, 5, 20, 1000}); }
  else if (is("P27")) { radio.pAcc = 4; radio.pMag = radio.pOri = radio.pGyro = g.p(0.5) ? 0.2 : 0; radio.maxDt = 50; radio.minLen = 300; radio.maxLen = 900; c.stepMultiplier = r.stepMultiplier; }
  else if (is("P28") || is("P39")) { c.useCalculatedAzimuth = is("P28") || g.p(0.3); c.useEnuAzimuth = r.useEnuAzimuth; c.deviceAzimuthLifetimeSeconds = r.deviceAzimuthLifetimeSeconds; radio.pAcc = 0.7; radio.pMag = 0.4; radio.pGyro = g.p(0.6) ? 0.3 : 0; radio.pOri = g.pickd({0.02, 0.2}); radio.pLoc = g.p(0.5) ? 0.3 : 0; radio.pGap = 0.04; c.noSignalTimeThreshold = (long long)g.pickd({1, 3, 35}); }
  else if (is("P30")) { c.useAltitude = true; mo.maxTx = 14; c.wiFiRttOffset = r.wiFiRttOffset; c.measurementType = r.measurementType; c.useClosestAps = g.p(0.2); c.numClosestAps = (unsigned)g.i(3, 7); c.sigAveragingTime = g.pickd({1, 2, 3}); radio.pUnknown = 0;
    if (g.p(0.5))   // the reported position and the detected level apart
    {
      mo.minLevels = 2; mo.sameBox = g.p(0.6); radio.pLevelHop = g.pickd({0.03, 0.08}); c.sigAveragingTime = g.pickd({1, 3, 5}); c.sigWindowShift = 0;
      if (g.p(0.6)) { c.useGps = true; radio.pLoc = g.pickd({0.1, 0.4}); radio.pOffMapFix = 0.05; c.preferIndoorSolution = g.p(0.3); c.fuseGps = g.p(0.5); c.gpsValidTimeWindowSec = 3; }
      if (g.p(0.3)) { c.useAlgorithm = U::KNN; c.minNumOfMeasurementsForPositionCalculation = (unsigned)g.i(2, 6); c.deadReckoningTime = 20; }
      if (g.p(0.3)) { c.useTimeSmoothing = true; radio.pAcc = 0.3; }
    } }
  else if (is("P38")) { c.noSignalTimeThreshold = (long long)g.pickd({1, 3, 10, 10, 3000000, 1e9, 1e12}); c.noActionTimeThreshold = g.p(0.2) ? 1000000000000LL : (long long)g.pickd({0, 1, 3, 20}); c.useGps = g.p(0.7); radio.pLoc = 0.4; radio.pAcc = g.pickd({0.4, 0.4, 3}); radio.pGap = 0.08; c.deadReckoningTime = r.deadReckoningTime; c.useAlgorithm = g.p(0.4) ? U::KNN : U::ZONES;
#ifdef WITH_TRI
    c.useTriangles = g.p(0.4);
#endif
    c.minNumOfMeasurementsForPositionCalculation = (unsigned)g.i(1, 6); c.positionIsTooOldSec = r.positionIsTooOldSec; c.useGpsOutsideMap = r.useGpsOutsideMap; c.maxGpsDeviation = r.maxGpsDeviation; c.gpsValidTimeWindowSec = r.gpsValidTimeWindowSec; radio.pUnknown = g.pickd({0.03, 0.4}); }
  else keepStream = true;
  if (!keepStream) o = radio;
}

static void run(long long, Rng& g)
{
  CommonSettings c = G::genSettings(g);
  G::MapOpt mo; mo.maxLevels = 3;
  auto o = G::genStreamOpt(g);
  tune(g, c, o, mo);
#ifndef WITH_ALT
  c.useAltitude = false;
#endif
  auto m = G::genMap(g, mo);
  auto coll = G::collector(m);
  auto stream = G::genStream(g, m, o);
  auto client = nc::createNavigationClient(coll, G::settings(m, c));
  const std::map<std::string, std::vector<R::Tri>>* tp = nullptr;
#ifdef WITH_TRI
  std::map<std::string, std::vector<R::Tri>> tris;
  if (c.useAlgorithm == U::KNN && c.useTriangles)
  {
    for (auto& kv : nc::triangulate(coll)) for (auto& t : kv.second) { tris[kv.first.value].push_back({t.rp1.value, t.rp2.value, t.rp3.value}); }
    for (auto& kv : nc::triangulate(coll)) tris[kv.first.value];
    tp = &tris;
  }
#endif
  R::Client ref(&m, c, tp);
  int indoor = 0, outdoor = 0, positions = 0, none = 0, drops = 0, levelMoves = 0, steps = 0, alts = 0, fused = 0, ignored = 0, rel = 0, azs = 0; Hash hh; std::string lastLev; std::set<int> sts; double lx = 1e9;
  int moves = 0;
  for (size_t k = 0; k < stream.size(); ++k)
  {
    const auto& in = stream[k];
    R::Tie tie; tie.tol = 1e-8;
    auto* rd = boost::get<nc::RadioMeasurementData>(&in.data);
    if (rd && !ref.radio.accepts(*rd)) ignored++;
    auto w = ref.step(in, tie);
    auto got = client->navigate({in});
    auto st = client->getStates();
    event();
    if (got.size() != 1 || st.size() != 1) { violation("session:count", fmt("%zu outputs and %zu states for one message", got.size(), st.size())); return; }
    if (tie.hit) { note("histories_cut_at_a_tie"); skip(); break; }
    const auto& q = got[0]; const auto& s = st[0];
    auto where = [&]() { return fmt("message %zu (%s): %s, model st%d '%s' %.9f %.9f alt%.4f r%.5f or%.5f pr%d (level '%s' indoor %d outdoor %d)", k, G::descr(in).c_str(), G::descr(q).c_str(),
      (int)w.st, w.lev.c_str(), w.lat, w.lon, w.alt, w.r, w.az, (int)w.prov, w.level.c_str(), (int)w.indoor, (int)w.outdoor); };
    if (q.status != w.st) { violation("session:status", where()); return; }
    if (q.posLevel.value != w.lev) { violation("session:level", where()); return; }
    if (std::fabs(q.posLatitude - w.lat) * R::metersPerLat() > 1e-3 || std::fabs(R::normLon(q.posLongitude - w.lon)) * R::metersPerLat() > 1e-3) { violation("session:place", where()); return; }
    if (!near(q.posR, w.r, 1e-6)) { violation("session:radius", where()); return; }
    if (q.provider != w.prov) { violation("session:provider", where()); return; }
    if (w.azKnown && std::fabs(R::wrap(q.posOrientation - w.az)) > 1e-5) { violation("session:heading", where()); return; }
    if (!near(q.posAltitude, w.alt, 1e-4)) { violation("session:altitude", where()); return; }
    if (s.getStepCounter() != w.steps) { violation("session:steps", fmt("%d steps, model %d; ", s.getStepCounter(), w.steps) + where()); return; }
    if (!near(s.getStepLen(), w.len, 1e-6)) { violation("session:step-length", fmt("length %.9f, model %.9f; ", s.getStepLen(), w.len) + where()); return; }
    auto ip = s.getIndoorPosition(), op = s.getOutdoorPosition();
    if (!near(ip.x, w.in.x, 1e-6) || !near(ip.y, w.in.y, 1e-6)) { violation("session:indoor-state", fmt("(%.6f,%.6f), model (%.6f,%.6f); ", ip.x, ip.y, w.in.x, w.in.y) + where()); return; }
    if (!near(op.x, w.outp.x, 1e-5) || !near(op.y, w.outp.y, 1e-5)) { violation("session:outdoor-state", fmt("(%.6f,%.6f), model (%.6f,%.6f); ", op.x, op.y, w.outp.x, w.outp.y) + where()); return; }
    indoor += w.indoor; outdoor += w.outdoor; drops += w.dropped; steps += w.len > 0; rel += w.released; alts += q.posAltitude != 0; fused += q.provider == nc::Provider::FUSED;
    sts.insert((int)q.status);
    if (q.status == nc::OK) { positions++; if (!lastLev.empty() && lastLev != w.lev) levelMoves++; lastLev = w.lev; if (w.x != lx) moves++; lx = w.x; if (std::fabs(w.az) > 1e-6) azs++; } else none++;
    hh.d(q.posLatitude).d(q.posLongitude).l(q.status).d(q.posOrientation);
  }
  note("messages", positions + none); note("positions", positions); note("indoor", indoor); note("outdoor", outdoor); note("fused", fused); note("level_changes", levelMoves);
  note("messages_without_position", none); note("level_drops", drops); note("steps", steps); note("altitudes", alts); note("ignored_signals", ignored); note("releases", rel); note("position_changes", moves); note("headings", azs);
  for (int v : sts) note(fmt("histories_with_status_%d", v));
  bool good = positions > 0;
  if (is("P06")) good = ignored > 0 && positions > 0;
  if (is("P12") || is("P13")) good = levelMoves > 0;
  if (is("P14")) good = outdoor > 0;
  if (is("P15")) good = outdoor > 0 && indoor > 0;
  if (is("P27")) good = steps > 0;
  if (is("P30")) good = alts > 0;
  if (is("P38")) good = positions > 0 && none > 0;
  if (is("P42")) good = moves > 1;
  if (good) distinct(hh.h);
  sample(fmt("%zu messages: %d positions (%d moves), %d indoor, %d outdoor, %d fused, %d level changes, %d steps, %d ignored signals", stream.size(), positions, moves, indoor, outdoor, fused, levelMoves, steps, ignored));
}

int main(int argc, char** argv)
{
  G::Quiet q; parseArgs(argc, argv); focus = ctx().arg;
  return runCases(argc, argv, run);
}
