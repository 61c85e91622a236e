// Signal buffering, level detection and position estimation, one part per -D.
#include "gen.hpp"
#include "position.h"
#include "measurement_types.h"
#include "measurements/measurement_preprocessor.h"
#include "level_estimator/level_estimator.h"
#include "level_estimator/level_estimator_radiomap.h"
#include "level_estimator/level_estimator_transmitters.h"
#include "position_estimator/position_estimator_zone.h"
#include "position_estimator/position_estimator_knn.h"
#include "position_estimator/position_estimator_outdoor.h"
#include "knn/knn_utils.h"
using namespace H;
using G::CommonSettings;
using G::RType;
using G::SType;
namespace nc = navigine::navigation_core;

static nc::RadioMeasurementsData toNc(const std::vector<R::Sig>& v)
{
  nc::RadioMeasurementsData o;
  for (auto& s : v) { nc::RadioMeasurementData d; d.type = s.type; d.id = nc::TransmitterId(s.id); d.rssi = s.rssi; d.distance = s.dist; d.power = s.power; o.push_back(d); }
  return o;
}

// a set of averaged signals, one per transmitter, from around a place on a level
static std::vector<R::Sig> genSigs(Rng& g, const R::Map& m, double pOther = 0.3, double pUnknown = 0.1)
{
  std::vector<R::Sig> o; std::set<std::string> seen;
  size_t li = (size_t)g.i(0, (long long)m.lv.size() - 1);
  double x = g.u() * m.lv[li].W, y = g.u() * m.lv[li].Hh, pHear = g.r(0.3, 1);
  for (size_t k = 0; k < m.lv.size(); ++k)
    for (auto& t : m.lv[k].txs)
    {
      if (!g.p(k == li ? pHear : pOther) || !seen.insert(t.id).second) continue;
      double d = std::max(0.4, hypot(t.x - x, t.y - y));
      R::Sig s; s.id = t.id; s.type = (RType)(int)g.i(0, 4);
      s.rssi = std::max(-99.0, std::min(-20.0, t.A - t.B * std::log(d) + 2 * g.g() - (k == li ? 0 : 8)));
      s.dist = d; s.power = g.p(0.6) ? 0 : g.r(-20, 10);
      o.push_back(s);
    }
  for (int k = 0; k < 2; ++k) if (g.p(pUnknown)) { R::Sig s; s.id = fmt("?%d", k); s.rssi = g.r(-95, -30); o.push_back(s); }
  g.shuffle(o);
  return o;
}

static uint64_t sigHash(const std::vector<R::Sig>& v) { Hash h; for (auto& s : v) h.s(s.id).d(s.rssi); return h.h; }
static std::string show(const std::vector<R::Sig>& v)
{ std::string o; for (auto& s : v) o += fmt("%s:%.2f ", s.id.c_str(), s.rssi); return o.substr(0, 600); }

#ifdef PART_PRE
// P06, P07: the preprocessor against the buffer model
static void run(long long, Rng& g)
{
  G::MapOpt mo; mo.rps = mo.graph = mo.zones = false; mo.maxTx = 6;
  auto m = G::genMap(g, mo);
  CommonSettings c = G::genSettings(g);
  bool filter = ctx().arg == "filter";
  if (filter)
  {
    c.useTracking = g.p(0.4); c.useUnknownTransmitters = g.p(0.3); c.useClosestAps = false; c.useStops = false;
    c.signalsToUse = (CommonSettings::SignalsToUse)(int)g.i(0, 2); c.measurementType = (CommonSettings::MeasurementType)(g.p(0.7) ? 0 : g.i(1, 2));
    c.sigCutOffRss = g.pickd({-100, -90, -80, -70, -60});
    c.sigAveragingTime = g.pickd({0.001, 0.02}); c.sigWindowShift = 0;
    for (auto& l : m.lv) for (auto& t : l.txs) if (g.p(0.4)) t.type = nc::TransmitterType::LOCATOR;
  }
  else { c.useTracking = false; if (g.p(0.7)) c.measurementType = CommonSettings::MeasurementType::RSSI; if (g.p(0.7)) { c.signalsToUse = CommonSettings::SignalsToUse::BOTH; c.sigCutOffRss = -100; } }
  auto coll = G::collector(m);
  nc::MeasurementsPreprocessor pre(coll, G::settings(m, c));
  R::Radio ref(&m, c);
  G::StreamOpt so = G::genStreamOpt(g);
  so.pRadio = std::max(so.pRadio, 0.7);
  so.minLen = 40; so.maxLen = 150;
  if (filter) { so.pBadRssi = 0.2; so.pUnknown = 0.2; }
  auto st = G::genStream(g, m, so);
  long long lastStep = 0; int rel = 0, acc = 0, rej = 0; bool multi = false;
  Hash hh;
  for (auto& msg : st)
  {
    if (filter)
      if (auto* d = boost::get<nc::RadioMeasurementData>(&msg.data))
      {
        d->type = (RType)(int)g.i(0, 4);
        // sit on both sides of, and exactly on, the limits
        if (g.p(0.1)) d->rssi = c.sigCutOffRss;
        else if (g.p(0.1)) d->rssi = std::nextafter(c.sigCutOffRss, g.p(0.5) ? 0 : -200);
        else if (g.p(0.05)) d->rssi = -1e-12;
      }
    pre.updateMeasurements(msg);
    if (auto* d = boost::get<nc::RadioMeasurementData>(&msg.data)) { (ref.accepts(*d) ? acc : rej)++; ref.add(*d, msg.ts); }
    if (g.p(0.08)) lastStep = g.p(0.2) ? 0 : msg.ts - g.i(0, 500);
    R::Tie tie;
    auto want = ref.extract(lastStep, tie);
    auto got = pre.extractRadioMeasurements(lastStep);
    event();
    CHECK_THAT(pre.getCurrentTs() == msg.ts, "pre:time", "current time %lld after a message at %lld", pre.getCurrentTs(), msg.ts);
    if (ref.any) CHECK_THAT(pre.getLastSignalTs() == ref.lastSignal, "pre:last-signal", "last signal time %lld, a usable signal last came at %lld", pre.getLastSignalTs(), ref.lastSignal);
    if (tie.hit) { skip(); return; }
    std::map<std::string, nc::RadioMeasurementData> gm;
    for (auto& d : got) CHECK_THAT(gm.insert({d.id.value, d}).second, "pre:duplicate", "transmitter %s released twice", d.id.value.c_str());
    if (!want.empty()) { rel++; if (want.size() > 1) multi = true; }
    if (gm.size() != want.size())
    { violation(filter ? "pre:accepted-set" : "pre:released-set", fmt("at %lld: %zu entries released, model has %zu: %s", msg.ts, gm.size(), want.size(), show(want).c_str())); return; }
    for (auto& w : want)
    {
      auto it = gm.find(w.id);
      if (it == gm.end()) { violation(filter ? "pre:accepted-set" : "pre:released-set", fmt("at %lld: %s missing", msg.ts, w.id.c_str())); return; }
      auto& d = it->second;
      hh.s(w.id).d(w.rssi);
      if (!near(d.rssi, w.rssi, 1e-9)) { violation("pre:rssi", fmt("%s at %lld: rssi %.12g, mean %.12g", w.id.c_str(), msg.ts, d.rssi, w.rssi)); return; }
      // an entry's type is that of one of its signals; skip mixtures
      bool mixed = filter;
      if (!mixed && !near(d.distance, w.dist, 1e-9)) { violation("pre:distance", fmt("%s at %lld type %d: distance %.12g, expected %.12g", w.id.c_str(), msg.ts, (int)d.type, d.distance, w.dist)); return; }
      if (!mixed) CHECK_THAT(d.type == w.type && d.power == w.power, "pre:type", "%s: type %d power %g, expected %d %g", w.id.c_str(), (int)d.type, d.power, (int)w.type, w.power);
      event(2);
    }
  }
  if (rel > 1 || (acc && rej)) { distinct(hh.h + (uint64_t)acc * 131 + (uint64_t)rej); note("releases", rel); note("accepted", acc); note("rejected", rej); if (multi) note("cases_with_several_entries"); }
  else note("quiet_cases");
  sample(fmt("%zu messages, %d accepted, %d ignored, %d releases, averaging %.3f s shift %.3f s", st.size(), acc, rej, rel, c.sigAveragingTime, c.sigWindowShift));
}
#endif

#ifdef PART_ZONE
// P08
static void run(long long, Rng& g)
{
  G::MapOpt mo; mo.rps = mo.graph = mo.zones = false; mo.maxTx = 9; mo.minLevels = 1; mo.maxLevels = 4;
  auto m = G::genMap(g, mo);
  CommonSettings c = G::genSettings(g, 0);
  auto coll = G::collector(m);
  nc::PositionEstimatorZone est(coll, G::settings(m, c));
  for (int q = 0; q < 40; ++q)
  {
    auto sig = genSigs(g, m, g.pickd({0, 0.3, 1}));
    if (g.p(0.05)) sig.clear();
    long long ts = g.i(1, 2000000000000LL);
    const auto& L = m.lv[(size_t)g.i(0, (long long)m.lv.size() - 1)];
    R::Tie tie;
    auto w = R::zonePos(L, c, sig, ts, tie);
    if (tie.hit) { skip(); continue; }
    auto in = toNc(sig);
    for (int o = 0; o < 2; ++o)          // order of signals is irrelevant
    {
      auto status = nc::OK;
      auto p = est.calculatePosition(coll->level(nc::LevelId(L.id)), ts, in, nc::MotionInfo(), status);
      event();
      CHECK_THAT(p.isEmpty == w.empty, "zone:presence", "position %s although the level has %s signal: %s", p.isEmpty ? "absent" : "present", w.empty ? "no" : "a", show(sig).c_str());
      CHECK_THAT((status == nc::OK) == !w.empty, "zone:status", "status %d", (int)status);
      if (p.isEmpty || w.empty) continue;
      CHECK_THAT(near(p.x, w.x, 1e-6) && near(p.y, w.y, 1e-6), "zone:place", "at (%.6f,%.6f), strongest transmitter at (%.6f,%.6f): %s", p.x, p.y, w.x, w.y, show(sig).c_str());
      CHECK_THAT(near(p.deviationM, w.dev, 1e-9), "zone:radius", "radius %.12g, model %.12g (A %.3f B %.3f)", p.deviationM, w.dev, L.A, L.B);
      CHECK_THAT(p.levelId.value == w.lev && p.ts == ts && p.provider == nc::Provider::INDOOR, "zone:fields", "level %s ts %lld provider %d", p.levelId.value.c_str(), p.ts, (int)p.provider);
      g.shuffle(in);
    }
    if (sig.size() > 1) distinct(sigHash(sig));
  }
  sample(fmt("%zu levels, %zu transmitters on the first", m.lv.size(), m.lv[0].txs.size()));
}
#endif

#ifdef PART_KNN
// P09
static void run(long long, Rng& g)
{
  G::MapOpt mo; mo.graph = mo.zones = false; mo.maxTx = 9; mo.maxRp = 16; mo.maxLevels = 2;
  auto m = G::genMap(g, mo);
  CommonSettings c = G::genSettings(g, 1);
  c.kNeighbors = (unsigned)g.i(1, 10);
  c.minNumOfMeasurementsForPositionCalculation = (unsigned)g.i(1, 6);
  auto coll = G::collector(m);
  nc::PositionEstimatorKnn est(coll, G::settings(m, c));
  std::map<std::string, std::vector<R::Tri>> tris;
  for (auto& kv : nc::triangulate(coll)) { auto& v = tris[kv.first.value]; for (auto& t : kv.second) v.push_back({t.rp1.value, t.rp2.value, t.rp3.value}); }
  std::map<std::string, bool> hasFp;
  for (auto& l : m.lv) for (auto& r : l.rps) if (!r.fp.empty()) hasFp[l.id] = true;
  R::Knn ref;
  int solved = 0;
  for (int q = 0; q < 25; ++q)
  {
    auto sig = genSigs(g, m, g.pickd({0, 0.5, 1}));
    if (g.p(0.04)) sig.clear();
    const auto& L = m.lv[(size_t)g.i(0, (long long)m.lv.size() - 1)];
    if (!hasFp[L.id]) note("levels_without_fingerprints");
    bool exact = false; const R::Rp* match = nullptr;
    if (g.p(0.15) && !L.rps.empty())
    {
      // measured exactly as recorded at one reference point (or shifted as a whole in difference mode)
      match = &L.rps[(size_t)g.i(0, (long long)L.rps.size() - 1)];
      double off = c.useDiffMode ? g.r(-5, 5) : 0;
      sig.clear();
      for (auto& f : match->fp) { R::Sig s; s.id = f.first; s.rssi = f.second.mean + off; s.type = RType::BEACON; sig.push_back(s); }
      g.shuffle(sig);
      exact = sig.size() >= 3 && sig.size() >= c.minNumOfMeasurementsForPositionCalculation;
    }
    long long ts = g.i(1, 2000000000000LL);
    R::Tie tie; R::Pos w;
    auto ws = ref.step(L, c, sig, ts, tris.count(L.id) ? &tris[L.id] : nullptr, tie, w);
    auto status = nc::OK;
    auto in = toNc(sig);
    auto p = est.calculatePosition(coll->level(nc::LevelId(L.id)), ts, in, nc::MotionInfo(), status);
    event();
    CHECK_THAT((status == nc::OK) == (ws == nc::OK), "knn:status", "status %d, expected %d: %s", (int)status, (int)ws, show(sig).c_str());
    if (ws != nc::OK)
    {
      CHECK_THAT(p.isEmpty == w.empty && (p.isEmpty || (near(p.x, w.x, 1e-6) && near(p.y, w.y, 1e-6) && p.ts == w.ts)), "knn:kept", "without a solution the last position is not kept");
      continue;
    }
    if (status != nc::OK) return;
    // hull of all reference points of the level
    auto wt = R::rpWeights(L, sig, c.useDiffMode);
    bool any = false; double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
    for (auto& r : L.rps) if (wt.count(r.id)) { any = true; x0 = std::min(x0, r.x); x1 = std::max(x1, r.x); y0 = std::min(y0, r.y); y1 = std::max(y1, r.y); }
    if (any && !c.useTriangles) CHECK_THAT(p.x > x0 - 1e-5 && p.x < x1 + 1e-5 && p.y > y0 - 1e-5 && p.y < y1 + 1e-5, "knn:hull", "(%.4f,%.4f) outside the reference points' box [%.4f,%.4f]x[%.4f,%.4f]", p.x, p.y, x0, x1, y0, y1);
    CHECK_THAT(p.levelId.value == L.id && p.ts == ts && !p.isEmpty && p.provider == nc::Provider::INDOOR, "knn:fields", "level %s ts %lld", p.levelId.value.c_str(), p.ts);
    if (!tie.hit)
    {
      CHECK_THAT(near(p.x, w.x, 1e-6) && near(p.y, w.y, 1e-6), "knn:place", "at (%.7f,%.7f), model (%.7f,%.7f); triangles %d diff %d k %u: %s", p.x, p.y, w.x, w.y, (int)c.useTriangles, (int)c.useDiffMode, c.kNeighbors, show(sig).c_str());
      solved++;
      distinct(sigHash(sig));
      // order independence
      g.shuffle(in);
      auto s2 = nc::OK;
      auto p2 = est.calculatePosition(coll->level(nc::LevelId(L.id)), ts, in, nc::MotionInfo(), s2);
      CHECK_THAT(near(p2.x, p.x, 1e-6) && near(p2.y, p.y, 1e-6), "knn:order", "signal order moves the position from (%.6f,%.6f) to (%.6f,%.6f)", p.x, p.y, p2.x, p2.y);
      event(2);
      if (exact && !c.useTriangles && c.kNeighbors == 1)
      {
        double best = wt[match->id]; bool uniq = true;
        for (auto& kv : wt) if (kv.first != match->id && kv.second > 0.99 * best) uniq = false;
        if (uniq) { CHECK_THAT(near(p.x, match->x, 1e-5) && near(p.y, match->y, 1e-5), "knn:match", "signals recorded at (%.3f,%.3f) place the user at (%.3f,%.3f)", match->x, match->y, p.x, p.y); note("exact_matches"); event(); }
      }
    }
    else { skip(); ref.last.x = p.x; ref.last.y = p.y; }
  }
  note("solved", solved); note(c.useTriangles ? "triangle_maps" : "k_maps"); note(c.useDiffMode ? "diff_maps" : "abs_maps");
  sample(fmt("%zu levels, %zu RPs, triangles %d diff %d, %d positions", m.lv.size(), m.lv[0].rps.size(), (int)c.useTriangles, (int)c.useDiffMode, solved));
}
#endif

#ifdef PART_LIKE
#include "likelihood/likelihood_radiomap.h"
// P41
static void run(long long, Rng& g)
{
  G::MapOpt mo; mo.graph = mo.zones = false; mo.maxTx = 9; mo.maxRp = 16; mo.maxLevels = 2;
  auto m = G::genMap(g, mo);
  CommonSettings c = G::genSettings(g, 1);
  c.kNeighbors = (unsigned)g.i(1, 10);
  c.minNumOfMeasurementsForPositionCalculation = (unsigned)g.i(1, 6); c.minMsrNumForMutation = (unsigned)g.i(1, 6);
  auto coll = G::collector(m);
  std::unique_ptr<nc::Likelihood> lk(new nc::LikelihoodRadiomap(coll, G::settings(m, c)));
  std::map<std::string, std::vector<R::Tri>> tris;
  for (auto& kv : nc::triangulate(coll)) { auto& v = tris[kv.first.value]; for (auto& t : kv.second) v.push_back({t.rp1.value, t.rp2.value, t.rp3.value}); }
  std::map<std::string, std::set<std::string>> known;
  for (auto& l : m.lv) for (auto& r : l.rps) for (auto& f : r.fp) known[l.id].insert(f.first);
  int solved = 0, few = 0;
  for (int q = 0; q < 25; ++q)
  {
    auto sig = genSigs(g, m, g.pickd({0, 0.5, 1}));
    if (g.p(0.04)) sig.clear();
    const auto& L = m.lv[(size_t)g.i(0, (long long)m.lv.size() - 1)];
    if (known[L.id].empty()) note("levels_without_fingerprints");
    std::vector<R::Sig> v; for (auto& s : sig) if (known[L.id].count(s.id)) v.push_back(s);
    auto in = toNc(sig); const auto& lev = coll->level(nc::LevelId(L.id));
    bool enough = v.size() >= c.minNumOfMeasurementsForPositionCalculation;
    CHECK_THAT(lk->hasSufficientMeasurementsForUpdate(lev, in) == enough, "likelihood:enough", "%zu known signals of %zu, %u needed", v.size(), sig.size(), c.minNumOfMeasurementsForPositionCalculation);
    CHECK_THAT(lk->hasSufficientMeasurementsForMutation(lev, in) == (v.size() >= c.minMsrNumForMutation), "likelihood:mutation", "%zu known signals of %zu, %u needed", v.size(), sig.size(), c.minMsrNumForMutation);
    // the fingerprint solution
    R::Tie tie; R::P2 at; bool point = enough, zero = false;
    if (enough)
    {
      auto w = R::rpWeights(L, v, c.useDiffMode);
      double tot = 0; for (auto& kv : w) tot += kv.second;
      if (c.useTriangles) { point = tris.count(L.id) && !tris[L.id].empty(); if (point) at = R::triPos(L, tris[L.id], w, tie); }
      else at = R::kHeaviest(L, w, c.kNeighbors, tie);
      zero = tot < 1e-12;
    }
    int n = (int)g.i(1, g.p(0.3) ? 3 : 60); double away = g.p(0.25) ? g.pickd({100, 1000, 10000}) : 0; std::vector<nc::XYParticle> ps; std::vector<double> want; double sum = 0;
    for (int k = 0; k < n; ++k)
    {
      nc::XYParticle p{g.r(-0.2, 1.2) * L.W + away, g.r(-0.2, 1.2) * L.Hh, 0}; if (k && g.p(0.05)) p = ps[0]; if (point && g.p(0.05)) { p.x = at.x; p.y = at.y; }
      ps.push_back(p); double w = enough ? (point ? 1 / (0.1 + hypot(p.x - at.x, p.y - at.y)) : 0) : 1; want.push_back(w); sum += w;
    }
    auto got = lk->calculateWeights(lev, in, ps); event();
    CHECK_THAT(got.size() == ps.size(), "likelihood:size", "%zu weights for %zu particles", got.size(), ps.size());
    double tot = 0; for (double w : got) { CHECK_THAT(w >= 0, "likelihood:negative", "weight %g", w); tot += w; }
    if (!enough || point) CHECK_THAT(std::fabs(tot - 1) < 1e-9, "likelihood:sum", "%zu weights sum to %.12f", got.size(), tot);
    if (tie.hit || zero || got.size() != ps.size()) { skip(); continue; }
    for (size_t k = 0; k < got.size(); ++k)
      if (!near(got[k], sum > 0 ? want[k] / sum : 0, 1e-6)) { violation("likelihood:weight", fmt("particle (%.4f,%.4f): weight %.9f, model %.9f; solution (%.4f,%.4f) of %zu signals", ps[k].x, ps[k].y, got[k], want[k] / sum, at.x, at.y, v.size())); return; }
    if (!enough) { few++; continue; }
    auto cs = lk->calculateSamplingCenters(lev, in); event();
    CHECK_THAT(cs.size() == (point ? 1u : 0u), "likelihood:centres", "%zu centres", cs.size());
    if (cs.size() == 1 && point) CHECK_THAT(near(cs[0].x, at.x, 1e-6) && near(cs[0].y, at.y, 1e-6), "likelihood:centre", "centre (%.6f,%.6f), model (%.6f,%.6f)", cs[0].x, cs[0].y, at.x, at.y);
    if (g.p(0.5)) lk->doPreliminaryCalculations(lev, in);
    double x = g.r(-0.2, 1.2) * L.W, y = g.r(-0.2, 1.2) * L.Hh, w = lk->getWeight(lev, in, x, y);
    CHECK_THAT(near(w, point ? 1 / (0.1 + hypot(x - at.x, y - at.y)) : 0, 1e-6), "likelihood:getWeight", "weight %.9f at (%.4f,%.4f), solution (%.4f,%.4f)", w, x, y, at.x, at.y);
    solved += point; distinct(sigHash(sig));
    // a point is in the intersection when every circle reaches it
    std::vector<R::Sig> own; for (auto s : sig) if (L.tx(s.id)) { s.dist = g.p(0.1) ? 0 : g.r(0.5, 1.6) * hypot(L.tx(s.id)->x - x, L.tx(s.id)->y - y); if (g.p(0.6)) s.dist += 30; own.push_back(s); }
    bool in2 = true, close = false;
    for (auto& s : own) { double d = hypot(L.tx(s.id)->x - x, L.tx(s.id)->y - y); if (s.dist < d) in2 = false; if (std::fabs(s.dist - d) < 1e-5) close = true; }
    if (!close) { CHECK_THAT(nc::isParticleInIntersectionArea(lev, toNc(own), x, y) == in2, "likelihood:intersection", "(%.4f,%.4f) inside every circle: %d", x, y, (int)in2); event(); note(in2 ? "inside" : "outside"); }
  }
  note("solved", solved); note("too_few", few);
  sample(fmt("%zu levels, %zu RPs, triangles %d diff %d, %d solved", m.lv.size(), m.lv[0].rps.size(), (int)c.useTriangles, (int)c.useDiffMode, solved));
}
#endif

#ifdef PART_LEVEL
// P10, P11
static void run(long long, Rng& g)
{
  bool rm = ctx().arg == "radiomap";
  G::MapOpt mo; mo.graph = mo.zones = false; mo.rps = rm; mo.minLevels = g.p(0.9) ? 2 : 1; mo.maxLevels = 5; mo.maxTx = 6; mo.maxRp = 8;
  auto m = G::genMap(g, mo);
  if (rm && g.p(0.2)) for (auto& r : m.lv[0].rps) r.fp.clear();
  // radio maps may hold strengths with or without their sign
  CommonSettings c = G::genSettings(g, 0);
  c.useBarometer = false; c.useRadiomap = rm; c.useBestRefPointLevel = g.p(0.5); c.useTxPower = g.p(0.5);
  if (rm && !c.useBestRefPointLevel && g.p(0.3)) for (auto& l : m.lv) for (auto& r : l.rps) for (auto& f : r.fp) f.second.mean = std::fabs(f.second.mean);
  auto coll = G::collector(m);
  auto st = G::settings(m, c);
  nc::SensorMeasurement sm; sm.ts = 1; sm.data.type = SType::ACCELEROMETER;
  for (int q = 0; q < 25; ++q)
  {
    auto sig = genSigs(g, m, g.pickd({0, 0.3, 0.6, 1}));
    if (g.p(0.05)) sig.clear();
    if (g.p(0.15)) { for (auto& s : sig) s.rssi = g.r(-99, -20); }
    if (g.p(0.03)) for (auto& s : sig) s.rssi *= 30;      // far below any threshold
    R::Tie tie;
    auto want = rm ? R::levelByRadiomap(m, c, sig, tie) : R::levelByTx(m, c, sig, tie);
    if (tie.hit) { skip(); continue; }
    std::unique_ptr<nc::LevelEstimator> e;
    if (rm) e = std::make_unique<nc::LevelEstimatorRadiomap>(coll, st); else e = std::make_unique<nc::LevelEstimatorTransmitters>(coll, st);
    auto in = toNc(sig);
    auto got = e->calculateLevel(in, sm).value;
    event();
    CHECK_THAT(got == want, rm ? (c.useBestRefPointLevel ? "level:best-rp" : "level:radiomap") : "level:transmitters", "level '%s', model '%s' (of %zu levels): %s", got.c_str(), want.c_str(), m.lv.size(), show(sig).c_str());
    if (!sig.empty() && m.lv.size() > 1) { distinct(sigHash(sig)); note(want.empty() ? "none" : "detected"); }
  }
  sample(fmt("%zu levels, useTxPower %d bestRp %d", m.lv.size(), (int)c.useTxPower, (int)c.useBestRefPointLevel));
}
#endif

#ifdef PART_HIST
// P12, P13
struct Scripted : nc::LevelEstimator
{
  nc::LevelId next;
  using nc::LevelEstimator::LevelEstimator;
  nc::LevelId detectCurrentLevel(const nc::RadioMeasurementsData&) override { return next; }
};
static void run(long long, Rng& g)
{
  bool baro = ctx().arg == "barometer";
  nc::NavigationSettings st; st.commonSettings.useBarometer = baro;
  Scripted e(st);
  R::History h; R::Baro b;
  int nl = (int)g.i(1, 5);
  std::vector<std::string> ids; for (int k = 0; k < nl; ++k) ids.push_back(g.p(0.5) ? fmt("%d", k * 3) : fmt("L%d", k));
  int n = (int)g.i(50, baro ? 900 : 300), changes = 0, vetoes = 0;
  double pNone = g.pickd({0, 0.1, 0.5}), pSwitch = g.pickd({0.05, 0.3, 0.6, 1}), press = g.r(950, 1030), drift = 0;
  double pBaro = g.pickd({1, 0.9, 0.5});
  if (baro && g.p(0.05)) press = g.pickd({0, -5});
  std::string cur = ids[0], last; Hash hh;
  nc::SensorMeasurement sm; sm.ts = 1; sm.data.type = SType::ACCELEROMETER;
  double pRepeat = g.pickd({0, 0.3, 0.8}); bool isB = false; double v = 0;
  for (int k = 0; k < n; ++k)
  {
    if (g.p(pSwitch * 0.3)) cur = ids[(size_t)g.i(0, nl - 1)];
    std::string d = g.p(pNone) ? "" : (g.p(pSwitch) ? ids[(size_t)g.i(0, nl - 1)] : cur);
    // other messages come with the latest sensor sample
    if (baro && !g.p(pRepeat))
    {
      if (g.p(0.01)) drift = g.p(0.5) ? 0 : g.r(-0.02, 0.02);
      press += press > 0 ? drift : 0; v = press + 0.01 * g.g(); isB = g.p(pBaro);
      sm.data.type = isB ? SType::BAROMETER : (SType)(int)(g.p(0.5) ? g.i(0, 2) : g.i(4, 5)); sm.data.values = nc::Vector3d(isB ? v : g.r(-50, 2000), 0, 0); sm.ts = k + 1;
    }
    R::Tie tie; tie.tol = 1e-6;
    auto want = h.step(d);
    auto hist = want;
    if (baro) want = b.step(want, isB, v, sm.ts, tie);
    e.next = nc::LevelId(d);
    auto got = e.calculateLevel({}, sm).value;
    event();
    if (tie.hit) { skip(); return; }
    hh.s(d).s(want);
    if (got != want) { violation(baro ? "level:barometer" : "level:history", fmt("step %d: detected '%s', reported '%s', model '%s'", k, d.c_str(), got.c_str(), want.c_str())); return; }
    if (!last.empty() && want != last) changes++;
    if (hist != want) vetoes++;
    last = want;
  }
  note("level_changes", changes); note("vetoed_steps", vetoes);
  if (changes || vetoes) distinct(hh.h);
  sample(fmt("%d steps over %d levels, %d changes, %d vetoed", n, nl, changes, vetoes));
}
#endif

#ifdef PART_GNSS
// P14
static void run(long long, Rng& g)
{
  G::MapOpt mo; mo.rps = mo.graph = mo.zones = false; mo.maxTx = 1; mo.maxLevels = 3;
  auto m = G::genMap(g, mo);
  CommonSettings c = G::genSettings(g);
  c.useGpsSigmaFilter = g.p(0.5); c.useGpsOutsideMap = g.p(0.25);
  auto coll = G::collector(m);
  nc::PositionEstimatorOutdoor est(coll, G::settings(m, c));
  R::Outdoor ref(&m, c);
  long long ts = g.p(0.5) ? 1541003875000LL : g.i(1, 100000);
  nc::SensorMeasurement sm; sm.ts = 0; sm.data.type = SType::ACCELEROMETER; nc::NmeaMeasurement nm; nm.ts = 0; nm.data.sentenceNumber = nm.data.satellitesNumber = 0;
  const auto* L = &m.lv[(size_t)g.i(0, (long long)m.lv.size() - 1)];
  double x = g.u() * L->W, y = g.u() * L->Hh, la = 0, lo = 0, acc = 0; bool fix = false; long long fixTs = 0;
  int ok = 0, no = 0, n = (int)g.i(40, 160); Hash hh; bool indoor = false; double pIndoor = g.pickd({0, 0, 0.1, 0.5}), noise = g.pickd({0.1, 1, 5});
  for (int k = 0; k < n; ++k)
  {
    long long dt = g.p(0.1) ? 0 : g.p(0.1) ? g.i(300, 5000) : g.i(1, 400);
    if (fix && g.p(0.08)) dt = std::max(0LL, fixTs + (long long)(1000 * c.gpsValidTimeWindowSec) - ts + g.i(-1, 1));
    ts += dt;
    if (g.p(0.6))
    {
      if (dt == 0) ts++;                                   // fixes come at times of their own
      x += noise * g.g() * 0.3; y += noise * g.g() * 0.3;
      x = std::min(std::max(x, 0.2), L->W - 0.2); y = std::min(std::max(y, 0.2), L->Hh - 0.2);
      double fx = x + noise * g.g(), fy = y + noise * g.g();
      if (g.p(0.1)) { fx += g.r(-100, 100); fy += g.r(-100, 100); }
      la = L->lat(fy); lo = L->lon(fx); acc = g.pickd({0, 1, 3, 4, 5, 9, 10, 11, 20, 21, 60});
      fix = true; fixTs = ts;
      sm.data.type = SType::LOCATION; sm.data.values = nc::Vector3d(la, lo, acc); sm.ts = ts;
    }
    else if (g.p(0.3)) { fix = false; sm.data.type = (SType)(int)(g.p(0.5) ? g.i(0, 3) : 5); sm.data.values = nc::Vector3d(g.r(-50, 50), g.r(-50, 50), 1); sm.ts = ts; }
    else if (g.p(0.5)) { nm.ts = ts; nm.data.sentenceNumber = (int)g.i(0, 3); nm.data.satellitesNumber = (int)g.pickd({0, 1, 3, 4, 5, 7, 8, 9, 19, 20, 30}); }
    R::Tie tie;
    auto w = ref.step(ts, fix, la, lo, acc, fixTs, nm.data.sentenceNumber, nm.data.satellitesNumber, indoor, tie);
    auto p = est.calculatePosition(ts, sm, nm, indoor);
    event();
    if (tie.hit) { skip(); return; }
    indoor = g.p(pIndoor);
    hh.d(w.x).l(w.empty);
    if (p.isEmpty != w.empty) { violation(w.empty ? "gnss:accepted" : "gnss:rejected", fmt("step %d ts %lld: %s, model says %s (fix %d age %lld ms acc %.2f max %.2f sats %d/%d min %u sigma %d outside %d)", k, ts, p.isEmpty ? "no position" : "position", w.empty ? "none" : "one", (int)fix, ts - fixTs, acc, c.maxGpsDeviation, nm.data.sentenceNumber, nm.data.satellitesNumber, c.minNumSats, (int)c.useGpsSigmaFilter, (int)c.useGpsOutsideMap)); return; }
    if (w.empty) { no++; continue; }
    ok++;
    if (!near(p.x, w.x, 1e-6) || !near(p.y, w.y, 1e-6) || p.levelId.value != w.lev) { violation("gnss:place", fmt("step %d: (%.6f,%.6f) on '%s', model (%.6f,%.6f) on '%s'", k, p.x, p.y, p.levelId.value.c_str(), w.x, w.y, w.lev.c_str())); return; }
    if (!near(p.deviationM, w.dev)) { violation("gnss:radius", fmt("radius %.6f, model %.6f", p.deviationM, w.dev)); return; }
    if (p.ts != w.ts) { violation("gnss:time", fmt("stamped %lld, the fix came at %lld (now %lld)", p.ts, w.ts, ts)); return; }
    CHECK_THAT(p.provider == nc::Provider::GNSS, "gnss:provider", "provider %d", (int)p.provider);
  }
  note("positions", ok); note("none", no);
  if (ok && no) distinct(hh.h);
  sample(fmt("%d messages: %d with a position, %d without; sigma %d outside %d window %.1f s", n, ok, no, (int)c.useGpsSigmaFilter, (int)c.useGpsOutsideMap, c.gpsValidTimeWindowSec));
}
#endif

int main(int argc, char** argv) { G::Quiet q; return runCases(argc, argv, run); }
