// The documented behaviour of a whole navigation session, composed from the stage models of ref.hpp.
#pragma once
#include "gen.hpp"

namespace R {
using nc::NavigationStatus;

// altitude from distances; false: none.  tie.hit: too close to call or badly conditioned
inline bool altitudeOnce(const Lvl& l, const std::vector<Sig>& sig, double& out, Tie& tie)
{
  std::vector<Sig> v;
  for (auto& s : sig) if (l.tx(s.id)) v.push_back(s);
  std::stable_sort(v.begin(), v.end(), [](const Sig& a, const Sig& b) { return a.dist < b.dist; });
  std::set<std::string> bad;
  for (auto& a : v)
  {
    if (bad.count(a.id)) continue;
    const Tx* p = l.tx(a.id);
    for (auto& b : v)
    {
      const Tx* q = l.tx(b.id);
      double d = std::sqrt((p->x - q->x) * (p->x - q->x) + (p->y - q->y) * (p->y - q->y) + (p->alt - q->alt) * (p->alt - q->alt));
      if (a.id == b.id ? a.dist < 0 : tie.gt(d, a.dist + b.dist, 1e-7)) bad.insert(b.id);
    }
  }
  std::vector<Sig> w;
  for (auto& s : v) if (!bad.count(s.id)) w.push_back(s);
  for (size_t k = 1; k < v.size(); ++k) if (v[k].dist == v[k - 1].dist) tie.hit = true;
  if (w.size() < 4) return false;
  // least squares of the linearised sphere equations, the nearest transmitter as the origin
  const Tx* o = l.tx(w[0].id);
  bool flat = true;
  for (auto& s : w) if (std::fabs(l.tx(s.id)->alt - o->alt) > 1e-12) flat = false;
  int k = flat ? 2 : 3;
  long double A[3][4] = {{0}};
  for (size_t q = 1; q < w.size(); ++q)
  {
    const Tx* t = l.tx(w[q].id);
    long double c[3] = {t->x - o->x, t->y - o->y, t->alt - o->alt};
    long double b = ((long double)w[0].dist * w[0].dist - (long double)w[q].dist * w[q].dist + c[0] * c[0] + c[1] * c[1] + c[2] * c[2]) / 2;
    for (int i = 0; i < k; ++i) { for (int j = 0; j < k; ++j) A[i][j] += c[i] * c[j]; A[i][k] += c[i] * b; }
  }
  long double big = 0, small = 1e300L;
  for (int c = 0; c < k; ++c)
  {
    int pv = c; for (int r = c + 1; r < k; ++r) if (fabsl(A[r][c]) > fabsl(A[pv][c])) pv = r;
    for (int j = 0; j <= k; ++j) std::swap(A[pv][j], A[c][j]);
    big = std::max(big, fabsl(A[c][c])); small = std::min(small, fabsl(A[c][c]));
    if (small < 1e-5L * big || small < 1e-9L) { tie.hit = true; return false; }
    for (int r = 0; r < k; ++r) if (r != c) { long double f = A[r][c] / A[c][c]; for (int j = c; j <= k; ++j) A[r][j] -= f * A[c][j]; }
  }
  double x = (double)(A[0][k] / A[0][0]) + o->x, y = (double)(A[1][k] / A[1][1]) + o->y, sum = 0; bool any = false;
  for (auto& s : w)
  {
    const Tx* t = l.tx(s.id);
    double d2 = s.dist * s.dist - (x - t->x) * (x - t->x) - (y - t->y) * (y - t->y);
    if (std::fabs(d2) < 1e-6 * std::max(1.0, s.dist * s.dist) || std::fabs(s.dist) < 1e-4) tie.hit = true;
    if (d2 < 0) continue;
    any = true; sum += (l.altitude + t->alt + std::sqrt(d2)) / s.dist;
  }
  out = sum;
  return any;
}
// as above; a layout whose solution moves when everything is shifted by some 10 nm cannot be compared
inline bool altitude(const Lvl& l, const std::vector<Sig>& sig, double& out, Tie& tie)
{
  bool any = altitudeOnce(l, sig, out, tie);
  if (tie.hit) return any;
  H::Rng g(77);
  for (int k = 0; k < 3; ++k)
  {
    Lvl m = l; std::vector<Sig> s = sig; Tie t; double o = 0;
    for (auto& x : m.txs) { x.x += 1e-8 * g.r(-1, 1); x.y += 1e-8 * g.r(-1, 1); if (k) x.alt += 1e-9 * g.r(-1, 1); }
    for (auto& q : s) q.dist *= 1 + 1e-10 * g.r(-1, 1);
    bool b = altitudeOnce(m, s, o, t);
    if (k && t.hit) continue;             // a flat layout is no longer flat when shifted
    if (b != any || std::fabs(o - out) > 2e-7 * std::max(1.0, std::fabs(out))) { tie.hit = true; break; }
  }
  return any;
}

struct Out
{
  NavigationStatus st = nc::NAVIGATION_ERROR; std::string lev; double x = 0, y = 0, lat = 0, lon = 0, alt = 0, r = 0, az = 0; nc::Provider prov = nc::Provider::NONE;
  bool azKnown = true;       // false: the heading cannot be compared at this moment
  // state
  int steps = 0; double len = 0; P2 in, outp; bool inKnown = false, outKnown = false;
  // what happened, for coverage
  bool indoor = false, outdoor = false, released = false, dropped = false; std::string level;
};

struct Client
{
  const Map* map; CommonSettings c; const std::map<std::string, std::vector<Tri>>* tri;
  Radio radio; History hist; Baro baro; Knn knn; Outdoor gnss; Fusion fus; Post post; Pedo ped; CF cf;
  struct SM { nc::SensorMeasurementData data; long long ts = 0; } sm, lastSm; struct NM { nc::NmeaMeasurementData data; long long ts = 0; } nm;
  int stepCount = 0; bool flagIndoor = false; Pos pos; double posAz = 0;
  std::map<std::string, Knn> knns;
  bool angleLost = false;
  Client(const Map* m, const CommonSettings& s, const std::map<std::string, std::vector<Tri>>* t = nullptr)
    : map(m), c(s), tri(t), radio(m, s), gnss(m, s), fus(s), post(s) { cf.life = c.deviceAzimuthLifetimeSeconds; post.ls.exact = false; }

  Out step(const nc::Measurement& m, Tie& tie)
  {
    Out o; const long long ts = m.ts;
    if (auto* d = boost::get<nc::RadioMeasurementData>(&m.data)) radio.add(*d, ts);
    else if (auto* d = boost::get<nc::SensorMeasurementData>(&m.data)) { sm.data = *d; sm.ts = ts; }
    else { nm.data = boost::get<nc::NmeaMeasurementData>(m.data); nm.ts = ts; }
    // motion: each sample once
    const auto& v = sm.data.values;
    std::vector<Step> steps;
    bool fresh = sm.ts != lastSm.ts || sm.data.type != lastSm.data.type || v.x != lastSm.data.values.x || v.y != lastSm.data.values.y || v.z != lastSm.data.values.z;
    if (fresh)
    {
      lastSm = sm;
      ped.update(sm.data.type == SType::ACCELEROMETER, sm.ts, v.x, v.y, v.z);
      Tie pt; pt.tol = 1e-8; steps = ped.steps(pt); if (pt.hit) tie.hit = true;
      cf.update(sm.data.type, {v.x, v.y, v.z}, sm.ts);
      if (sm.data.type == SType::MAGNETOMETER) angleLost = cf.singular;
    }
    bool azValid = false; double az = 0;
    if (c.useCalculatedAzimuth) { az = cf.magAz; azValid = true; o.azKnown = !angleLost; }
    else if (cf.devValid()) { az = cf.devAz; azValid = true; }
    long long motion = 0;
    if (!steps.empty())
    {
      for (auto& s : steps) o.len += s.len;
      o.len *= c.stepMultiplier; motion = ts; stepCount += (int)steps.size(); o.steps = stepCount;
    }
    auto sig = radio.extract(motion, tie);
    o.released = !sig.empty();
    bool rm = c.useRadiomap || c.useAlgorithm == CommonSettings::UseAlgorithm::KNN;
    std::string lev = rm ? levelByRadiomap(*map, c, sig, tie) : levelByTx(*map, c, sig, tie);
    lev = hist.step(lev);
    if (c.useBarometer) lev = baro.step(lev, sm.data.type == SType::BAROMETER, v.x, sm.ts, tie);
    bool isFix = sm.data.type == SType::LOCATION;
    Pos outdoor = gnss.step(ts, isFix, v.x, v.y, v.z, sm.ts, nm.data.sentenceNumber, nm.data.satellitesNumber, flagIndoor, tie);
    flagIndoor = false;
    long long quiet = ts - radio.lastSignal;
    if (quiet >= 1000 * c.noSignalTimeThreshold) { o.dropped = !lev.empty(); lev.clear(); }
    if (motion > 0 && quiet >= 1000 * c.noActionTimeThreshold && ts - motion >= 1000 * c.noActionTimeThreshold) lev.clear();
    o.level = lev; o.outdoor = !outdoor.empty;
    NavigationStatus st = nc::OK;
    if (const Lvl* l = map->byId(lev))
    {
      Pos in;
      if (c.useAlgorithm == CommonSettings::UseAlgorithm::KNN)
      {
        const std::vector<Tri>* t = nullptr;
        if (tri) { auto it = tri->find(l->id); if (it != tri->end()) t = &it->second; }
        st = knn.step(*l, c, sig, ts, t, tie, in);
      }
      else { in = zonePos(*l, c, sig, ts, tie); st = in.empty ? nc::NO_SOLUTION : nc::OK; }
      if (!in.empty) flagIndoor = true;
      o.indoor = !in.empty;
      Pos f = fus.step(ts, in, outdoor, st == nc::OK, tie);
      const Lvl* fl = map->byId(f.lev); if (!fl) fl = l;
      pos = post.step(f, ts, motion, *fl, fus.in.dev, tie);
      if (!pos.empty && (centTie(post.rawX) || centTie(post.rawY))) tie.hit = true;
      if (!azValid) { az = PI / 2; o.azKnown = true; }
      if (c.useEnuAzimuth) az = -az + PI / 2;
    }
    else if (!outdoor.empty) pos = outdoor;
    else st = nc::NO_LEVEL;
    o.in = {fus.in.x, fus.in.y}; o.outp = {fus.out.x, fus.out.y}; o.inKnown = !fus.in.empty; o.outKnown = !fus.out.empty;
    if (pos.empty) { o.st = st == nc::OK ? nc::NAVIGATION_ERROR : st; return o; }
    o.st = nc::OK; o.lev = pos.lev; o.x = pos.x; o.y = pos.y;
    if (const Lvl* l = map->byId(pos.lev))
    {
      o.lat = l->lat(pos.y); o.lon = l->lon(pos.x);
      if (c.useAltitude) { double a; if (altitude(*l, sig, a, tie)) o.alt = a; }
    }
    o.r = pos.dev; o.prov = pos.prov; o.az = wrap(az);
    return o;
  }
};
} // namespace R
