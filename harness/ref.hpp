// Reference models ("trace specifications") of the navigation pipeline, written from its documented
// behaviour with plain data structures; the monitors compare the real code's observable results with them.
// Every floating-point decision records how close it was to a tie (Tie), so that a monitor can stop
// comparing a history once rounding could legitimately decide it either way.
#pragma once
#include "common.hpp"
#include "ref_motion.hpp"
#include <algorithm>
#include <deque>
#include <memory>
#include <navigine/navigation-core/navigation_input.h>
#include <navigine/navigation-core/navigation_settings.h>
#include <navigine/navigation-core/navigation_output.h>

namespace R {
namespace nc = navigine::navigation_core;
using nc::CommonSettings;
using RType = nc::RadioMeasurementData::Type;
using SType = nc::SensorMeasurementData::Type;

inline double metersPerLat() { return 40008000.0 / 360.0; }
inline double metersPerLon(double bindLat) { return 40075160.0 * std::cos(bindLat * PI / 180.0) / 360.0; }
inline double normLon(double l) { while (l > 180) l -= 360; while (l <= -180) l += 360; return l; }

// ---------------------------------------------------------------- maps
struct Tx { std::string id; nc::TransmitterType type = nc::TransmitterType::BEACON; double x = 0, y = 0, alt = 0, A = -70, B = 3, power = 0; };
struct Stat { double mean = 0, var = 0; size_t n = 1; };
struct Rp { std::string id; double x = 0, y = 0; std::map<std::string, Stat> fp; };
struct Ring { std::vector<P2> pts; };               // local metres
struct Zone { Ring outer; std::vector<Ring> holes; };
struct Lvl
{
  std::string id;
  double bindLat = 0, bindLon = 0, W = 50, Hh = 40, altitude = 0;  // box is [0,W]x[0,Hh] in local metres about the binding
  std::vector<Zone> zones;
  std::vector<Tx> txs;
  std::vector<Rp> rps;
  std::vector<P2> gv;
  std::vector<std::pair<int, int>> ge;
  double A = -82, B = 3;                              // level settings
  double lat(double y) const { return bindLat + y / metersPerLat(); }
  double lon(double x) const { return normLon(bindLon + x / metersPerLon(bindLat)); }
  P2 local(double la, double lo) const { return { normLon(lo - bindLon) * metersPerLon(bindLat), (la - bindLat) * metersPerLat() }; }
  const Tx* tx(const std::string& i) const { for (auto& t : txs) if (t.id == i) return &t; return nullptr; }
};
struct Map
{
  std::vector<Lvl> lv;
  const Lvl* byId(const std::string& i) const { for (auto& l : lv) if (l.id == i) return &l; return nullptr; }
  const Lvl* levelOfTx(const std::string& i) const { for (auto& l : lv) if (l.tx(i)) return &l; return nullptr; }
};

// ---------------------------------------------------------------- radio
struct Sig { std::string id; RType type = RType::BEACON; double rssi = 0, dist = 0, power = 0; long long ts = 0; };

struct Radio
{
  const Map* map; CommonSettings c;
  std::vector<Sig> buf;
  long long lastExtract = 0, bufTs = 0, lastStep = 0, lastSignal = 0;
  bool any = false;
  Radio(const Map* m, const CommonSettings& s) : map(m), c(s) {}
  bool accepts(const nc::RadioMeasurementData& d) const
  {
    bool wifi = d.type == RType::WIFI || d.type == RType::WIFI_RTT;
    if (wifi && c.signalsToUse == CommonSettings::SignalsToUse::BLE) return false;
    if (!wifi && c.signalsToUse == CommonSettings::SignalsToUse::WIFI) return false;
    if (c.measurementType == CommonSettings::MeasurementType::RSSI)
    { if (!(d.rssi < 0.0 && d.rssi > c.sigCutOffRss)) return false; }
    else if (d.type != RType::WIFI_RTT) return false;
    if (c.useUnknownTransmitters) return true;
    const Lvl* l = map->levelOfTx(d.id.value);
    if (!l) return false;
    bool locator = l->tx(d.id.value)->type == nc::TransmitterType::LOCATOR;
    return locator == c.useTracking;
  }
  void add(const nc::RadioMeasurementData& d, long long ts)
  {
    if (!accepts(d)) return;
    if (bufTs == 0) { bufTs = ts; lastExtract = ts; }
    buf.push_back({d.id.value, d.type, d.rssi, d.distance, d.power, ts});
    bufTs = ts; lastSignal = ts; any = true;
  }
  std::vector<Sig> extract(long long stepTs, Tie& tie)
  {
    if (stepTs > 0) lastStep = stepTs;
    long long avg = (long long)(1000 * c.sigAveragingTime), shift = (long long)(1000 * c.sigWindowShift);
    if (shift == 0 || shift > avg) shift = avg;
    std::vector<Sig> out;
    if (bufTs - lastExtract < shift) return out;
    lastExtract = bufTs;
    std::map<std::string, std::pair<Sig, int>> acc;
    for (auto& s : buf)
    {
      auto it = acc.find(s.id);
      if (it == acc.end()) acc[s.id] = {s, 1};
      else { it->second.first.rssi += s.rssi; it->second.first.dist += s.dist; it->second.second++; }
    }
    for (auto& kv : acc)
    { Sig s = kv.second.first; s.rssi /= kv.second.second; s.dist /= kv.second.second; out.push_back(s); }
    bool still = c.useStops && lastStep > 0 && bufTs - lastStep > (long long)(1000 * c.stopDetectionTime);
    if (!still)
    {
      long long keep = avg - shift;
      if (keep == 0) buf.clear();
      else
      {
        std::vector<Sig> kept;
        for (auto& s : buf) if (s.ts >= bufTs - keep) kept.push_back(s);
        buf = kept;
      }
    }
    if (c.useClosestAps && out.size() > c.numClosestAps)
    {
      std::sort(out.begin(), out.end(), [](const Sig& a, const Sig& b) { return a.rssi > b.rssi; });
      if (c.numClosestAps > 0) tie.lt(out[c.numClosestAps].rssi, out[c.numClosestAps - 1].rssi);
      out.resize(c.numClosestAps);
    }
    for (auto& s : out)
    {
      if (s.type == RType::WIFI_RTT) s.dist -= c.wiFiRttOffset;
      else if (const Lvl* l = map->levelOfTx(s.id)) { const Tx* t = l->tx(s.id); s.dist = std::exp((t->A - s.rssi) / t->B); }
    }
    return out;
  }
};

// ---------------------------------------------------------------- levels
inline std::string levelByTx(const Map& m, const CommonSettings& c, const std::vector<Sig>& sig, Tie& tie)
{
  std::string best; double bs = -1000.0;
  for (auto& l : m.lv)
  {
    double r = 0, a = 0; int n = 0;
    for (auto& s : sig) if (const Tx* t = l.tx(s.id)) { r += s.rssi; a += t->A; n++; }
    if (!n) continue;
    double sc = (r / n + (c.useTxPower ? a / n : 0.0)) / (1.0 + 0.1 * n / (double)sig.size());
    if (tie.gt(sc, bs)) { bs = sc; best = l.id; }
  }
  return best;
}

// Weights of reference points; larger is better.  Absent: fewer than three common transmitters.
inline std::map<std::string, double> rpWeights(const Lvl& l, const std::vector<Sig>& sig, bool diff)
{
  // share of trust of each transmitter among the signals
  std::map<std::string, double> trust; double sum = 0;
  for (auto& s : sig)
  {
    double p0 = s.power < 0.00001 ? -10.0 : s.power;
    double d = std::pow(10.0, (p0 - s.rssi) / 30.0);
    trust[s.id] = std::pow(d, -1.8); sum += trust[s.id];
  }
  std::map<std::string, double> out;
  for (auto& rp : l.rps)
  {
    struct Pr { double t, m, db; };
    std::vector<Pr> v;
    for (auto& s : sig) { auto it = rp.fp.find(s.id); if (it != rp.fp.end()) v.push_back({trust[s.id] / sum, s.rssi, it->second.mean}); }
    if (v.size() < 3) continue;
    double pen = 0, nrm = 0;
    for (size_t i = 0; i < v.size(); ++i)
    {
      if (diff) for (size_t j = 0; j < i; ++j)
      { double w = v[i].t * v[j].t; nrm += w; pen += std::max(1e-6, w * std::fabs((v[i].db - v[j].db) - (v[i].m - v[j].m))); }
      else { nrm += v[i].t; pen += std::max(1e-6, v[i].t * std::fabs(std::fabs(v[i].db) - std::fabs(v[i].m))); }
    }
    if (nrm > 1e-8) pen /= nrm;
    out[rp.id] = v.size() / std::sqrt(pen);
  }
  return out;
}

inline std::string levelByRadiomap(const Map& m, const CommonSettings& c, const std::vector<Sig>& sig, Tie& tie)
{
  std::string best; double bw = 0;
  for (auto& l : m.lv)
  {
    double w = 0;
    if (c.useBestRefPointLevel)
    { for (auto& kv : rpWeights(l, sig, true)) w = std::max(w, kv.second); }
    else
    {
      int known = 0;
      for (auto& s : sig)
      {
        double q = 0; int n = 0;
        for (auto& rp : l.rps) { auto it = rp.fp.find(s.id); if (it == rp.fp.end()) continue; q += 1.0 / (std::fabs(std::fabs(s.rssi) - std::fabs(it->second.mean)) + 0.1); n++; }
        if (n) { w += q / n; known++; }
      }
      w *= known;
    }
    if (w > 0 && tie.gt(w, bw)) { bw = w; best = l.id; }
  }
  return best;
}

struct History
{
  std::string cur; std::map<std::string, int> cnt; bool init = false;
  std::string step(const std::string& d)
  {
    if (d.empty()) return cur;
    if (!init) { init = true; cur = d; }
    if (++cnt[d] >= 5) { cnt.clear(); cnt[d] = 4; cur = d; }
    return cur;
  }
};

struct Baro
{
  bool first = true; std::deque<double> nw, old; std::string last; long long rts = -1; double rv = 0;
  std::string step(const std::string& lev, bool isBaro, double v, long long ts, Tie& tie)
  {
    if (first) { first = false; return lev; }
    if (isBaro && (ts != rts || v != rv))
    {
      rts = ts; rv = v;
      if (old.size() > 100) old.pop_front();
      if (nw.size() > 100) { old.push_back(nw.front()); nw.pop_front(); }
      nw.push_back(v);
    }
    if (nw.size() > 100 && old.size() >= 100)
    {
      if (last != lev)
      {
        double a = 0, b = 0; for (double x : nw) a += x; for (double x : old) b += x;
        a /= nw.size(); b /= old.size();
        if (a > 2.3e-16 && b > 2.3e-16)
        {
          double dh = std::fabs(8.31 * 288.0 / (9.8 * 0.0289) * std::log(a / b));
          if (tie.gt(dh, 2.0)) last = lev;
        }
      }
    }
    else last = lev;
    return last;
  }
};

// ---------------------------------------------------------------- positions
struct Pos
{
  double x = 0, y = 0, dev = 0; std::string lev; long long ts = 0; bool empty = true; nc::Provider prov = nc::Provider::NONE;
};

inline Pos zonePos(const Lvl& l, const CommonSettings&, const std::vector<Sig>& sig, long long ts, Tie& tie)
{
  Pos p; const Sig* b = nullptr;
  for (auto& s : sig) if (l.tx(s.id) && (!b || tie.gt(s.rssi, b->rssi))) b = &s;
  if (!b) return p;
  const Tx* t = l.tx(b->id);
  p.x = t->x; p.y = t->y; p.lev = l.id; p.ts = ts; p.empty = false; p.prov = nc::Provider::INDOOR;
  p.dev = std::sqrt(std::exp((l.A - b->rssi) / l.B)) + 1.0;
  return p;
}

inline P2 kHeaviest(const Lvl& l, const std::map<std::string, double>& w, size_t k, Tie& tie)
{
  std::vector<std::pair<double, const Rp*>> v;
  for (auto& rp : l.rps) { auto it = w.find(rp.id); if (it != w.end()) v.push_back({it->second, &rp}); }
  std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first > b.first; });
  k = std::min(k, v.size());
  if (k > 0 && k < v.size()) tie.lt(v[k].first, v[k - 1].first);
  double x = 0, y = 0, n = 0;
  for (size_t i = 0; i < k; ++i) { x += v[i].first * v[i].second->x; y += v[i].first * v[i].second->y; n += v[i].first; }
  if (n < 2.3e-16) return {0, 0};
  return {x / n, y / n};
}

using Tri = std::array<std::string, 3>;
inline P2 triPos(const Lvl& l, const std::vector<Tri>& tri, const std::map<std::string, double>& w, Tie& tie)
{
  auto g = [&](const std::string& i) { auto it = w.find(i); return it == w.end() ? 0.0 : it->second; };
  const Tri* b = nullptr; double bw = 0;
  for (auto& t : tri) { double s = g(t[0]) + g(t[1]) + g(t[2]); if (!b || tie.gt(s, bw)) { b = &t; bw = s; } }
  if (!b || bw < 2.3e-16) return {0, 0};
  double x = 0, y = 0;
  for (auto& id : *b) for (auto& rp : l.rps) if (rp.id == id) { x += g(id) * rp.x; y += g(id) * rp.y; break; }
  return {x / bw, y / bw};
}

struct Knn
{
  Pos last;
  // -> status
  nc::NavigationStatus step(const Lvl& l, const CommonSettings& c, const std::vector<Sig>& sig, long long ts,
                            const std::vector<Tri>* tri, Tie& tie, Pos& out)
  {
    out = last;
    if (sig.empty()) return nc::NO_SOLUTION;
    std::vector<Sig> v;
    for (auto& s : sig) { bool k = false; for (auto& rp : l.rps) k = k || rp.fp.count(s.id); if (k) v.push_back(s); }
    if (v.size() < c.minNumOfMeasurementsForPositionCalculation) return nc::NO_SOLUTION;
    auto w = rpWeights(l, v, c.useDiffMode);
    P2 p;
    if (c.useTriangles)
    {
      if (!tri) return nc::NAVIGATION_ERROR;
      if (tri->empty()) return nc::NO_RPS;
      p = triPos(l, *tri, w, tie);
    }
    else p = kHeaviest(l, w, c.kNeighbors, tie);
    last.x = p.x; last.y = p.y; last.lev = l.id; last.dev = 1.0; last.ts = ts; last.empty = false; last.prov = nc::Provider::INDOOR;
    out = last;
    return nc::OK;
  }
};

struct Outdoor
{
  const Map* map; CommonSettings c; Pos last; std::deque<P2> win; long long seenTs = -1; double seen[3] = {0, 0, 0};
  Outdoor(const Map* m, const CommonSettings& s) : map(m), c(s) {}
  // fixTs: time at which the location message (if it is the latest sensor message) was received
  Pos step(long long ts, bool isFix, double la, double lo, double acc, long long fixTs, int sentence, int sats, bool hadIndoor, Tie& tie)
  {
    double dev = std::max(acc, c.minGpsDeviation);
    bool bad = isFix && dev > c.maxGpsDeviation;
    if (hadIndoor || bad) win.clear();
    // each fix is judged once, when it arrives
    bool fresh = isFix && !(seenTs == fixTs && seen[0] == la && seen[1] == lo && seen[2] == dev);
    if (!fresh) { if (last.empty || (ts - last.ts) / 1000.0 > c.gpsValidTimeWindowSec) return Pos(); return last; }
    seenTs = fixTs; seen[0] = la; seen[1] = lo; seen[2] = dev;
    if (bad || !std::isfinite(la) || !std::isfinite(lo)) return Pos();
    for (auto& l : map->lv)
    {
      P2 p = l.local(la, lo);
      bool in = p.x >= 0 && p.x <= l.W && p.y >= 0 && p.y <= l.Hh;
      if (!c.useGpsOutsideMap) { tie.lt(p.x, 0, 1e-6); tie.lt(p.y, 0, 1e-6); tie.lt(p.x, l.W, 1e-7); tie.lt(p.y, l.Hh, 1e-7); }
      if (!in && !c.useGpsOutsideMap) continue;
      bool ok = true;
      if (c.useGpsSigmaFilter && c.sigmaFilterWindow > 0 && fixTs != last.ts)
      {
        ok = false;
        if (win.size() == c.sigmaFilterWindow)
        {
          double mx = 0, my = 0, vx = 0, vy = 0, n = (double)win.size();
          for (auto& q : win) { mx += q.x / n; my += q.y / n; }
          for (auto& q : win) { vx += (q.x - mx) * (q.x - mx) / n; vy += (q.y - my) * (q.y - my) / n; }
          double dx = 3 * std::sqrt(vx) + c.sigmaFilterDelta, dy = 3 * std::sqrt(vy) + c.sigmaFilterDelta;
          ok = !tie.gt(std::fabs(mx - p.x), dx, 1e-6) & !tie.gt(std::fabs(my - p.y), dy, 1e-6);
          win.pop_front();
        }
        win.push_back(p);
      }
      int n = sentence == 1 ? sats : 0;
      if (!ok || (n != 0 && n < (int)c.minNumSats)) return Pos();
      last.x = p.x; last.y = p.y; last.dev = dev; last.lev = l.id; last.ts = fixTs; last.empty = false; last.prov = nc::Provider::GNSS;
      return last;
    }
    return Pos();
  }
};

struct Fusion
{
  CommonSettings c; Pos in, out; double inDev, outDev;
  explicit Fusion(const CommonSettings& s) : c(s), inDev(s.priorDeviation), outDev(s.priorDeviation) {}
  static double upd(const CommonSettings& c, const Pos& prev, double dev, const Pos& now)
  {
    double prior = prev.empty ? c.priorDeviation : std::min(c.priorDeviation, dev + c.averageMovSpeed * (now.ts - prev.ts) / 1000.0);
    return (prior + now.dev) / 2;
  }
  Pos step(long long ts, const Pos& i, const Pos& o, bool statusOk, Tie& tie)
  {
    if (!i.empty) { inDev = upd(c, in, inDev, i); in = i; }
    if (!o.empty) { outDev = upd(c, out, outDev, o); out = o; }
    if (c.useInstantGpsPosition && !o.empty) return o;
    if (c.preferIndoorSolution && !i.empty && statusOk) return i;
    if (!c.useGps || out.empty) return in;
    if (in.empty) return out;
    double ai = std::max(0LL, ts - in.ts) / 1000.0, ao = std::max(0LL, ts - out.ts) / 1000.0;
    if (ai > c.positionIsTooOldSec) return out;
    if (ao > c.positionIsTooOldSec) return in;
    double di = inDev + c.averageMovSpeed * ai, dq = outDev + c.averageMovSpeed * ao;
    double dist = hyp(in.x - out.x, in.y - out.y);
    if (c.fuseGps && tie.gt(in.dev + out.dev + c.fuseGpsBorderM, dist))
    {
      Pos f = in;
      f.ts = std::max(in.ts, out.ts);
      f.x = (in.x * dq + out.x * di) / (di + dq);
      f.y = (in.y * dq + out.y * di) / (di + dq);
      f.dev = std::min(di, dq);
      f.prov = nc::Provider::FUSED;
      return f;
    }
    return tie.lt(di, dq) ? in : out;
  }
};

// point in (closed) allowed area by even-odd with distance-to-edge margin
inline double segDist(P2 a, P2 b, P2 p)
{
  double vx = b.x - a.x, vy = b.y - a.y, L = vx * vx + vy * vy;
  double t = L > 0 ? ((p.x - a.x) * vx + (p.y - a.y) * vy) / L : 0;
  t = std::min(1.0, std::max(0.0, t));
  return hyp(a.x + t * vx - p.x, a.y + t * vy - p.y);
}
inline bool inRing(const Ring& r, P2 p)
{
  bool in = false; size_t n = r.pts.size();
  for (size_t i = 0, j = n - 1; i < n; j = i++)
  {
    const P2 &a = r.pts[i], &b = r.pts[j];
    if ((a.y > p.y) != (b.y > p.y) && p.x < (b.x - a.x) * (p.y - a.y) / (b.y - a.y) + a.x) in = !in;
  }
  return in;
}
inline bool inArea(const Lvl& l, P2 p, Tie& tie, double margin = 1e-5)
{
  bool in = false;
  for (auto& z : l.zones)
  {
    bool zin = inRing(z.outer, p);
    for (auto& h : z.holes) if (inRing(h, p)) zin = false;
    in = in || zin;
    auto edge = [&](const Ring& r, bool outer = false) { size_t n = r.pts.size(); for (size_t i = 0, j = n - 1; i < n; j = i++) 
    {
      // exactly on a side through the binding point, where everything is zero: on the map, not a tie
      const P2 &a = r.pts[i], &b = r.pts[j];
      if (outer && ((a.x == 0 && b.x == 0 && p.x == 0 && (a.y - p.y) * (b.y - p.y) <= 0) || (a.y == 0 && b.y == 0 && p.y == 0 && (a.x - p.x) * (b.x - p.x) <= 0))) { in = true; continue; }
      if (segDist(a, b, p) < margin) tie.hit = true;
    } };
    edge(z.outer, true); for (auto& h : z.holes) edge(h);
  }
  return in;
}

struct AB
{
  CommonSettings c; Pos s; double vx = 0, vy = 0; bool called = false; double alpha;
  explicit AB(const CommonSettings& cc) : c(cc)
  { double k = std::min(1.0, std::max(0.0, c.smoothing)); alpha = 0.9 - 0.8 * k; }
  void reset(const Pos& p) { s = p; vx = vy = 0; }
  Pos step(const Pos& p, const Lvl& l, Tie& tie)
  {
    if (p.ts <= s.ts) return s;
    double t = (p.ts - s.ts) / 1000.0, a = alpha;
    if (c.useAccuracyForSmoothing) a = std::min(0.9, std::max(0.1, s.dev / (p.dev + s.dev + 0.5)));
    double b = a * a / (2 - a);
    double px = s.x + vx * t, py = s.y + vy * t;
    double nx = px + a * (p.x - px), ny = py + a * (p.y - py);
    double nvx = vx + b / t * (p.x - px), nvy = vy + b / t * (p.y - py);
    bool restart = !called || t > 10.0;
    if (!restart && c.useSpeedConstraint && tie.gt(hyp(nvx, nvy), 4.0)) restart = true;
    if (!restart && c.useBarriers && !inArea(l, {nx, ny}, tie)) restart = true;
    if (restart) { s = p; vx = vy = 0; called = true; return p; }
    double pd = s.dev;
    (void)pd;
    vx = nvx; vy = nvy;
    Pos q = p;
    if (std::isfinite(nx) && std::isfinite(ny)) { q.x = nx; q.y = ny; }
    s = q;
    if (c.useAccuracyForSmoothing) s.dev = (1 - a) * (p.dev + t * hyp(vx, vy)) + a * p.dev;
    return s;
  }
};

// least-squares line over a sliding window; blended with the previous output
struct Fit
{
  int power; double interval, shift, weight, lastOut = 0; std::deque<double> X, Y;
  Fit(int p, double i, double s, double w) : power(p), interval(i), shift(s), weight(w) {}
  void clear() { X.clear(); Y.clear(); }
  bool edge = false;   // a point's age was the window's length but for the last bits
  void near() { double d = std::fabs(X.back() - X.front() - interval); if (d < 1e-9 && !(d == 0 && std::fmod(X.back(), 0.125) == 0 && std::fmod(X.front(), 0.125) == 0)) edge = true; }
  void add(double x, double y)
  {
    if (!Y.empty() && Y.back() == y) return;
    Y.push_back(y); X.push_back(x);
    while (X.back() - X.front() > interval) { near(); X.pop_front(); Y.pop_front(); }
    near();
  }
  // solve normal equations in long double about the mean abscissa (better conditioned)
  static bool lsq(const std::deque<double>& X, const std::deque<double>& Y, int n, double at, double& out)
  {
    long double m = 0; for (double v : X) m += v; m /= X.size();
    int k = n + 1;
    std::vector<std::vector<long double>> A(k, std::vector<long double>(k + 1, 0));
    for (size_t q = 0; q < X.size(); ++q)
    {
      std::vector<long double> pw(k, 1); for (int i = 1; i < k; ++i) pw[i] = pw[i - 1] * ((long double)X[q] - m);
      for (int i = 0; i < k; ++i) { for (int j = 0; j < k; ++j) A[i][j] += pw[i] * pw[j]; A[i][k] += pw[i] * Y[q]; }
    }
    for (int c = 0; c < k; ++c)
    {
      int pv = c; for (int r = c + 1; r < k; ++r) if (fabsl(A[r][c]) > fabsl(A[pv][c])) pv = r;
      std::swap(A[pv], A[c]);
      if (fabsl(A[c][c]) < 1e-12L) return false;
      for (int r = 0; r < k; ++r) if (r != c) { long double f = A[r][c] / A[c][c]; for (int j = c; j <= k; ++j) A[r][j] -= f * A[c][j]; }
    }
    long double o = 0, pw = 1; for (int i = 0; i < k; ++i) { o += A[i][k] / A[i][i] * pw; pw *= ((long double)at - m); }
    out = (double)o; return true;
  }
  bool ok = true;   // false: ill-conditioned, do not compare
  double slack = 0; // how far double arithmetic about time zero, in whatever order it is done, may be off
  // straight line: condition of the normal equations about zero times the size of what is solved for and of the time it is taken at
  double rounding(double at) const
  {
    long double n = X.size(), m = 0, my = 0, sxx = 0, syy = 0, s1 = 0, s2 = 0;
    for (double v : X) { m += v; s1 += fabsl((long double)v); s2 += (long double)v * v; }
    m /= n; for (double v : Y) my += v; my /= n;
    long double sxy = 0;
    for (size_t q = 0; q < X.size(); ++q) { sxx += (X[q] - m) * (X[q] - m); sxy += (X[q] - m) * (Y[q] - my); syy = std::max(syy, fabsl((long double)Y[q])); }
    if (sxx <= 0) return 1e30;
    long double b = sxy / sxx, a = my - b * m, big = std::max(n + s1, s1 + s2), cond = big * big / (n * sxx);
    return (double)(cond * 2e-16L * std::max(fabsl(a), fabsl(b)) * (1 + fabsl((long double)at)));
  }
  double predict(double x)
  {
    if (Y.empty()) return -1;
    double o = 0; slack *= 1 - weight;
    if ((int)Y.size() < power + 1 || Y.size() == 1)
    {
      for (size_t i = 0; i < Y.size(); ++i) { double m = 1; for (size_t j = 0; j < Y.size(); ++j) if (i != j) m *= (x - shift - X[j]) / (X[i] - X[j]); o += Y[i] * m; }
    }
    else
    {
      double v = 0;
      if (!lsq(X, Y, power, x - shift, v)) ok = false;
      if (power == 1) { double r = rounding(x - shift); slack += weight * r; if (r > 1e3) ok = false; }   // may come out as no number, which no weight takes away
      o = v * weight + lastOut * (1 - weight);
    }
    lastOut = o;
    return o;
  }
};

struct Lstsq
{
  CommonSettings c; bool called = false; Fit fx, fy; long long t0 = 0, lastTs = 0;
  bool exact = true;     // false: inputs were recomputed by the model, equal ones may differ in their last bits from the library's
  explicit Lstsq(const CommonSettings& s) : c(s), fx(1, s.sigAveragingTime, s.sigWindowShift, std::min(1.0, std::max(0.0, s.smoothing))), fy(fx) {}
  void reset(const Pos& p) { fx.clear(); fy.clear(); t0 = p.ts; }
  Pos step(Pos p, const Lvl& l, Tie& tie)
  {
    if (!called) { called = true; t0 = p.ts; return p; }
    double t = (p.ts - t0) / 1000.0;
    if (!exact)
    {
      bool anew = p.ts != lastTs || p.prov == nc::Provider::FUSED;
      auto again = [&](const Fit& f, double v) { return !f.Y.empty() && (anew || f.Y.back() != v) && std::fabs(f.Y.back() - v) <= 1e-9 * std::max(1.0, std::fabs(v)); };
      if (again(fx, p.x) || again(fy, p.y)) tie.hit = true;    // whether the fit gets a new point hangs on the last bit
    }
    lastTs = p.ts;
    fx.add(t, p.x); fy.add(t, p.y);
    double xs = fx.predict(t), ys = fy.predict(t);
    if (!fx.ok || !fy.ok || fx.edge || fy.edge || fx.slack > 1e-6 || fy.slack > 1e-6) tie.hit = true;
    if (c.useBarriers && !inArea(l, {xs, ys}, tie)) { fx.clear(); fy.clear(); t0 = p.ts; return p; }
    if (std::isfinite(xs) && std::isfinite(ys)) { p.x = xs; p.y = ys; }
    return p;
  }
};

struct TimeSm
{
  Pos a, b;
  Pos step(const Pos& k, long long ts)
  {
    if (ts < k.ts) return k;
    if (a.lev != k.lev || b.lev != k.lev) { a = b = k; return k; }
    if (a.empty || b.empty || k.empty) { a = b; b = k; return k; }
    if (k.ts > b.ts) { a = b; b = k; }
    if (a.ts == b.ts) return b;
    double el = (double)(ts - b.ts), du = (double)(b.ts - a.ts);
    if (el > du) return k;
    Pos r = b; double f = el / du;
    r.x = a.x + (b.x - a.x) * f; r.y = a.y + (b.y - a.y) * f; r.ts = ts;
    return r;
  }
};

inline double cent(double v) { return std::floor(v * 100) / 100; }
// v (before rounding) is so close to a whole centimetre that rounding down may go either way
inline bool centTie(double v) { double f = v * 100 - std::floor(v * 100); return v != 0 && (f < 1e-5 || f > 1 - 1e-5); }

struct Post
{
  CommonSettings c; AB ab; Lstsq ls; TimeSm tsm; Pos lastOut; long long lastUpdate = 0, lastStep = -1; double rawX = 0.005, rawY = 0.005;
  explicit Post(const CommonSettings& s) : c(s), ab(s), ls(s) {}
  // indoorDev: radius of the latest indoor position known to fusion
  Pos step(const Pos& f, long long ts, long long motionTs, const Lvl& l, double indoorDev, Tie& tie)
  {
    if (motionTs > 0) lastStep = motionTs;
    if (f.empty || !std::isfinite(f.x) || !std::isfinite(f.y)) return Pos();
    if (!c.useGpsOutsideMap)
    {
      // positions produced exactly on the border are inside; nearly on it is a tie
      if (f.x < 0 || f.y < 0 || f.x > l.W || f.y > l.Hh)
      {
        if (f.x > -1e-6 && f.y > -1e-6 && f.x < l.W + 1e-6 && f.y < l.Hh + 1e-6) tie.hit = true;
        return Pos();
      }
      if (f.x < 1e-6 || f.y < 1e-6 || f.x > l.W - 1e-6 || f.y > l.Hh - 1e-6) tie.hit = true;
    }
    if (ts - f.ts >= (long long)(1000 * c.deadReckoningTime)) return Pos();
    Pos r = f;
    if (c.useSmoothing)
    {
      if (lastOut.lev != r.lev) { if (c.useAbFilter) ab.reset(r); else ls.reset(r); }
      r = c.useAbFilter ? ab.step(r, l, tie) : ls.step(r, l, tie);
    }
    if (c.useTimeSmoothing) r = tsm.step(r, ts);
    bool still = c.useStops && lastStep > 0 && ts - lastStep >= (long long)(1000 * c.stopDetectionTime);
    if (still)
    {
      double d = hyp(lastOut.x - r.x, lastOut.y - r.y);
      if (ts - lastUpdate > (long long)(1000 * c.stopUpdateTime) && tie.lt(d, c.useStopsDistanceThresholdM, 1.5e-2 / std::max(1.0, c.useStopsDistanceThresholdM)))
      { lastUpdate = ts; lastOut = r; }
      else { lastOut.ts = ts; return lastOut; }      // held: nothing is touched again
    }
    else { lastOut = r; lastOut.dev = indoorDev; }
    lastOut.ts = ts;
    if (c.useGraphProjection)
    {
      double bd = 1e300; P2 bp;
      for (auto& e : l.ge)
      {
        P2 u = l.gv[e.first], v = l.gv[e.second]; double vx = v.x - u.x, vy = v.y - u.y, L = vx * vx + vy * vy;
        double k = L > 1e-8 ? ((lastOut.x - u.x) * vx + (lastOut.y - u.y) * vy) / L : 0;
        k = std::min(1.0, std::max(0.0, k));
        P2 q{u.x + k * vx, u.y + k * vy}; double d = hyp(q.x - lastOut.x, q.y - lastOut.y);
        if (bd < 1e299 && std::fabs(d - bd) < 0.02 && hyp(q.x - bp.x, q.y - bp.y) > 1e-6) tie.hit = true;
        if (d < bd) { bd = d; bp = q; }
      }
      if (!l.ge.empty() && tie.lt(bd, c.graphProjDist, 2e-3)) { lastOut.x = bp.x; lastOut.y = bp.y; }
    }
    rawX = std::min(std::max(lastOut.x, 0.0), l.W); rawY = std::min(std::max(lastOut.y, 0.0), l.Hh);
    lastOut.x = cent(rawX);
    lastOut.y = cent(rawY);
    return lastOut;
  }
};

// ---------------------------------------------------------------- motion
} // namespace R
