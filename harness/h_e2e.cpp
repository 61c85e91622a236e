// P46: documents in, positions out.  A map, a log and settings written as documents, read by the tools and navigated,
// against the same map, messages and settings handed over in memory.
#include "session_common.hpp"
#include "docgen.hpp"
#include "helpers.h"
using namespace navigine::navigation_core;
#include "fields.hpp"
using D::W;

static const char* txName(nc::TransmitterType t)
{
  switch (t) { case nc::TransmitterType::WIFI: return "WIFI"; case nc::TransmitterType::BEACON: return "BEACON"; case nc::TransmitterType::BLUETOOTH: return "BLUETOOTH"; case nc::TransmitterType::EDDYSTONE: return "EDDYSTONE"; case nc::TransmitterType::LOCATOR: return "LOCATOR"; default: return "UNKNOWN"; }
}

// makes the map one that a document can express, and writes that document
static std::string mapDoc(Rng& g, R::Map& m)
{
  W w(g); w.pretty = g.p(0.3); w.nl = true;
  std::sort(m.lv.begin(), m.lv.end(), [](const R::Lvl& a, const R::Lvl& b) { return a.id < b.id; });
  struct F { int kind; size_t lv, ix; std::string text; };
  std::vector<F> fs;
  auto xy = [&](const R::Lvl& l, double x, double y) { return w.arr({w.num(l.lon(x)), w.num(l.lat(y))}); };
  auto feature = [&](const char* type, const std::string& level, std::vector<std::pair<std::string, std::string>> pr, const char* gt, const std::string& co)
  {
    pr.push_back({"type", w.str(type)}); pr.push_back({"level", w.str(level)});
    if (g.p(0.1)) pr.push_back({"name", w.str(D::rid(g))});
    if (g.p(0.05)) pr.push_back({"extra", w.junk()});
    return w.obj({{"type", w.str("Feature")}, {"properties", w.obj(pr)}, {"geometry", w.obj({{"type", w.str(gt)}, {"coordinates", co}})}});
  };
  for (size_t k = 0; k < m.lv.size(); ++k)
  {
    R::Lvl& l = m.lv[k]; l.altitude = 100;
    std::vector<std::string> ps;
    for (auto& z : l.zones)
    {
      std::vector<std::string> rings;
      auto ring = [&](const R::Ring& r) { std::vector<std::string> q; for (auto& p : r.pts) q.push_back(xy(l, p.x, p.y)); if (!r.pts.empty() && g.p(0.8)) q.push_back(xy(l, r.pts[0].x, r.pts[0].y)); rings.push_back(w.arr(q)); };
      ring(z.outer); for (auto& h : z.holes) ring(h);
      ps.push_back(w.arr(rings));
    }
    fs.push_back({0, k, 0, feature("level", l.id, {}, "MultiPolygon", w.arr(ps))});
    for (size_t t = 0; t < l.txs.size(); ++t)
    {
      R::Tx& x = l.txs[t]; x.power = 0;
      std::vector<std::pair<std::string, std::string>> pr = {{"uuid", w.str(x.id)}, {"transmitter_type", w.str(txName(x.type))}};
      std::vector<std::string> at = {w.num(l.lon(x.x)), w.num(l.lat(x.y))};
      if (g.p(0.15)) x.alt = 0; else at.push_back(w.num(x.alt));                       // heights and models may be left out
      if (g.p(0.1)) x.A = -80; else pr.push_back({"A", w.num(x.A)});
      if (g.p(0.1)) x.B = 3; else pr.push_back({"B", w.num(x.B)});
      fs.push_back({1, k, t, feature("transmitter", l.id, pr, "Point", w.arr(at))});
    }
    for (size_t t = 0; t < l.rps.size(); ++t)
    {
      R::Rp& r = l.rps[t]; std::vector<std::string> es;
      for (auto& f : r.fp)
      {
        // a histogram of levels whose mean the fingerprint becomes
        std::map<int, int> hist; for (long long n = g.i(1, 4); n > 0; --n) hist.insert({(int)std::lround(-f.second.mean) + (int)g.i(-3, 3), (int)g.i(1, 30)});
        double sum = 0; size_t n = 0; std::vector<std::string> vs;
        for (auto& h : hist) { sum += -(double)h.first * h.second; n += (size_t)h.second; vs.push_back(w.obj({{"rssi", w.integer(h.first)}, {"count", w.integer(h.second)}})); }
        g.shuffle(vs);
        f.second.mean = sum / (double)n; f.second.var = 0; f.second.n = n;
        es.push_back(w.obj({{"bssid", w.str(f.first)}, {"type", w.str("BEACON")}, {"value", w.arr(vs)}}));
      }
      g.shuffle(es);
      fs.push_back({2, k, t, feature("reference_point", l.id, {{"uuid", w.str(r.id)}, {"entries", w.arr(es)}}, "Point", xy(l, r.x, r.y))});
    }
    // a graph document knows vertices by their edges
    std::vector<int> keep(l.gv.size(), -1); std::vector<R::P2> gv; std::vector<std::pair<int, int>> ge; std::vector<std::string> lines;
    bool crowded = false;
    for (size_t a = 0; a < l.gv.size(); ++a) for (size_t b = 0; b < a; ++b) crowded = crowded || R::hyp(l.gv[a].x - l.gv[b].x, l.gv[a].y - l.gv[b].y) < 1;
    if (!crowded) for (auto& e : l.ge)
    {
      if (e.first == e.second) continue;
      for (int v : {e.first, e.second}) if (keep[(size_t)v] < 0) { keep[(size_t)v] = (int)gv.size(); gv.push_back(l.gv[(size_t)v]); }
      ge.push_back({keep[(size_t)e.first], keep[(size_t)e.second]});
      auto& p = l.gv[(size_t)e.first]; auto& q = l.gv[(size_t)e.second];
      for (int n = g.p(0.1) ? 2 : 1; n > 0; --n) lines.push_back(g.p(0.5) ? w.arr({xy(l, p.x, p.y), xy(l, q.x, q.y)}) : w.arr({xy(l, q.x, q.y), xy(l, p.x, p.y)}));
    }
    l.gv = gv; l.ge = ge; g.shuffle(lines);
    if (!lines.empty()) fs.push_back({3, k, 0, feature("graph", l.id, {}, "MultiLineString", w.arr(lines))});
  }
  // what belongs to no level of the map, and features of other kinds, mean nothing
  if (!m.lv.empty())
  {
    const R::Lvl& l = m.lv[0];
    if (g.p(0.1)) fs.push_back({4, 0, 0, feature("transmitter", "nowhere", {{"uuid", w.str("stray")}, {"transmitter_type", w.str("BEACON")}}, "Point", xy(l, 1, 1))});
    if (g.p(0.1)) fs.push_back({4, 0, 0, feature("reference_point", "nowhere", {{"uuid", w.str("stray")}, {"entries", "[]"}}, "Point", xy(l, 1, 1))});
    if (g.p(0.2)) fs.push_back({4, 0, 0, feature("note", l.id, {}, "Point", xy(l, 1, 1))});
  }
  g.shuffle(fs);
  std::vector<std::vector<R::Rp>> order(m.lv.size()); std::vector<std::string> text;
  for (auto& f : fs) { if (f.kind == 2) order[f.lv].push_back(m.lv[f.lv].rps[f.ix]); text.push_back(f.text); }
  for (size_t k = 0; k < m.lv.size(); ++k) m.lv[k].rps = order[k];
  std::vector<std::pair<std::string, std::string>> top = {{"type", w.str("FeatureCollection")}, {"features", w.arr(text)}};
  if (g.p(0.1)) top.push_back({"crs", w.junk()});
  return w.obj(top);
}
static std::string logDoc(Rng& g, const std::vector<nc::Measurement>& v)
{
  W w(g); w.pretty = g.p(0.3); std::string d;
  for (auto& m : v)
  {
    std::vector<std::pair<std::string, std::string>> kv = {{"timestamp", w.integer(m.ts)}};
    if (auto* r = boost::get<nc::RadioMeasurementData>(&m.data))
    {
      int t = r->type == RType::WIFI ? 201 : r->type == RType::BLUETOOTH ? 202 : r->type == RType::BEACON ? 203 : r->type == RType::EDDYSTONE ? 204 : 205;
      kv.insert(kv.end(), {{"type", w.integer(t)}, {"bssid", w.str(r->id.value)}});
      if (r->rssi != 0 || g.p(0.5)) kv.push_back({"rssi", w.num(r->rssi)});
      if (r->distance != 0 || g.p(0.5)) kv.push_back({"distance", w.num(r->distance)});
      if (r->power != 0 || g.p(0.5)) kv.push_back({"power", w.num(r->power)});
      if (g.p(0.2)) kv.push_back({"stddev", w.num(g.r(0, 5))});
    }
    else if (auto* s = boost::get<nc::SensorMeasurementData>(&m.data))
    {
      int t = s->type == SType::ACCELEROMETER ? 101 : s->type == SType::GYROSCOPE ? 102 : s->type == SType::MAGNETOMETER ? 103 : s->type == SType::BAROMETER ? 104 : s->type == SType::ORIENTATION ? 105 : 106;
      kv.insert(kv.end(), {{"type", w.integer(t)}, {"values", w.arr({w.num(s->values.x), w.num(s->values.y), w.num(s->values.z)})}});
    }
    else { auto& n = boost::get<nc::NmeaMeasurementData>(m.data); kv.insert(kv.end(), {{"type", "300"}, {"sentence_number", w.integer(n.sentenceNumber)}, {"num_sats", w.integer(n.satellitesNumber)}}); }
    if (g.p(0.03)) kv.push_back({"comment", w.junk()});
    d += w.obj(kv); if (&m != &v.back() || g.p(0.7)) d += "\n";
  }
  return d;
}
static std::string settingsDoc(Rng& g, const Setup& s, int& given)
{
  W w(g); w.pretty = g.p(0.3); w.nl = true;
  std::vector<std::pair<std::string, std::string>> kv; given = 0;
  bool all = g.p(0.3);
  for (auto& f : fields())
  {
    double v = f.get(s.c);
    if (std::isinf(v) || (v == f.def && !all)) continue;
    std::string t;
    if (f.k == KE) { for (auto& e : f.en) if (e.second == v) t = w.str(e.first); }
    else if (f.k == KB) t = v ? "true" : "false";
    else if (f.k == KD) t = w.num(v);
    else t = w.integer((long long)v);
    std::string key = f.key;
    if (key == "K_neighbors" && g.p(0.5)) key = "K";
    if (key == "Fuse_gps_border" && g.p(0.5)) key = "Fuse_gps_border_m";
    kv.push_back({key, t}); given++;
  }
  std::vector<std::string> ls;
  for (auto& l : s.m.lv) ls.push_back(w.obj({{"level", w.str(l.id)}, {"settings", w.arr({w.obj({{"A", w.num(l.A)}, {"B", w.num(l.B)}})})}}));
  if (g.p(0.2)) ls.push_back(w.obj({{"level", w.str("nowhere")}, {"settings", w.arr({w.obj({{"A", "1"}})})}}));
  if (g.p(0.2)) kv.push_back({"Some_setting_of_tomorrow", w.junk()});
  g.shuffle(ls);
  return w.obj({{"level_settings", w.arr(ls)}, {"common_settings", w.arr({w.obj(kv)})}});
}

static void p46(Rng& g)
{
  static D::MemFile fm, fl, fs;
  Setup s = setup(g, 160);
#ifdef WITH_ALT
  if (g.p(0.15)) s.c.useAltitude = true;
#endif
  int given = 0;
  std::string a = mapDoc(g, s.m), b = logDoc(g, s.stream), c = settingsDoc(g, s, given);
  fm.set(a); fl.set(b); fs.set(c);
  Outs want, got; States ws, gs; std::string why;
  runAll(session(s), s.stream, want, ws);
  int e1 = 7, e2 = 7; D::OddLocale odd(g.p(0.1)); if (odd.on) note("other_locale");
  auto levels = ParseGeojson(fm.path, e1); auto msgs = GetNavMessages(fl.path); auto set = CreateSettingsFromJson(fs.path, e2);
  if (e1 || e2) return violation("documents:error", fmt("error codes %d and %d for well-formed documents", e1, e2));
  auto coll = nc::createLevelCollector(); for (auto& l : levels) coll->addGeoLevel(*l);
  runAll(nc::createNavigationClient(coll, set), msgs, got, gs);
  event((long long)want.size());
  if (!closeTo(want, ws, got, gs, 1e-6, {}, true, why, 0.03)) return violation("documents:" + why.substr(0, why.find(':')), "navigating from documents: " + why);
  note("positions", okCount(want)); note("settings_given", given); note("document_bytes", (long long)(a.size() + b.size() + c.size()));
  if (okCount(want) > 0) { Hash h; for (auto& o : want) h.d(o.posLatitude).d(o.posR); distinct(h.h); }
  sample(fmt("map of %zu, log of %zu and settings of %zu bytes: %d positions from %zu messages", a.size(), b.size(), c.size(), okCount(want), want.size()));
}

int main(int argc, char** argv)
{
  D::quiet();
  return runCases(argc, argv, [&](long long, Rng& g) { p46(g); });
}
