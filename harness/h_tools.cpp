// P31 P32 P33: maps, logs and settings are read without loss. P40: malformed ones fail cleanly.
#include "docgen.hpp"
#include "helpers.h"
#include <navigine/navigation-core/geolevel.h>
using namespace H;
using namespace D;
using namespace navigine::navigation_core;

// ------------------------------------------------------------------ maps
struct TrTx { std::string level, id, type; double lat, lng, alt, A, B; bool hasA, hasB, hasAlt; };
struct TrEntry { std::string bssid, type; double mean; long long n; };
struct TrRp { std::string level, id; double lat, lng; std::vector<TrEntry> e; };
struct TrGraph { std::string level; std::vector<std::pair<double, double>> v; std::set<std::pair<int, int>> e; };
typedef std::vector<std::pair<double, double>> TrRing;           // (lat, lng), open
struct TrLevel { std::string id; std::vector<std::vector<TrRing>> polys; };
struct TrMap { std::vector<TrLevel> levels; std::vector<TrTx> tx; std::vector<TrRp> rp; std::vector<TrGraph> gr; };

static const char* TXT[] = {"WIFI", "BEACON", "BLUETOOTH", "EDDYSTONE", "LOCATOR", "UNKNOWN"};
static TransmitterType txt(const std::string& s)
{
  if (s == "WIFI") return TransmitterType::WIFI; if (s == "BEACON") return TransmitterType::BEACON;
  if (s == "BLUETOOTH") return TransmitterType::BLUETOOTH; if (s == "EDDYSTONE") return TransmitterType::EDDYSTONE;
  if (s == "LOCATOR") return TransmitterType::LOCATOR; return TransmitterType::UNKNOWN;
}

static std::string feature(Rng& g, W& w, const std::string& type, const std::string& level, std::vector<std::pair<std::string, std::string>> props, const std::string& gtype, const std::string& coords)
{
  props.push_back({"type", w.str(type)}); props.push_back({"level", w.str(level)});
  if (g.p(0.3)) props.push_back({"name", w.str(rid(g))});
  if (g.p(0.1)) props.push_back({"extra", w.junk()});
  return w.obj({{"type", w.str("Feature")}, {"properties", w.obj(props)}, {"geometry", w.obj({{"type", w.str(gtype)}, {"coordinates", coords}})}});
}

static std::string makeMap(Rng& g, TrMap& m)
{
  W w(g); w.pretty = g.p(0.6); w.nl = true;
  double lat0 = g.r(-80, 80), lng0 = g.r(-179, 179), mlat = 1 / 111000.0, mlng = mlat / std::cos(lat0 * 3.14159265358979 / 180);
  auto pt = [&](double x, double y) { return std::make_pair(lat0 + y * mlat, lng0 + x * mlng); };
  auto wp = [&](std::pair<double, double> p) { return w.arr({w.num(p.second), w.num(p.first)}); };
  std::vector<std::string> feats;
  const bool big = g.p(0.02); int nl = (int)g.i(1, big ? 15 : 5), uid = 0;
  std::vector<std::string> names;
  for (int k = 0; k < nl; ++k)
    names.push_back(g.p(0.5) ? fmt("%lld", g.i(1, 5000) * 10 + k) : rid(g) + fmt("#%d", k));
  for (auto& nm : names)
  {
    TrLevel L; L.id = nm;
    int np = (int)g.i(1, big ? 8 : 3);
    std::vector<std::string> ps;
    for (int k = 0; k < np; ++k)
    {
      double x0 = k * 100.0 + g.r(0, 10), y0 = g.r(0, 30), W0 = g.r(20, 80), H0 = g.r(20, 80);
      std::vector<TrRing> rings;
      TrRing o;
      if (g.p(0.5)) o = {pt(x0, y0), pt(x0 + W0, y0), pt(x0 + W0, y0 + H0), pt(x0, y0 + H0)};
      else { int n = (int)g.i(3, 12); for (int q = 0; q < n; ++q) { double a = 6.283185307 * q / n, r = g.r(0.6, 1); o.push_back(pt(x0 + W0 / 2 + r * W0 / 2 * std::cos(a), y0 + H0 / 2 + r * H0 / 2 * std::sin(a))); } }
      if (g.p(0.5)) std::reverse(o.begin(), o.end());
      rings.push_back(o);
      int nh = g.p(0.05) ? (int)g.i(4, 12) : (int)g.i(0, 3);
      for (int q = 0; q < nh; ++q)
      {
        double hx = x0 + W0 * (0.35 + (nh > 3 ? 0.025 : 0.1) * q), hy = y0 + H0 * 0.45, s = nh > 3 ? g.r(0.05, 0.4) : g.r(0.5, 1.5);
        TrRing h = {pt(hx, hy), pt(hx + s, hy), pt(hx + s, hy + s)};
        if (g.p(0.5)) h.push_back(pt(hx, hy + s));
        if (g.p(0.5)) std::reverse(h.begin(), h.end());
        rings.push_back(h);
      }
      std::vector<std::string> rs;
      for (auto& r : rings)
      {
        std::vector<std::string> q; for (auto& p : r) q.push_back(wp(p));
        if (g.p(0.7)) q.push_back(wp(r[0]));
        rs.push_back(w.arr(q));
      }
      ps.push_back(w.arr(rs)); L.polys.push_back(rings);
    }
    m.levels.push_back(L);
    feats.push_back(feature(g, w, "level", nm, {}, "MultiPolygon", w.arr(ps)));
    // graph
    if (g.p(0.8))
    {
      TrGraph G; G.level = nm;
      int nv = (int)g.i(2, big ? 70 : 14);
      std::vector<std::pair<double, double>> v;
      for (int k = 0; k < nv; ++k) v.push_back(pt((k % 4) * 12 + g.r(0, 8), (k / 4) * 12 + g.r(0, 8)));
      // corridors meet within centimetres, but a step apart is apart
      bool tight = g.p(0.3), clash = false; auto loose = v;
      if (tight) for (int k = 1; k < nv; ++k) if (g.p(0.3)) { double a = g.r(0, 6.283), d = g.r(0.13, 0.4); auto q = v[(size_t)k - 1]; v[(size_t)k] = {q.first + d * std::sin(a) * mlat, q.second + d * std::cos(a) * mlng}; }
      for (int k = 0; k < nv && tight; ++k) for (int q = 0; q < k; ++q)
        if (std::hypot((v[(size_t)k].first - v[(size_t)q].first) / mlat, (v[(size_t)k].second - v[(size_t)q].second) / mlng) < 0.125) clash = true;
      if (clash) { v = loose; tight = false; }
      int ne = (int)g.i(1, 2 * nv);
      std::vector<std::string> es; std::set<int> used; std::set<std::pair<int, int>> ed;
      double j = !tight && g.p(0.3) ? 0.01 : 0;
      auto jit = [&](std::pair<double, double> p) { return std::make_pair(p.first + g.r(-j, j) * mlat, p.second + g.r(-j, j) * mlng); };
      for (int k = 0; k < ne; ++k)
      {
        int a = (int)g.i(0, nv - 1), b = (int)g.i(0, nv - 1); if (a == b) continue;
        es.push_back(w.arr({wp(jit(v[a])), wp(jit(v[b]))})); ed.insert({std::min(a, b), std::max(a, b)}); used.insert(a); used.insert(b);
      }
      std::map<int, int> re; for (int u : used) { re[u] = (int)G.v.size(); G.v.push_back(v[u]); }
      for (auto& e : ed) G.e.insert({re[e.first], re[e.second]});
      if (!es.empty()) { m.gr.push_back(G); feats.push_back(feature(g, w, "graph", nm, {}, "MultiLineString", w.arr(es))); }
    }
  }
  auto levelOf = [&] { return g.p(0.05) ? std::string("nowhere") : g.pick(names); };
  int nt = (int)g.i(0, big ? 200 : 25);
  for (int k = 0; k < nt; ++k)
  {
    TrTx t; t.level = levelOf(); t.id = rid(g) + fmt("%d", ++uid); t.type = TXT[g.i(0, 5)];
    auto p = pt(g.r(-20, 300), g.r(-20, 100)); t.lat = p.first; t.lng = p.second;
    t.hasA = g.p(0.6); t.hasB = g.p(0.6); t.hasAlt = g.p(0.4); t.A = g.r(-100, -30); t.B = g.p(0.3) ? (double)g.i(1, 6) : g.r(1, 6); t.alt = g.p(0.2) ? 0 : g.r(-20, 60);
    std::vector<std::pair<std::string, std::string>> pr = {{"uuid", w.str(t.id)}, {"transmitter_type", w.str(t.type)}};
    if (t.hasA) pr.push_back({"A", w.num(t.A)}); if (t.hasB) pr.push_back({"B", w.num(t.B)});
    std::vector<std::string> c = {w.num(t.lng), w.num(t.lat)}; if (t.hasAlt) c.push_back(w.num(t.alt));
    m.tx.push_back(t); feats.push_back(feature(g, w, "transmitter", t.level, pr, "Point", w.arr(c)));
  }
  int nr = (int)g.i(0, big ? 80 : 15);
  std::vector<std::string> pool; for (auto& t : m.tx) pool.push_back(t.id); for (int k = 0; k < 5; ++k) pool.push_back(rid(g) + fmt("s%d", ++uid));
  for (int k = 0; k < nr; ++k)
  {
    TrRp r; r.level = levelOf(); r.id = rid(g) + fmt("%d", ++uid); auto p = pt(g.r(-20, 300), g.r(-20, 100)); r.lat = p.first; r.lng = p.second;
    std::vector<std::string> q = pool; g.shuffle(q); int ne = (int)g.i(0, (long long)std::min<size_t>(q.size(), big ? 60 : 12));
    std::vector<std::string> es;
    for (int e = 0; e < ne; ++e)
    {
      TrEntry t; t.bssid = q[e]; t.type = TXT[g.i(0, 5)]; t.n = 0; double s = 0;
      std::set<int> seen; int nv = g.p(0.05) ? (int)g.i(7, 60) : (int)g.i(1, 6); std::vector<std::string> vs;
      for (int z = 0; z < nv; ++z)
      {
        int rs = (int)g.i(-110, -20), c = (int)(g.p(0.02) ? g.i(200, 1000000) : g.i(1, 200)); if (!seen.insert(rs).second) continue;
        t.n += c; s -= (double)rs * c; vs.push_back(w.obj({{"rssi", w.integer(rs)}, {"count", w.integer(c)}}));
      }
      t.mean = s / (double)t.n; r.e.push_back(t);
      es.push_back(w.obj({{"bssid", w.str(t.bssid)}, {"type", w.str(t.type)}, {"value", w.arr(vs)}}));
    }
    m.rp.push_back(r);
    feats.push_back(feature(g, w, "reference_point", r.level, {{"uuid", w.str(r.id)}, {"entries", w.arr(es)}}, "Point", w.arr({w.num(r.lng), w.num(r.lat)})));
  }
  if (g.p(0.3)) feats.push_back(feature(g, w, "note", g.pick(names), {}, "Point", "[0,0]"));
  g.shuffle(feats);
  std::vector<std::pair<std::string, std::string>> top = {{"type", w.str("FeatureCollection")}, {"features", w.arr(feats)}};
  if (g.p(0.2)) top.push_back({"crs", w.junk()});
  return w.obj(top);
}

template <class R> static std::vector<std::pair<double, double>> open(const R& r)
{
  std::vector<std::pair<double, double>> o;
  for (auto& p : r) { double x = boost::geometry::get<0>(p), y = boost::geometry::get<1>(p); if (o.empty() || o.back() != std::make_pair(x, y)) o.push_back({x, y}); }
  while (o.size() > 1 && o.back() == o.front()) o.pop_back();
  return o;
}
static bool cyc(const std::vector<std::pair<double, double>>& a, const TrRing& b)
{
  if (a.size() != b.size()) return false;
  size_t n = a.size();
  for (int dir = 0; dir < 2; ++dir)
    for (size_t s = 0; s < n; ++s)
    {
      bool ok = true;
      for (size_t k = 0; k < n && ok; ++k) ok = a[k] == b[dir ? (s + n - k) % n : (s + k) % n];
      if (ok) return true;
    }
  return n == 0;
}

static void checkMap(Rng& g, MemFile& f)
{
  TrMap m; std::string doc = makeMap(g, m);
  f.set(doc);
  int err = 77;
  GeoLevels ls;
  try { D::OddLocale odd(g.p(0.05)); ls = ParseGeojson(f.path, err); }
  catch (const std::exception& e) { violation("map-refused", fmt("a well-formed map is refused: %s", e.what())); return; }
  CHECK_THAT(err == 0, "map-error-code", "error %d for a well-formed map", err);
  CHECK_THAT(ls.size() == m.levels.size(), "level-count", "%zu levels, document has %zu", ls.size(), m.levels.size());
  event(5);
  std::set<std::string> seen;
  for (auto& L : ls)
  {
    std::string id = L->id.value;
    CHECK_THAT(seen.insert(id).second, "level-twice", "level %s twice", id.c_str());
    const TrLevel* tl = nullptr; for (auto& x : m.levels) if (x.id == id) tl = &x;
    if (!tl) { violation("level-strange", "unknown level " + id); continue; }
    // geometry
    auto& mp = L->geometry.allowedArea();
    CHECK_THAT(mp.size() == tl->polys.size(), "polygon-count", "level %s: %zu polygons, document has %zu", id.c_str(), (size_t)mp.size(), tl->polys.size());
    std::vector<bool> used(mp.size());
    double b[4] = {1e9, 1e9, -1e9, -1e9};
    for (auto& rings : tl->polys)
    {
      for (auto& p : rings[0]) { b[0] = std::min(b[0], p.first); b[1] = std::min(b[1], p.second); b[2] = std::max(b[2], p.first); b[3] = std::max(b[3], p.second); }
      bool hit = false;
      for (size_t k = 0; k < mp.size() && !hit; ++k)
      {
        if (used[k] || !cyc(open(mp[k].outer()), rings[0]) || mp[k].inners().size() != rings.size() - 1) continue;
        std::vector<bool> ui(rings.size() - 1); bool all = true;
        for (size_t q = 1; q < rings.size(); ++q)
        {
          bool one = false;
          for (size_t z = 0; z < ui.size() && !one; ++z) if (!ui[z] && cyc(open(mp[k].inners()[z]), rings[q])) { ui[z] = true; one = true; }
          all = all && one;
        }
        if (all) { used[k] = true; hit = true; }
      }
      event(); CHECK_THAT(hit, "polygon-lost", "level %s: a polygon of the document is not in the level", id.c_str());
    }
    auto& bx = L->geometry.boundingBox();
    CHECK_THAT(bx.min_corner().x() == b[0] && bx.min_corner().y() == b[1] && bx.max_corner().x() == b[2] && bx.max_corner().y() == b[3], "bounding-box", "level %s: box (%.9g %.9g %.9g %.9g), outline spans (%.9g %.9g %.9g %.9g)", id.c_str(),
               (double)bx.min_corner().x(), (double)bx.min_corner().y(), (double)bx.max_corner().x(), (double)bx.max_corner().y(), b[0], b[1], b[2], b[3]);
    // transmitters
    size_t nt = 0;
    for (auto& t : m.tx)
    {
      if (t.level != id) continue;
      ++nt; const Transmitter<GeoPoint3D>* h = nullptr; int c = 0;
      for (auto& x : L->transmitters) if (x.id.value == t.id) { h = &x; ++c; }
      event();
      if (c != 1) { violation("transmitter-count", fmt("transmitter %s is on level %s %d times", t.id.c_str(), id.c_str(), c)); continue; }
      CHECK_THAT(h->point.latitude == t.lat && h->point.longitude == t.lng, "transmitter-place", "transmitter at (%.9g %.9g), document says (%.9g %.9g)", h->point.latitude, h->point.longitude, t.lat, t.lng);
      CHECK_THAT(h->point.altitude == (t.hasAlt ? t.alt : 0), "transmitter-height", "height %.9g, document says %.9g", h->point.altitude, t.hasAlt ? t.alt : 0);
      CHECK_THAT(h->type == txt(t.type), "transmitter-type", "type %d for %s", (int)h->type, t.type.c_str());
      CHECK_THAT(h->pathlossModel.A == (t.hasA ? t.A : -80) && h->pathlossModel.B == (t.hasB ? t.B : 3), "transmitter-model", "A %g B %g, document says %g %g (given %d %d)", h->pathlossModel.A, h->pathlossModel.B, t.A, t.B, (int)t.hasA, (int)t.hasB);
    }
    CHECK_THAT(L->transmitters.size() == nt, "transmitter-extra", "level %s has %zu transmitters, document %zu", id.c_str(), L->transmitters.size(), nt);
    size_t nr = 0;
    for (auto& r : m.rp)
    {
      if (r.level != id) continue;
      ++nr; const ReferencePoint<GeoPoint>* h = nullptr; int c = 0;
      for (auto& x : L->referencePoints) if (x.id.value == r.id) { h = &x; ++c; }
      event();
      if (c != 1) { violation("refpoint-count", fmt("reference point %s is on level %s %d times", r.id.c_str(), id.c_str(), c)); continue; }
      CHECK_THAT(h->point.latitude == r.lat && h->point.longitude == r.lng, "refpoint-place", "point at (%.9g %.9g), document says (%.9g %.9g)", h->point.latitude, h->point.longitude, r.lat, r.lng);
      CHECK_THAT(h->fingerprints.size() == r.e.size(), "fingerprint-count", "%zu fingerprints, document has %zu", h->fingerprints.size(), r.e.size());
      for (auto& e : r.e)
      {
        auto it = h->fingerprints.find(TransmitterId(e.bssid)); event();
        if (it == h->fingerprints.end()) { violation("fingerprint-lost", "fingerprint of " + e.bssid + " lost"); continue; }
        CHECK_THAT(near(it->second.mean, e.mean, 1e-12), "fingerprint-mean", "mean %.12g, document says %.12g", it->second.mean, e.mean);
        CHECK_THAT((long long)it->second.nMeasurements == e.n, "fingerprint-number", "%zu measurements, document says %lld", it->second.nMeasurements, e.n);
        CHECK_THAT(it->second.type == txt(e.type), "fingerprint-type", "type %d for %s", (int)it->second.type, e.type.c_str());
      }
    }
    CHECK_THAT(L->referencePoints.size() == nr, "refpoint-extra", "level %s has %zu reference points, document %zu", id.c_str(), L->referencePoints.size(), nr);
    // graph
    const TrGraph* tg = nullptr; for (auto& x : m.gr) if (x.level == id) tg = &x;
    std::vector<std::pair<double, double>> gv; std::set<std::pair<int, int>> ge;
    std::map<int, int> idx;
    for (auto it = L->graph.vertexBegin(); it != L->graph.vertexEnd(); ++it) { idx[it->id] = (int)gv.size(); gv.push_back({it->point.latitude, it->point.longitude}); }
    CHECK_THAT(idx.size() == gv.size(), "vertex-ids", "vertex ids repeat");
    size_t want = tg ? tg->v.size() : 0;
    CHECK_THAT(gv.size() == want, "vertex-count", "level %s: graph has %zu vertices, document %zu", id.c_str(), gv.size(), want);
    if (tg && gv.size() == want)
    {
      std::vector<int> to(gv.size(), -1); bool ok = true;
      for (size_t k = 0; k < gv.size(); ++k)
        for (size_t q = 0; q < tg->v.size(); ++q)
          if (std::fabs(gv[k].first - tg->v[q].first) * 111000 < 0.03 && std::fabs(gv[k].second - tg->v[q].second) * 111000 * std::cos(gv[k].first * 3.14159265358979 / 180) < 0.03) to[k] = (int)q;
      std::set<int> im(to.begin(), to.end());
      CHECK_THAT(im.size() == to.size() && !im.count(-1), "vertex-place", "level %s: a graph vertex is not where the document puts it", id.c_str());
      std::set<std::pair<int, int>> es;
      for (auto it = L->graph.edgesBegin(); it != L->graph.edgesEnd(); ++it)
      { if (!idx.count(it->first) || !idx.count(it->second)) { ok = false; continue; } int a = to[idx[it->first]], c = to[idx[it->second]]; es.insert({std::min(a, c), std::max(a, c)}); }
      CHECK_THAT(ok && es == tg->e, "edges", "level %s: graph has %zu edges, document %zu, or they join other vertices", id.c_str(), es.size(), tg->e.size());
      event(); note("graphs");
    }
  }
  note("levels", (long long)m.levels.size()); note("transmitters", (long long)m.tx.size()); note("reference_points", (long long)m.rp.size());
  if (ctx().cur % 500 == 1) sample(fmt("map of %zu bytes, %zu levels, %zu transmitters, %zu reference points", doc.size(), m.levels.size(), m.tx.size(), m.rp.size()));
  distinct(hashStr(doc));
}

// ------------------------------------------------------------------ logs
struct TrMsg { long long ts; int type; std::string id; double rssi = 0, power = 0, distance = 0, stddev = 0; double v[3] = {0, 0, 0}; long long sn = 0, ns = 0; };
static std::string makeLog(Rng& g, std::vector<TrMsg>& out)
{
  W w(g); w.pretty = g.p(0.5);
  static const int T[] = {101, 102, 103, 104, 105, 106, 201, 202, 203, 204, 205, 300};
  std::string doc; int n = g.p(0.01) ? (int)g.i(60, 2000) : (int)g.i(0, 60); long long ts = g.p(0.1) ? 0 : g.i(0, 2000000000000ll);
  std::vector<std::string> ids; for (int k = 0; k < 6; ++k) ids.push_back(rid(g));
  for (int k = 0; k < n; ++k)
  {
    TrMsg m; m.type = T[g.i(0, 11)]; ts += g.p(0.1) ? -g.i(0, 500) : g.i(0, 500); m.ts = ts;
    std::vector<std::pair<std::string, std::string>> kv = {{"timestamp", w.integer(m.ts)}, {"type", w.integer(m.type)}};
    if (m.type < 200)
    {
      std::vector<std::string> v; for (double& x : m.v) { x = g.p(0.2) ? (double)g.i(-1000, 1000) : g.p(0.5) ? g.r(-20, 20) : g.r(-1e5, 1e5); v.push_back(w.num(x)); }
      kv.push_back({"values", w.arr(v)});
    }
    else if (m.type < 300)
    {
      m.id = g.pick(ids); kv.push_back({"bssid", w.str(m.id)});
      if (m.type != 205) { m.rssi = g.p(0.6) ? (double)g.i(-110, 0) : g.r(-110, 0); kv.push_back({"rssi", w.num(m.rssi)}); }
      if (m.type == 205 && g.p(0.2)) { m.rssi = (double)g.i(-110, 0); kv.push_back({"rssi", w.num(m.rssi)}); }
      bool beacon = m.type == 203 || m.type == 204, rtt = m.type == 205;
      if (beacon || g.p(0.15)) { m.power = (double)g.i(-100, 20); kv.push_back({"power", w.num(m.power)}); }
      if (rtt || g.p(0.15)) { m.distance = g.r(-2, 50); kv.push_back({"distance", w.num(m.distance)}); }
      if (rtt || g.p(0.15)) { m.stddev = g.r(0, 5); kv.push_back({"stddev", w.num(m.stddev)}); }
    }
    else { m.sn = g.i(0, 200); m.ns = g.i(0, 40); kv.push_back({"sentence_number", w.integer(m.sn)}); kv.push_back({"num_sats", w.integer(m.ns)}); }
    if (g.p(0.1)) kv.push_back({"comment", w.junk()});
    out.push_back(m); doc += w.obj(kv);
    if (k + 1 < n || g.p(0.7)) doc += "\n";
  }
  return doc;
}
static const char* SN(int t) { static std::string s; s = std::to_string(t); return s.c_str(); }
static void checkLog(Rng& g, MemFile& f)
{
  std::vector<TrMsg> want; std::string doc = makeLog(g, want);
  f.set(doc);
  std::vector<Measurement> got;
  try { D::OddLocale odd(g.p(0.05)); got = GetNavMessages(f.path); }
  catch (const std::exception& e) { violation("log-refused", fmt("a well-formed log is refused: %s", e.what())); return; }
  CHECK_THAT(got.size() == want.size(), "message-count", "%zu messages from %zu entries", got.size(), want.size());
  std::set<int> kinds;
  for (size_t k = 0; k < std::min(got.size(), want.size()); ++k)
  {
    const TrMsg& t = want[k]; event(); kinds.insert(t.type);
    note(std::string("type ") + SN(t.type));
    CHECK_THAT(got[k].ts == t.ts, "time", "entry %zu: time %lld, log says %lld", k, got[k].ts, t.ts);
    if (t.type < 200)
    {
      auto* s = boost::get<SensorMeasurementData>(&got[k].data);
      if (!s) { violation("kind-sensor", fmt("entry %zu of type %d is no sensor reading", k, t.type)); continue; }
      typedef SensorMeasurementData::Type ST;
      ST want = t.type == 101 ? ST::ACCELEROMETER : t.type == 102 ? ST::GYROSCOPE : t.type == 103 ? ST::MAGNETOMETER : t.type == 104 ? ST::BAROMETER : t.type == 105 ? ST::ORIENTATION : ST::LOCATION;
      CHECK_THAT(s->type == want, "sensor-type", "entry of type %d read as sensor %d", t.type, (int)s->type);
      CHECK_THAT(s->values.x == t.v[0] && s->values.y == t.v[1] && s->values.z == t.v[2], "sensor-values", "type %d: (%.9g %.9g %.9g), log says (%.9g %.9g %.9g)", t.type, s->values.x, s->values.y, s->values.z, t.v[0], t.v[1], t.v[2]);
    }
    else if (t.type < 300)
    {
      auto* s = boost::get<RadioMeasurementData>(&got[k].data);
      if (!s) { violation("kind-radio", fmt("entry %zu of type %d is no radio signal", k, t.type)); continue; }
      typedef RadioMeasurementData::Type RT;
      RT want = t.type == 201 ? RT::WIFI : t.type == 202 ? RT::BLUETOOTH : t.type == 203 ? RT::BEACON : t.type == 204 ? RT::EDDYSTONE : RT::WIFI_RTT;
      CHECK_THAT(s->type == want, "radio-type", "entry of type %d read as signal kind %d", t.type, (int)s->type);
      CHECK_THAT(s->id.value == t.id, "radio-id", "transmitter '%s', log says '%s'", s->id.value.c_str(), t.id.c_str());
      CHECK_THAT(s->rssi == t.rssi, "radio-rssi", "type %d: rssi %.9g, log says %.9g", t.type, s->rssi, t.rssi);
      CHECK_THAT(s->power == t.power, "radio-power", "type %d: power %.9g, log says %.9g", t.type, s->power, t.power);
      CHECK_THAT(s->distance == t.distance, "radio-distance", "type %d: distance %.9g, log says %.9g", t.type, s->distance, t.distance);
      CHECK_THAT(s->stddev == t.stddev, "radio-stddev", "type %d: deviation %.9g, log says %.9g", t.type, s->stddev, t.stddev);
    }
    else
    {
      auto* s = boost::get<NmeaMeasurementData>(&got[k].data);
      if (!s) { violation("kind-nmea", fmt("entry %zu of type %d is no satellite count", k, t.type)); continue; }
      CHECK_THAT(s->sentenceNumber == t.sn && s->satellitesNumber == t.ns, "nmea", "sentence %d satellites %d, log says %lld %lld", s->sentenceNumber, s->satellitesNumber, t.sn, t.ns);
    }
  }
  if (kinds.size() >= 3) distinct(hashStr(doc));
  if (ctx().cur % 500 == 1) sample(fmt("log of %zu entries, %zu kinds", want.size(), kinds.size()));
}

// ------------------------------------------------------------------ settings
#include "fields.hpp"
struct TrSet { std::map<std::string, double> common; std::map<std::string, std::pair<double, double>> lev; };
static std::string makeSettings(Rng& g, TrSet& t)
{
  W w(g); w.pretty = g.p(0.6); w.nl = true;
  std::vector<std::pair<std::string, std::string>> kv;
  double q = g.pickd({0, 0.03, 0.2, 0.5, 0.9, 1});
  for (auto& f : fields())
  {
    t.common[f.key] = f.def;
    if (!g.p(q)) continue;
    double v; std::string s, key = f.key;
    if (f.k == KE) { auto& e = f.en[(size_t)g.i(0, (long long)f.en.size() - 1)]; v = e.second; s = w.str(e.first); }
    else if (f.k == KB) { bool b = g.p(0.5); v = b; s = b ? "true" : "false"; }
    else if (f.k == KU) { v = (double)(g.p(0.3) ? g.i(0, 4000000000ll) : g.i(0, 2000)); s = w.integer((long long)v); }
    else if (f.k == KL) { v = (double)g.i(-100, 1000000); s = w.integer((long long)v); }
    else { v = g.p(0.3) ? (double)g.i(-100, 1000) : g.p(0.5) ? g.r(-10, 100) : g.r(0, 1) * std::pow(10, (double)g.i(-9, 9)); s = w.num(v); }
    if (key == "K_neighbors" && g.p(0.4)) key = "K";                       // the names the reader always took
    if (key == "Fuse_gps_border" && g.p(0.4)) key = "Fuse_gps_border_m";
    t.common[f.key] = v; kv.push_back({key, s});
  }
  if (g.p(0.2)) kv.push_back({"Unheard_of", w.junk()});
  int nl = (int)g.i(0, 5);
  std::vector<std::string> ls;
  for (int k = 0; k < nl; ++k)
  {
    std::string id = rid(g) + fmt("#%d", k); double A = -82, B = 3; std::vector<std::pair<std::string, std::string>> p;
    if (g.p(0.7)) { A = g.r(-100, -30); p.push_back({"A", w.num(A)}); }
    if (g.p(0.7)) { B = g.r(0, 8); p.push_back({"B", w.num(B)}); }
    if (g.p(0.1)) p.push_back({"Other", w.junk()});
    t.lev[id] = {A, B};
    ls.push_back(w.obj({{"level", w.str(id)}, {"settings", w.arr({w.obj(p)})}}));
  }
  return w.obj({{"level_settings", w.arr(ls)}, {"common_settings", w.arr({w.obj(kv)})}});
}
static void checkSettings(Rng& g, MemFile& f)
{
  TrSet t; std::string doc = makeSettings(g, t);
  f.set(doc);
  int err = 77; NavigationSettings s;
  try { D::OddLocale odd(g.p(0.05)); s = CreateSettingsFromJson(f.path, err); }
  catch (const std::exception& e) { violation("settings-refused", fmt("a well-formed settings document is refused: %s", e.what())); return; }
  CHECK_THAT(err == 0, "settings-error-code", "error %d for a well-formed document", err);
  long long given = 0;
  for (auto& fl : fields())
  {
    double have = fl.get(s.commonSettings), want = t.common[fl.key]; event(); if (want != fl.def) ++given;
    CHECK_THAT(have == want, std::string(want == fl.def ? "default:" : "setting:") + fl.key, "%s is %.12g, should be %.12g", fl.key, have, want);
  }
  CHECK_THAT(s.levelsSettings.size() == t.lev.size(), "level-settings-count", "%zu levels, document has %zu", s.levelsSettings.size(), t.lev.size());
  for (auto& l : t.lev)
  {
    auto it = s.levelsSettings.find(LevelId(l.first)); event();
    if (it == s.levelsSettings.end()) { violation("level-settings-lost", "settings of level " + l.first + " lost"); continue; }
    CHECK_THAT(it->second.normalModeA == l.second.first && it->second.normalModeB == l.second.second, "level-settings", "A %g B %g, should be %g %g", it->second.normalModeA, it->second.normalModeB, l.second.first, l.second.second);
  }
  note("settings_given", given); note("levels", (long long)t.lev.size());
  if (given) distinct(hashStr(doc));
  if (ctx().cur % 500 == 1) sample(fmt("%lld settings off their default, %zu levels", given, t.lev.size()));
  // no document at all: reported, defaults
  if (ctx().cur % 50 == 0)
  {
    int e2 = 0; NavigationSettings d = CreateSettingsFromJson(ctx().scratch + "/none-such.json", e2); event();
    CHECK_THAT(e2 != 0, "settings-missing-file", "no error for a missing document");
    for (auto& fl : fields()) CHECK_THAT(fl.get(d.commonSettings) == fl.def, std::string("default:") + fl.key, "%s is not its default", fl.key);
  }
}

// ------------------------------------------------------------------ malformed documents
static std::string token(Rng& g)
{
  switch (g.i(0, 17))
  {
  case 0: return "null"; case 1: return "true"; case 2: return "[]"; case 3: return "{}"; case 4: return "\"\""; case 5: return "-1"; case 6: return "0";
  case 7: return "1e308"; case 8: return "-1e308"; case 9: return "18446744073709551615"; case 10: return "-9223372036854775808"; case 11: return "2147483648";
  case 12: return "[[[[]]]]"; case 13: return "\"graph\""; case 14: return "1e-320"; case 15: return "[1]"; case 16: { long long n = g.p(0.1) ? g.i(1000, 100000) : g.i(1, 300); return std::string((size_t)n, '['); }
  default: { long long n = g.p(0.1) ? g.i(1000, 50000) : g.i(1, 300); return std::string((size_t)n, '[') + std::string((size_t)n, ']'); }
  }
}
// replaces one value (found by scanning) with something else
static void confuse(Rng& g, std::string& d)
{
  std::vector<std::pair<size_t, size_t>> vals;
  for (size_t k = 0; k < d.size(); ++k)
  {
    if (d[k] != ':' && d[k] != ',' && d[k] != '[') continue;
    size_t a = k + 1; while (a < d.size() && isspace((unsigned char)d[a])) ++a;
    if (a >= d.size() || d[a] == ']' || d[a] == '}') continue;
    size_t b = a;
    if (d[a] == '"') { ++b; while (b < d.size() && d[b] != '"') b += d[b] == '\\' ? 2 : 1; ++b; }
    else if (d[a] == '{' || d[a] == '[') { int n = 0; bool s = false; for (; b < d.size() && b < a + 3000; ++b) { if (s) { if (d[b] == '\\') ++b; else if (d[b] == '"') s = false; } else if (d[b] == '"') s = true; else if (d[b] == '{' || d[b] == '[') ++n; else if (d[b] == '}' || d[b] == ']') { if (--n == 0) { ++b; break; } } } }
    else while (b < d.size() && !strchr(",]} \t\n", d[b])) ++b;
    if (b > d.size()) b = d.size();
    vals.push_back({a, b});
    if (d[a] == '[' && k + 1 < d.size() && d[k] == '[' && k > 4 && d[k - 1] == '[' && d[k - 2] == '[' && d[k - 3] == '[') while (k + 1 < d.size() && d[k + 1] == '[') ++k;
  }
  if (vals.empty()) return;
  auto v = vals[(size_t)g.i(0, (long long)vals.size() - 1)];
  switch (g.i(0, 3))
  {
  case 0: d.replace(v.first, v.second - v.first, token(g)); break;
  case 1: { auto u = vals[(size_t)g.i(0, (long long)vals.size() - 1)]; std::string x = d.substr(u.first, u.second - u.first); d.replace(v.first, v.second - v.first, x); break; }
  case 2: { std::string x = d.substr(v.first, v.second - v.first); d.insert(v.second, "," + x); break; }
  default: d.erase(v.first, v.second - v.first); if (v.first > 0 && v.first < d.size() && d[v.first - 1] == ',' && g.p(0.8)) d.erase(v.first - 1, 1); else if (v.first < d.size() && d[v.first] == ',') d.erase(v.first, 1);
  }
}
static void bytes(Rng& g, std::string& d)
{
  if (d.empty()) { d = token(g); return; }
  size_t a = (size_t)g.i(0, (long long)d.size() - 1);
  switch (g.i(0, 6))
  {
  case 0: d.resize(a); break;
  case 1: d[a] = (char)g.i(0, 255); break;
  case 2: d[a] ^= (char)(1 << g.i(0, 7)); break;
  case 3: d.erase(a, (size_t)g.i(1, 20)); break;
  case 4: { std::string s = d.substr(a, (size_t)g.i(1, 60)); d.insert((size_t)g.i(0, (long long)d.size()), s); break; }
  case 5: { static const char* c = "{}[],:\"\\"; d.insert(a, 1, c[g.i(0, 7)]); break; }
  default: { long long n = g.i(1, 8); for (long long k = 0; k < n; ++k) d.insert(a, 1, (char)g.i(0, 255)); }
  }
}
static void feed(int what, const std::string& path)
{
  int err = 0;
  if (what == 0) ParseGeojson(path, err);
  else if (what == 1) GetNavMessages(path);
  else CreateSettingsFromJson(path, err);
}
#ifdef FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* p, size_t n)
{
  static MemFile f; static bool q = (quiet(), true); (void)q;
  if (!n) return 0;
  f.set((const char*)p + 1, n - 1);
  try { feed(p[0] % 3, f.path); } catch (const std::exception&) {}
  return 0;
}
#else
static void hostile(Rng& g, MemFile& f)
{
  int what = (int)g.i(0, 2);
  std::string doc;
  if (what == 0) { TrMap m; doc = makeMap(g, m); } else if (what == 1) { std::vector<TrMsg> l; doc = makeLog(g, l); } else { TrSet t; doc = makeSettings(g, t); }
  if (g.p(0.02)) { doc.clear(); long long n = g.i(0, 200); for (long long k = 0; k < n; ++k) doc += (char)g.i(0, 255); }
  int rounds = (int)g.i(1, 12);
  const std::string orig = doc;
  for (int k = 0; k < rounds; ++k)
  {
    if (g.p(0.5)) doc = orig;
    int m = g.p(0.4) ? (int)g.i(2, 4) : 1;
    for (int q = 0; q < m; ++q) { if (g.p(0.8)) confuse(g, doc); else bytes(g, doc); }
    if (doc.size() > 300000) doc.resize(300000);
    int w = g.p(0.97) ? what : (int)g.i(0, 2);
    f.set(doc); event();
    std::string out = "read";
    try { feed(w, f.path); }
    catch (const std::exception& e) { out = "refused"; }
    catch (...) { violation("strange-exception", "something that is no standard exception was thrown"); out = "strange"; }
    note(fmt("%s %s", w == 0 ? "map" : w == 1 ? "log" : "settings", out.c_str()));
    distinct(hashStr(doc));
    if (out == "refused") doc = orig;
  }
  if (ctx().cur % 2000 == 3) sample(fmt("document of %zu bytes", doc.size()));
}
int main(int argc, char** argv)
{
  for (int k = 1; k + 1 < argc; ++k)
    if (!strcmp(argv[k], "--corpus"))
    {   // seeds for the coverage-guided run
      std::string dir = argv[k + 1]; Rng g(strtoull(getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1", nullptr, 10));
      for (int n = 0; n < 60; ++n)
      {
        std::string d; TrMap m; std::vector<TrMsg> l; TrSet t; int tries = 0;
        do { d = n % 3 == 0 ? makeMap(g, m = TrMap()) : n % 3 == 1 ? makeLog(g, l = {}) : makeSettings(g, t = TrSet()); } while (d.size() > 5000 && ++tries < 50);
        FILE* o = fopen(fmt("%s/seed%d", dir.c_str(), n).c_str(), "wb"); if (!o) return 1;
        fputc(n % 3, o); fwrite(d.data(), 1, d.size(), o); fclose(o);
      }
      return 0;
    }
  quiet();
  static MemFile f;
  return runCases(argc, argv, [](long long, Rng& g) {
    const std::string& a = ctx().arg;
    if (a == "map") checkMap(g, f); else if (a == "log") checkLog(g, f); else if (a == "settings") checkSettings(g, f); else hostile(g, f);
  });
}
#endif
