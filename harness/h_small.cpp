// P47: the small public types: route graphs, signal models, identifiers, debug states.
#include "common.hpp"
#include <stdexcept>
#include <functional>
#include <memory>
#include <list>
#include <algorithm>
#include <navigine/navigation-core/graph.h>
#include <navigine/navigation-core/transmitter.h>
#include <navigine/navigation-core/reference_point.h>
#include <navigine/navigation-core/radiomap.h>
#include <navigine/navigation-core/level.h>
#include <navigine/navigation-core/geolevel.h>
#include <navigine/navigation-core/navigation_output.h>
#include <navigine/navigation-core/navigation_input.h>
#include <navigine/navigation-core/level_collector.h>
#include <navigine/navigation-core/navigation_state.h>
using namespace H;
using namespace navigine::navigation_core;

static void graph(Rng& g)
{
  Graph<XYPoint> q; std::vector<XYPoint> v; std::set<std::pair<int, int>> e; std::vector<Graph<XYPoint>> copies; std::vector<size_t> sizes;
  int ops = (int)g.i(5, 60), refused = 0, repeated = 0;
  for (int k = 0; k < ops; ++k)
  {
    if (v.empty() || g.p(0.45))
    {
      XYPoint p = !v.empty() && g.p(0.1) ? v.back() : XYPoint(g.r(-50, 50), g.r(-50, 50));
      auto x = q.addVertex(p); v.push_back(p);
      CHECK_THAT(x.id == (int)v.size() - 1 && x.point.x == p.x && x.point.y == p.y, "graph:add", "vertex %zu was added as %d (%g,%g)", v.size() - 1, x.id, x.point.x, x.point.y);
    }
    else
    {
      int n = (int)v.size(), a = (int)g.i(-2, n + 1), b = g.p(0.1) ? a : (int)g.i(-2, n + 1);
      if (g.p(0.02)) a = (int)g.pickd({2147483647, -2147483648.0});
      bool ok = a >= 0 && a < n && b >= 0 && b < n, threw = false;
      try { q.addEdge(a, b); } catch (const std::logic_error&) { threw = true; }
      CHECK_THAT(threw == !ok, "graph:edge", "an edge %d-%d among %d vertices was %s", a, b, n, threw ? "refused" : "accepted");
      if (ok) { if (!e.insert({std::min(a, b), std::max(a, b)}).second) repeated++; } else refused++;
    }
    event();
    if (g.p(0.05)) { copies.push_back(q); sizes.push_back(v.size()); }
    int i = (int)g.i(-3, (long long)v.size() + 3);
    bool in = i >= 0 && i < (int)v.size(), threw = false;
    CHECK_THAT(q.hasVertex(i) == in, "graph:has", "hasVertex(%d) is %d with %zu vertices", i, (int)q.hasVertex(i), v.size());
    try
    {
      auto x = q.vertex(i); auto y = q.getVertex(i);
      CHECK_THAT(x.id == i && y.id == i && x.point.x == v[(size_t)i].x && y.point.y == v[(size_t)i].y, "graph:vertex", "vertex %d is given as %d", i, x.id);
    }
    catch (const std::out_of_range&) { threw = true; }
    CHECK_THAT(threw == !in, "graph:vertex", "vertex %d of %zu", i, v.size());
  }
  std::vector<XYPoint> w; int id = 0; bool dense = true;
  for (auto it = q.vertexBegin(); it != q.vertexEnd(); ++it) { dense = dense && it->id == id++; w.push_back(it->point); }
  bool same = w.size() == v.size(); for (size_t k = 0; same && k < v.size(); ++k) same = w[k].x == v[k].x && w[k].y == v[k].y;
  CHECK_THAT(dense && same, "graph:vertices", "%zu vertices listed of %zu, or out of order", w.size(), v.size());
  std::set<std::pair<int, int>> f; size_t n = 0;
  for (auto it = q.edgesBegin(); it != q.edgesEnd(); ++it, ++n) f.insert({std::min(it->first, it->second), std::max(it->first, it->second)});
  CHECK_THAT(f == e && n == e.size(), "graph:edges", "%zu edges listed, %zu added", n, e.size());
  for (size_t k = 0; k < copies.size(); ++k) CHECK_THAT((size_t)(copies[k].vertexEnd() - copies[k].vertexBegin()) == sizes[k], "graph:copy", "a copy changed with its original");
  note("refused_edges", refused); note("repeated_edges", repeated); note("graphs");
  if (!e.empty()) { Hash h; for (auto& x : e) h.l(x.first).l(x.second); distinct(h.h); }
}

static void model(Rng& g)
{
  PathlossModel m{g.r(-100, -20), g.p(0.1) ? 0 : g.r(0.1, 40), g.r(-20, 20)};
  double last = std::numeric_limits<double>::infinity();
  std::vector<double> rs; for (int k = 0; k < 20; ++k) rs.push_back(g.p(0.3) ? g.pickd({0, 0.01, 0.005, 0.0100001, 0.0099999, 1, -3, 1e-300}) : std::exp(g.r(-7, 9)));
  std::sort(rs.begin(), rs.end());
  for (double r : rs)
  {
    double v = m(r), w = m.A - m.B * std::log(std::max(r, 0.01)); event();
    CHECK_THAT(near(v, w, 1e-12), "model:value", "rssi at %.9g m is %.12g, should be %.12g", r, v, w);
    CHECK_THAT(v <= last, "model:falls", "rssi grows with distance at %.9g m", r);
    last = v;
    if (m.B > 0.5 && r > 0.02) { double d = std::exp((m.A - v) / m.B); CHECK_THAT(near(d, r, 1e-9), "model:inverse", "distance %.9g comes back as %.9g", r, d); }
  }
  CHECK_THAT(near(m(1), m.A, 1e-12), "model:reference", "rssi at one metre is %.9g, A is %.9g", m(1), m.A);
  note("models"); Hash h; h.d(m.A).d(m.B); distinct(h.h);
}

template <class Id> static void ids(Rng& g, const char* what)
{
  std::vector<std::string> s; for (int k = 0; k < 12; ++k) { std::string x; for (long long n = g.i(0, 4); n > 0; --n) x += (char)(g.p(0.7) ? g.i('a', 'c') : g.i(0, 255)); s.push_back(x); }
  std::set<Id> o; std::set<std::string> t; std::unordered_set<size_t> dummy;
  for (auto& a : s)
  {
    Id x(a); o.insert(x); t.insert(a);
    CHECK_THAT(x.isValid() == !a.empty() && x.value == a, "identifier:valid", "%s '%s' is %s", what, a.c_str(), x.isValid() ? "valid" : "invalid");
    for (auto& b : s) { Id y(b); event(); CHECK_THAT((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b), "identifier:order", "%s '%s' and '%s'", what, a.c_str(), b.c_str()); }
  }
  CHECK_THAT(o.size() == t.size(), "identifier:set", "%zu different of %zu", o.size(), t.size());
  CHECK_THAT(!Id().isValid(), "identifier:none", "a %s that was never given is valid", what);
}

static void radiomap(Rng& g)
{
  XYReferencePoints rp; std::vector<std::string> names; std::set<std::string> seen;
  int n = (int)g.i(0, 20);
  for (int k = 0; k < n; ++k)
  {
    std::string id = fmt("r%lld", g.i(0, 400)); if (!seen.insert(id).second) continue;
    std::map<TransmitterId, SignalStatistics> f; for (long long q = g.i(0, 5); q > 0; --q) f[TransmitterId(fmt("t%lld", g.i(0, 9)))] = SignalStatistics{TransmitterType::WIFI, g.r(-99, -20), g.r(0, 9), (size_t)g.i(1, 50)};
    rp.emplace_back(ReferencePointId(id), XYPoint(g.r(0, 50), g.r(0, 50)), f); names.push_back(id);
  }
  Radiomap m(rp);
  std::unique_ptr<Radiomap> c(new Radiomap(m)); Radiomap d = *c; c.reset();
  CHECK_THAT(d.referencePoints().size() == rp.size(), "radiomap:size", "%zu reference points of %zu", d.referencePoints().size(), rp.size());
  for (size_t k = 0; k < rp.size(); ++k)
  {
    event();
    if (!d.hasReferencePoint(rp[k].id)) { violation("radiomap:has", "reference point " + names[k] + " lost"); continue; }
    auto x = d.getReferencePoint(rp[k].id); bool same = x.id == rp[k].id && x.point.x == rp[k].point.x && x.point.y == rp[k].point.y && x.fingerprints.size() == rp[k].fingerprints.size();
    for (auto& f : rp[k].fingerprints) { auto it = x.fingerprints.find(f.first); same = same && it != x.fingerprints.end() && it->second.mean == f.second.mean && it->second.variance == f.second.variance && it->second.nMeasurements == f.second.nMeasurements && it->second.type == f.second.type; }
    CHECK_THAT(same, "radiomap:get", "reference point %s came back as something else", names[k].c_str());
  }
  bool threw = false; try { d.getReferencePoint(ReferencePointId("nowhere")); } catch (const std::exception&) { threw = true; }
  CHECK_THAT(!d.hasReferencePoint(ReferencePointId("nowhere")) && threw, "radiomap:strange", "a reference point that was never added is there");
  note("radiomaps");
}

static void state(Rng& g)
{
  NavigationState s;
  CHECK_THAT(s.getStepCounter() == 0 && s.getStepLen() == 0 && s.getHeading() == 0 && s.getParticles().empty() && s.getLevelRadioMeasurements().empty() && s.getLikelihoodMapPoints().empty() && s.getParticleWeights().empty() && s.getLikelihoodMapWeights().empty(), "state:empty", "a new debug state is not empty");
  int n = (int)g.i(0, 100000); double l = g.r(0, 3); XYPoint a(g.r(-99, 99), g.r(-99, 99)), b(g.r(-99, 99), g.r(-99, 99));
  s.setStepCounter(n); s.setStepLen(l); s.setIndoorPosition(a); s.setOutdoorPosition(b); event();
  CHECK_THAT(s.getStepCounter() == n && s.getStepLen() == l, "state:steps", "%d steps of %.9g m came back as %d of %.9g", n, l, s.getStepCounter(), s.getStepLen());
  CHECK_THAT(s.getIndoorPosition().x == a.x && s.getIndoorPosition().y == a.y && s.getOutdoorPosition().x == b.x && s.getOutdoorPosition().y == b.y, "state:positions", "positions of a debug state are mixed up");
  std::vector<XYParticle> p((size_t)g.i(0, 5)), q((size_t)g.i(0, 5)); std::vector<double> w((size_t)g.i(0, 5), 0.5), v((size_t)g.i(0, 5), 0.25); RadioMeasurementsData r((size_t)g.i(0, 5));
  double h = g.r(-4, 4); NavigationState t(p, w, r, q, v, h, l, n);
  CHECK_THAT(t.getParticles().size() == p.size() && t.getParticleWeights() == w && t.getLevelRadioMeasurements().size() == r.size() && t.getLikelihoodMapPoints().size() == q.size() && t.getLikelihoodMapWeights() == v && t.getHeading() == h && t.getStepLen() == l && t.getStepCounter() == n, "state:made", "a debug state does not hold what it was made of");
  note("states");
}

static void fresh(Rng& g)
{
  // what was just made is empty, wherever it was made
  alignas(16) static unsigned char room[4096]; memset(room, (int)g.i(1, 255), sizeof room);
#define FRESH(T) (*new (room) T())
  { auto& p = FRESH(XYPoint); CHECK_THAT(p.x == 0 && p.y == 0, "fresh:point", "a new point is (%g,%g)", p.x, p.y); }
  { auto& p = FRESH(XYZPoint); CHECK_THAT(p.x == 0 && p.y == 0 && p.z == 0, "fresh:point", "a new point is (%g,%g,%g)", p.x, p.y, p.z); }
  { auto& p = FRESH(GeoPoint); CHECK_THAT(p.latitude == 0 && p.longitude == 0, "fresh:place", "a new place is (%g,%g)", p.latitude, p.longitude); }
  { auto& p = FRESH(GeoPoint3D); CHECK_THAT(p.latitude == 0 && p.longitude == 0 && p.altitude == 0, "fresh:place", "a new place is (%g,%g,%g)", p.latitude, p.longitude, p.altitude); }
  { auto& o = FRESH(NavigationOutput); CHECK_THAT(o.status == NAVIGATION_ERROR && !o.posLevel.isValid() && o.posLatitude == 0 && o.posLongitude == 0 && o.posAltitude == 0 && o.posR == 0 && o.posOrientation == 0 && o.provider == Provider::NONE, "fresh:output", "a new output is not an error without a position"); o.~NavigationOutput(); }
  { auto& m = FRESH(Measurement); CHECK_THAT(m.ts == 0, "fresh:message", "a new message is of %lld", m.ts); m.~Measurement(); }
  { auto& l = FRESH(GeoLevel); CHECK_THAT(l.altitude == 0 && !l.id.isValid() && l.transmitters.empty() && l.referencePoints.empty() && l.graph.vertexBegin() == l.graph.vertexEnd(), "fresh:level", "a new level is not empty"); l.~GeoLevel(); }
#undef FRESH
  double v[3] = {g.r(-90, 90), g.r(-180, 180), g.r(-9, 9)};
  GeoPoint3D q(v[0], v[1], v[2]); XYZPoint z(v[0], v[1], v[2]); GeoPoint a(v[0], v[1]); XYPoint b(v[0], v[1]);
  CHECK_THAT(q.latitude == v[0] && q.longitude == v[1] && q.altitude == v[2] && z.x == v[0] && z.y == v[1] && z.z == v[2] && a.latitude == v[0] && a.longitude == v[1] && b.x == v[0] && b.y == v[1], "fresh:made", "a point does not hold what it was made of");
  std::vector<std::string> n; for (int k = 0; k < 6; ++k) n.push_back(fmt("%lld", g.i(0, 20)));
  for (auto& x : n) for (auto& y : n)
  {
    Transmitter<XYPoint> s(TransmitterId(x), b, PathlossModel{1, 2, 3}, TransmitterType::WIFI), t(TransmitterId(y), XYPoint(), PathlossModel{4, 5, 6}, TransmitterType::BEACON); event();
    CHECK_THAT((s == t) == (x == y) && (s < t) == (x < y), "transmitter:order", "transmitters '%s' and '%s'", x.c_str(), y.c_str());
    CHECK_THAT(s.point.x == b.x && s.pathlossModel.A == 1 && s.pathlossModel.B == 2 && s.pathlossModel.power == 3 && s.type == TransmitterType::WIFI && s.id.value == x, "transmitter:made", "a transmitter does not hold what it was made of");
  }
  note("new_values");
}

int main(int argc, char** argv)
{
  return runCases(argc, argv, [](long long, Rng& g)
  {
    graph(g); model(g); fresh(g); radiomap(g); state(g); ids<LevelId>(g, "level"); ids<TransmitterId>(g, "transmitter"); ids<ReferencePointId>(g, "reference point");
    if (ctx().cur % 500 == 1) sample("a graph grown by random operations, a signal model over 20 distances, a radio map, identifiers and a debug state");
  });
}
