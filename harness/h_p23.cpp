// P23: a map keeps all its content when converted to the local frame.
#include "gen.hpp"
using namespace H;
using namespace G;
static bool ringMatch(const R::Ring& r, std::vector<R::P2> q, double tol)
{
  if (q.size() > 1 && R::hyp(q.front().x - q.back().x, q.front().y - q.back().y) < tol) q.pop_back();
  size_t n = r.pts.size();
  if (q.size() != n) return false;
  for (int dir = 0; dir < 2; ++dir)
    for (size_t s = 0; s < n; ++s)
    {
      bool ok = true;
      for (size_t k = 0; k < n && ok; ++k)
      {
        const auto& a = r.pts[k]; const auto& b = q[(dir ? s + n - k : s + k) % n];
        ok = R::hyp(a.x - b.x, a.y - b.y) < tol;
      }
      if (ok) return true;
    }
  return false;
}
template <class RingT> static std::vector<R::P2> pts(const RingT& r) { std::vector<R::P2> v; for (auto& p : r) v.push_back({p.x(), p.y()}); return v; }
int main(int argc, char** argv)
{
  return runCases(argc, argv, [](long long, Rng& g) {
    MapOpt o; o.maxLevels = 5; o.farApart = g.p(0.5); o.maxSize = g.pickd({60, 60, 300, 2000});
    Map m = genMap(g, o);
    // the same level more than once is not a well-formed map; other content may repeat
    auto c = nc::createLevelCollector();
    std::vector<std::string> added;
    for (auto& l : m.lv)
    {
      auto gl = geoLevel(l, g.p(0.5));
      if (g.p(0.15))
      {
        auto b = gl.geometry.boundingBox();
        gl.geometry = nc::LevelGeometry(gl.geometry.allowedArea(), nc::Box(b.max_corner(), b.min_corner()));
        note("inverted_box");
      }
      CHECK_THAT(!c->hasLevel(nc::LevelId(l.id)), "level-before", "level %s found before it was added", l.id.c_str());
      c->addGeoLevel(gl);
      added.push_back(l.id);
    }
    CHECK_THAT(c->levels().size() == m.lv.size(), "level-count", "%zu levels for %zu", c->levels().size(), m.lv.size());
    Hash h;
    for (auto& l : m.lv)
    {
      double tol = 1e-6 * std::max(1.0, std::max(l.W, l.Hh) / 100) + 2e-7;   // degrees carry about 1e-9 m per ulp
      h.s(l.id).d(l.W).l((long long)l.rps.size());
      event(10);
      if (!c->hasLevel(nc::LevelId(l.id))) { violation("level-missing", "level " + l.id + " not found"); continue; }
      const nc::Level& q = c->level(nc::LevelId(l.id));
      CHECK_THAT(q.id().value == l.id, "level-id", "level(%s) is %s", l.id.c_str(), q.id().value.c_str());
      CHECK_THAT(std::fabs(q.bindingPoint().latitude - l.bindLat) < 1e-11 * 180 + 1e-12 && std::fabs(q.bindingPoint().longitude - l.bindLon) < 1e-9, "binding",
                 "level %s bound at %.12f %.12f, south-west corner is %.12f %.12f", l.id.c_str(), q.bindingPoint().latitude, q.bindingPoint().longitude, l.bindLat, l.bindLon);
      auto& b = q.geometry().boundingBox();
      CHECK_THAT(std::fabs(b.min_corner().x()) < tol && std::fabs(b.min_corner().y()) < tol && std::fabs(b.max_corner().x() - l.W) < tol && std::fabs(b.max_corner().y() - l.Hh) < tol,
                 "box", "level %s box (%.7f,%.7f)-(%.7f,%.7f) wanted (0,0)-(%.7f,%.7f)", l.id.c_str(), b.min_corner().x(), b.min_corner().y(), b.max_corner().x(), b.max_corner().y(), l.W, l.Hh);
      for (auto& t : l.txs)
      {
        nc::TransmitterId id(t.id);
        if (!q.containsTransmitter(id)) { violation("tx-missing", "transmitter " + t.id + " of level " + l.id + " not found"); continue; }
        auto& u = q.transmitter(id);
        CHECK_THAT(u.id.value == t.id && u.type == t.type, "tx-identity", "transmitter %s: id %s type %d/%d", t.id.c_str(), u.id.value.c_str(), (int)u.type, (int)t.type);
        CHECK_THAT(u.pathlossModel.A == t.A && u.pathlossModel.B == t.B && u.pathlossModel.power == t.power, "tx-model", "transmitter %s: model %g %g %g wanted %g %g %g", t.id.c_str(), u.pathlossModel.A, u.pathlossModel.B, u.pathlossModel.power, t.A, t.B, t.power);
        CHECK_THAT(std::fabs(u.point.x - t.x) < tol && std::fabs(u.point.y - t.y) < tol, "tx-position", "transmitter %s at (%.7f,%.7f) wanted (%.7f,%.7f)", t.id.c_str(), u.point.x, u.point.y, t.x, t.y);
        CHECK_THAT(std::fabs(u.point.z - (l.altitude + t.alt)) < 1e-9, "tx-height", "transmitter %s height %.7f wanted %.7f+%.7f", t.id.c_str(), u.point.z, l.altitude, t.alt);
        event();
      }
      for (auto& w : m.lv) for (auto& t : w.txs)
        CHECK_THAT(q.containsTransmitter(nc::TransmitterId(t.id)) == (l.tx(t.id) != nullptr), "tx-elsewhere", "transmitter %s on level %s: %d", t.id.c_str(), l.id.c_str(), (int)q.containsTransmitter(nc::TransmitterId(t.id)));
      auto& rps = q.radiomap().referencePoints();
      CHECK_THAT(rps.size() == l.rps.size(), "rp-count", "level %s: %zu reference points for %zu", l.id.c_str(), rps.size(), l.rps.size());
      for (auto& r : l.rps)
      {
        event();
        const nc::ReferencePoint<nc::XYPoint>* f = nullptr;
        for (auto& s : rps) if (s.id.value == r.id) f = &s;
        if (!f || !q.radiomap().hasReferencePoint(nc::ReferencePointId(r.id))) { violation("rp-missing", "reference point " + r.id + " lost"); continue; }
        auto byId = q.radiomap().getReferencePoint(nc::ReferencePointId(r.id));
        CHECK_THAT(byId.id.value == r.id && byId.point.x == f->point.x && byId.point.y == f->point.y, "rp-index", "reference point %s found as %s", r.id.c_str(), byId.id.value.c_str());
        CHECK_THAT(std::fabs(f->point.x - r.x) < tol && std::fabs(f->point.y - r.y) < tol, "rp-position", "reference point %s at (%.7f,%.7f) wanted (%.7f,%.7f)", r.id.c_str(), f->point.x, f->point.y, r.x, r.y);
        bool same = f->fingerprints.size() == r.fp.size();
        for (auto& kv : r.fp)
        {
          auto it = f->fingerprints.find(nc::TransmitterId(kv.first));
          same = same && it != f->fingerprints.end() && it->second.mean == kv.second.mean && it->second.variance == kv.second.var && it->second.nMeasurements == kv.second.n;
        }
        CHECK_THAT(same, "rp-fingerprints", "fingerprints of %s differ", r.id.c_str());
      }
      CHECK_THAT(!q.radiomap().hasReferencePoint(nc::ReferencePointId("nope")), "rp-unknown", "an unknown reference point is found");
      // graph: vertices and edges by their places
      std::vector<R::P2> vs; for (auto it = q.graph().vertexBegin(); it != q.graph().vertexEnd(); ++it) vs.push_back({it->point.x, it->point.y});
      bool vok = vs.size() == l.gv.size();
      std::vector<int> at(l.gv.size(), -1);
      for (size_t k = 0; k < l.gv.size(); ++k)
        for (size_t j = 0; j < vs.size(); ++j)
          if (R::hyp(vs[j].x - l.gv[k].x, vs[j].y - l.gv[k].y) < tol) at[k] = (int)j;
      for (int a : at) vok = vok && a >= 0;
      CHECK_THAT(vok, "graph-vertices", "level %s: graph vertices differ (%zu for %zu)", l.id.c_str(), vs.size(), l.gv.size());
      if (vok)
      {
        std::set<std::pair<int, int>> want, got;
        for (auto& e : l.ge) { int a = at[(size_t)e.first], d = at[(size_t)e.second]; want.insert({std::min(a, d), std::max(a, d)}); }
        int idx = 0; std::map<int, int> pos; for (auto it = q.graph().vertexBegin(); it != q.graph().vertexEnd(); ++it) pos[it->id] = idx++;
        for (auto it = q.graph().edgesBegin(); it != q.graph().edgesEnd(); ++it)
        { int a = pos.count(it->first) ? pos[it->first] : -1, d = pos.count(it->second) ? pos[it->second] : -1; got.insert({std::min(a, d), std::max(a, d)}); }
        CHECK_THAT(want == got, "graph-edges", "level %s: graph edges differ (%zu for %zu)", l.id.c_str(), got.size(), want.size());
      }
      auto& area = q.geometry().allowedArea();
      CHECK_THAT(area.size() == l.zones.size(), "area-count", "level %s: %zu polygons for %zu", l.id.c_str(), area.size(), l.zones.size());
      for (auto& z : l.zones)
      {
        bool found = false;
        for (auto& p : area)
        {
          if (!ringMatch(z.outer, pts(p.outer()), tol)) continue;
          bool holes = p.inners().size() == z.holes.size();
          for (auto& hh : z.holes) { bool one = false; for (auto& in : p.inners()) one = one || ringMatch(hh, pts(in), tol); holes = holes && one; }
          found = found || holes;
        }
        CHECK_THAT(found, "area", "level %s: a polygon of %zu points and %zu holes is not kept", l.id.c_str(), z.outer.pts.size(), z.holes.size());
      }
      for (auto& t : l.txs)
      {
        auto f = c->findLevelByTransmitterId(nc::TransmitterId(t.id));
        const Lvl* w = m.levelOfTx(t.id);
        CHECK_THAT(f && f->value == w->id, "tx-level", "transmitter %s found on %s, first level with it is %s", t.id.c_str(), f ? f->value.c_str() : "none", w->id.c_str());
      }
    }
    for (int k = 0; k < 6; ++k)
    {
      std::string s = k == 0 ? "" : k == 1 ? m.lv[0].id + "x" : k == 2 ? m.lv[0].txs[0].id + "_" : H::fmt("none%d", k);
      bool tx = m.levelOfTx(s) != nullptr, lv = m.byId(s) != nullptr;
      CHECK_THAT((bool)c->findLevelByTransmitterId(nc::TransmitterId(s)) == tx, "unknown-tx", "unknown transmitter '%s' found", s.c_str());
      CHECK_THAT(c->hasLevel(nc::LevelId(s)) == lv, "unknown-level", "unknown level '%s' found", s.c_str());
    }
    distinct(h.h);
    sample(H::fmt("%zu levels, first %s %zu tx %zu rp %zu zones", m.lv.size(), m.lv[0].id.c_str(), m.lv[0].txs.size(), m.lv[0].rps.size(), m.lv[0].zones.size()));
  });
}
