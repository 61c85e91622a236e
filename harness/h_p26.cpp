// P26: triangulation of reference points.
#include "gen.hpp"
#include "triangulation.h"
#include "knn/knn_utils.h"
using namespace H;
using namespace G;
using R::P2;
typedef long double LD;
static LD orient(P2 a, P2 b, P2 c) { return ((LD)b.x - a.x) * ((LD)c.y - a.y) - ((LD)b.y - a.y) * ((LD)c.x - a.x); }
static bool circum(P2 a, P2 b, P2 c, P2& o, double& r)
{
  LD d = 2 * orient(a, b, c);
  if (fabsl(d) < 1e-9L) return false;
  LD bx = (LD)b.x - a.x, by = (LD)b.y - a.y, cx = (LD)c.x - a.x, cy = (LD)c.y - a.y;
  LD ux = (cy * (bx * bx + by * by) - by * (cx * cx + cy * cy)) / d, uy = (bx * (cx * cx + cy * cy) - cx * (bx * bx + by * by)) / d;
  o = {(double)(a.x + ux), (double)(a.y + uy)}; r = (double)sqrtl(ux * ux + uy * uy); return true;
}
typedef std::set<std::string> T3;
static void check(const std::vector<std::pair<std::string, P2>>& pts, double maxEdge, const std::vector<std::array<std::string, 3>>& tri, const char* tag, bool general)
{
  std::map<std::string, P2> at; for (auto& p : pts) at[p.first] = p.second;
  std::set<T3> seen;
  std::vector<std::array<P2, 3>> ok;
  for (auto& t : tri)
  {
    event();
    T3 s(t.begin(), t.end());
    bool known = true; for (auto& i : t) known = known && at.count(i);
    if (s.size() != 3 || !known) { violation(std::string(tag) + "corners", fmt("triangle %s %s %s is not made of three reference points", t[0].c_str(), t[1].c_str(), t[2].c_str())); continue; }
    CHECK_THAT(seen.insert(s).second, std::string(tag) + "repeated", "triangle %s %s %s is repeated", t[0].c_str(), t[1].c_str(), t[2].c_str());
    P2 a = at[t[0]], b = at[t[1]], c = at[t[2]];
    double e = std::max(R::hyp(a.x - b.x, a.y - b.y), std::max(R::hyp(c.x - b.x, c.y - b.y), R::hyp(a.x - c.x, a.y - c.y)));
    CHECK_THAT(e <= maxEdge * (1 + 1e-9) + 1e-6, std::string(tag) + "long-edge", "an edge of %.6f exceeds %.6f", e, maxEdge);
    ok.push_back({a, b, c});
    if (!general) continue;
    P2 o; double r;
    if (!circum(a, b, c, o, r) || r > 1e5) { skip(); continue; }
    for (auto& p : pts)
    {
      if (s.count(p.first)) continue;
      double d = R::hyp(p.second.x - o.x, p.second.y - o.y);
      double area2 = std::fabs((double)orient(a, b, c));
      if (d < r && area2 * area2 * (r * r - d * d) < 1e-5) { skip(); continue; }     // within rounding of the circle
      CHECK_THAT(d > r - 1e-5 * (1 + r), std::string(tag) + "not-delaunay", "reference point %s lies %.6f inside the circle of radius %.6f", p.first.c_str(), r - d, r);
    }
  }
  if (!general) return;
  // no overlap: a point strictly inside one triangle is in no other one
  for (size_t i = 0; i < ok.size(); ++i)
  {
    P2 m{(ok[i][0].x + ok[i][1].x + ok[i][2].x) / 3, (ok[i][0].y + ok[i][1].y + ok[i][2].y) / 3};
    for (size_t j = 0; j < ok.size(); ++j) if (i != j)
    {
      LD p = orient(ok[j][0], ok[j][1], m), q = orient(ok[j][1], ok[j][2], m), w = orient(ok[j][2], ok[j][0], m);
      bool in = (p > 1e-6L && q > 1e-6L && w > 1e-6L) || (p < -1e-6L && q < -1e-6L && w < -1e-6L);
      CHECK_THAT(!in, std::string(tag) + "overlap", "two triangles overlap at (%.4f,%.4f)", m.x, m.y);
    }
  }
  // completeness
  double x0 = 1e300, y0 = 1e300, x1 = -1e300, y1 = -1e300;
  for (auto& p : pts) { x0 = std::min(x0, p.second.x); x1 = std::max(x1, p.second.x); y0 = std::min(y0, p.second.y); y1 = std::max(y1, p.second.y); }
  long long must = 0;
  for (size_t i = 0; i < pts.size(); ++i) for (size_t j = i + 1; j < pts.size(); ++j) for (size_t k = j + 1; k < pts.size(); ++k)
  {
    P2 a = pts[i].second, b = pts[j].second, c = pts[k].second, o; double r;
    double e = std::max(R::hyp(a.x - b.x, a.y - b.y), std::max(R::hyp(c.x - b.x, c.y - b.y), R::hyp(a.x - c.x, a.y - c.y)));
    if (e > maxEdge - 1e-6 || !circum(a, b, c, o, r)) continue;
    if (o.x - r < x0 - 9 || o.x + r > x1 + 9 || o.y - r < y0 - 9 || o.y + r > y1 + 9) continue;
    bool empty = true, amb = false;
    for (auto& p : pts)
    {
      if (&p == &pts[i] || &p == &pts[j] || &p == &pts[k]) continue;
      double d = R::hyp(p.second.x - o.x, p.second.y - o.y);
      if (std::fabs(d - r) < 1e-3 * (1 + r)) amb = true;
      if (d < r) empty = false;
    }
    if (amb || !empty) continue;
    must++;
    CHECK_THAT(seen.count({pts[i].first, pts[j].first, pts[k].first}), std::string(tag) + "missing", "the Delaunay triangle %s %s %s of %zu points is missing (circle radius %.4f)", pts[i].first.c_str(), pts[j].first.c_str(), pts[k].first.c_str(), pts.size(), r);
  }
  note("delaunay_required", must); note("triangles", (long long)tri.size());
}
static std::vector<std::pair<std::string, P2>> points(Rng& g, int n, double W, double Hh, bool& general)
{
  std::vector<std::pair<std::string, P2>> v; general = true;
  int kind = (int)g.i(0, 5);
  if (kind == 5 && n > 4) { general = false; for (int k = 0; k < n; ++k) v.push_back({"", {W * (k + 0.5) / n, Hh / 2}}); }          // collinear
  else if (kind == 4) { int s = (int)std::ceil(std::sqrt((double)n)); for (int k = 0; k < n; ++k) v.push_back({"", {W * (k % s + 0.5 + g.r(-0.2, 0.2)) / s, Hh * (k / s + 0.5 + g.r(-0.2, 0.2)) / s}}); }
  else if (kind == 3) { for (int k = 0; k < n; ++k) v.push_back({"", {W * 0.5 + W * 0.1 * g.g(), Hh * 0.5 + Hh * 0.1 * g.g()}}); }
  else for (int k = 0; k < n; ++k) v.push_back({"", {g.r(0, W), g.r(0, Hh)}});
  // general position: no two points close together
  std::vector<std::pair<std::string, P2>> o;
  for (auto& p : v)
  {
    bool close = false; for (auto& q : o) close = close || R::hyp(p.second.x - q.second.x, p.second.y - q.second.y) < 0.3;
    if (!close) { p.first = fmt("%c%d", 'a' + (int)g.i(0, 25), (int)o.size()); o.push_back(p); }
  }
  return o;
}
int main(int argc, char** argv)
{
  return runCases(argc, argv, [](long long k, Rng& g) {
    bool direct = ctx().arg != "map";
    if (direct)
    {
      double W = g.pickd({5, 20, 60, 200}) * g.r(0.5, 1.5), Hh = W * g.r(0.3, 1.5); bool general;
      auto pts = points(g, (int)g.i(0, g.p(0.1) ? 45 : 16), W, Hh, general);
      double maxEdge = std::max(W, Hh) * (g.p(0.4) ? g.r(0.2, 0.8) : 1);
      auto tri = [&](const std::vector<std::pair<std::string, P2>>& v)
      {
        std::vector<nc::TriangleVertex> tv; for (auto& p : v) tv.push_back(nc::TriangleVertex(p.second.x, p.second.y, nc::ReferencePointId(p.first)));
        std::vector<std::array<std::string, 3>> out;
        for (auto& t : nc::TriangulateVertices(tv, maxEdge)) out.push_back({t.getA().id.value, t.getB().id.value, t.getC().id.value});
        return out;
      };
      auto t1 = tri(pts);
      check(pts, maxEdge, t1, "", general);
      if (pts.size() < 3) CHECK_THAT(t1.empty(), "few-points", "triangles of %zu points", pts.size());
      auto s = pts; g.shuffle(s); auto t2 = tri(s);
      if (general)
      {
        // order independence, as sets of corners, unless some triangle is nearly ambiguous
        bool amb = false;
        auto near4 = [&](const std::vector<std::array<std::string, 3>>& t)
        {
          std::map<std::string, P2> at; for (auto& p : pts) at[p.first] = p.second;
          double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
          for (auto& p : pts) { x0 = std::min(x0, p.second.x); x1 = std::max(x1, p.second.x); y0 = std::min(y0, p.second.y); y1 = std::max(y1, p.second.y); }
          for (auto& q : t)
          {
            P2 o; double r; if (!circum(at[q[0]], at[q[1]], at[q[2]], o, r)) { amb = true; continue; }
            if (r > 1e4) amb = true;
            for (auto& p : pts) { if (p.first == q[0] || p.first == q[1] || p.first == q[2]) continue; if (std::fabs(R::hyp(p.second.x - o.x, p.second.y - o.y) - r) < 1e-3 * (1 + r)) amb = true; }
            // slivers at the hull depend on the far-away helper points, too
            if (o.x - r < x0 - 9 || o.x + r > x1 + 9 || o.y - r < y0 - 9 || o.y + r > y1 + 9) continue;
          }
        };
        near4(t1); near4(t2);
        std::set<T3> a, b; for (auto& q : t1) a.insert(T3(q.begin(), q.end())); for (auto& q : t2) b.insert(T3(q.begin(), q.end()));
        if (amb) skip();
        else CHECK_THAT(a == b, "order", "the triangulation of %zu points depends on their order (%zu, %zu triangles)", pts.size(), a.size(), b.size());
      }
      distinct(Hash().l((long long)pts.size()).d(W).d(maxEdge).h);
      sample(fmt("%zu points in %.0fx%.0f: %zu triangles", pts.size(), W, Hh, t1.size()));
    }
    else
    {
      // whole maps: every level triangulated on its own
      MapOpt o; o.minLevels = 2; o.maxLevels = 4; o.graph = false; o.maxRp = 14; Map m = genMap(g, o);
      std::map<std::string, bool> general;
      for (auto& l : m.lv)
      {
        bool gen; auto pts = points(g, g.p(0.2) ? (int)g.i(0, 3) : (int)g.i(4, 14), l.W, l.Hh, gen);
        std::map<std::string, R::Stat> fp; if (!l.rps.empty()) fp = l.rps[0].fp;
        l.rps.clear(); for (auto& p : pts) { R::Rp r; r.id = p.first + "@" + l.id; r.x = p.second.x; r.y = p.second.y; r.fp = fp; l.rps.push_back(r); }
        general[l.id] = gen;
      }
      auto t = nc::triangulate(collector(m));
      for (auto& l : m.lv)
      {
        auto it = t.find(nc::LevelId(l.id));
        std::vector<std::pair<std::string, P2>> pts; for (auto& r : l.rps) pts.push_back({r.id, {r.x, r.y}});
        std::vector<std::array<std::string, 3>> tri;
        if (it != t.end()) for (auto& q : it->second) tri.push_back({q.rp1.value, q.rp2.value, q.rp3.value});
        if (pts.size() <= 3) { note("small_levels"); if (!tri.empty()) check(pts, std::max(l.W, l.Hh), tri, "map-", general[l.id]); continue; }
        if (!general[l.id]) note("degenerate_levels");
        check(pts, std::max(l.W, l.Hh), tri, "map-", general[l.id]);
      }
      for (auto& kv : t) CHECK_THAT(m.byId(kv.first.value), "map-level", "triangles for level '%s' not on the map", kv.first.value.c_str());
      distinct(Hash().s(m.lv[0].id).d(m.lv[0].W).l(k).h);
    }
  });
}
