// P25: a path touches barriers exactly when it leaves the allowed area (independent exact-ish segment oracle).
#include "gen.hpp"
using namespace H;
using namespace G;
using R::P2; using R::Ring; using R::Zone;
static double orient(P2 a, P2 b, P2 c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static bool cross(P2 a, P2 b, P2 c, P2 d)
{
  double o1 = orient(a, b, c), o2 = orient(a, b, d), o3 = orient(c, d, a), o4 = orient(c, d, b);
  return ((o1 > 0) != (o2 > 0)) && ((o3 > 0) != (o4 > 0));
}
static double segSeg(P2 a, P2 b, P2 c, P2 d)
{
  if (cross(a, b, c, d)) return 0;
  return std::min(std::min(R::segDist(a, b, c), R::segDist(a, b, d)), std::min(R::segDist(c, d, a), R::segDist(c, d, b)));
}
static double edgeDist(const Ring& r, P2 p) { double d = 1e300; size_t n = r.pts.size(); for (size_t k = 0; k < n; ++k) d = std::min(d, R::segDist(r.pts[k], r.pts[(k + 1) % n], p)); return d; }
// the least distance of the path to the ring's boundary
static double pathDist(const Ring& r, const std::vector<P2>& p)
{
  double d = 1e300; size_t n = r.pts.size();
  for (size_t k = 0; k < n; ++k)
  {
    if (p.size() == 1) d = std::min(d, R::segDist(r.pts[k], r.pts[(k + 1) % n], p[0]));
    for (size_t j = 0; j + 1 < p.size(); ++j) d = std::min(d, segSeg(p[j], p[j + 1], r.pts[k], r.pts[(k + 1) % n]));
  }
  return d;
}
static Ring star(Rng& g, double cx, double cy, double rmax)
{
  Ring r; int n = (int)g.i(3, 9); double a = g.r(0, 6.28);
  for (int k = 0; k < n; ++k) { double q = a + 6.283185307 * (k + g.r(0.1, 0.9)) / n, d = rmax * g.r(0.35, 1); r.pts.push_back({cx + d * std::cos(q), cy + d * std::sin(q)}); }
  // the centre is inside when consecutive angles are less than half a turn apart
  return r;
}
int main(int argc, char** argv)
{
  return runCases(argc, argv, [](long long, Rng& g) {
    std::vector<Zone> zs;
    int nz = (int)g.i(1, 4); bool axis = g.p(0.3), grid = g.p(0.4);
    for (int k = 0; k < nz; ++k)
    {
      Zone z; double cx = 30 + 50 * k + g.r(-2, 2) * (g.p(0.3) ? 10 : 1), cy = 30 + g.r(-10, 10);
      if (grid) { cx = std::round(cx); cy = std::round(cy); }
      if (axis || grid) { double a = grid ? (double)g.i(8, 22) : g.r(8, 22), b = grid ? (double)g.i(8, 22) : g.r(8, 22); z.outer = rect(cx - a, cy - b, cx + a, cy + b); }
      else z.outer = star(g, cx, cy, 24);
      int nh = (int)g.i(0, g.p(0.1) ? 40 : 4);
      for (int q = 0; q < nh; ++q)
      {
        double hx = cx + g.r(-12, 12), hy = cy + g.r(-12, 12);
        Ring h = g.p(0.5) ? star(g, hx, hy, g.r(0.5, 4)) : rect(hx, hy, hx + g.r(0.3, 4), hy + g.r(0.3, 4));
        bool inside = true;
        for (auto& p : h.pts) inside = inside && R::inRing(z.outer, p) && edgeDist(z.outer, p) > 0.1;
        for (size_t a = 0; a < h.pts.size() && inside; ++a) for (size_t b = 0; b < z.outer.pts.size(); ++b) if (cross(h.pts[a], h.pts[(a + 1) % h.pts.size()], z.outer.pts[b], z.outer.pts[(b + 1) % z.outer.pts.size()])) inside = false;
        for (auto& o : z.holes)     // holes of a valid polygon do not overlap
        {
          if (!inside) break;
          if (R::inRing(o, h.pts[0]) || R::inRing(h, o.pts[0])) inside = false;
          for (size_t a = 0; a < h.pts.size(); ++a) if (edgeDist(o, h.pts[a]) < 0.05) inside = false;
          for (size_t a = 0; a < h.pts.size(); ++a) for (size_t b = 0; b < o.pts.size(); ++b) if (cross(h.pts[a], h.pts[(a + 1) % h.pts.size()], o.pts[b], o.pts[(b + 1) % o.pts.size()])) inside = false;
        }
        if (inside) z.holes.push_back(h);
      }
      zs.push_back(z);
    }
    g.shuffle(zs);
    std::list<nc::Polygon> polys;
    size_t holes = 0;
    for (auto& z : zs)
    {
      nc::Polygon p;
      auto put = [&](auto& out, const Ring& r)
      {
        std::vector<P2> v = r.pts; if (g.p(0.5)) std::reverse(v.begin(), v.end());
        size_t s = (size_t)g.i(0, (long long)v.size() - 1); std::rotate(v.begin(), v.begin() + (long)s, v.end());
        for (auto& q : v) out.push_back(nc::Point(q.x, q.y));
        if (g.p(0.5)) out.push_back(nc::Point(v[0].x, v[0].y));
      };
      put(p.outer(), z.outer);
      for (auto& h : z.holes) { p.inners().push_back({}); put(p.inners().back(), h); holes++; }
      polys.push_back(p);
    }
    nc::LevelGeometry lg = nc::getGeometry(polys);
    CHECK_THAT(lg.allowedArea().size() == zs.size(), "zones-kept", "%zu zones for %zu", lg.allowedArea().size(), zs.size());
    {
      double x0 = 1e300, y0 = 1e300, x1 = -1e300, y1 = -1e300;
      for (auto& z : zs) for (auto& q : z.outer.pts) { x0 = std::min(x0, q.x); y0 = std::min(y0, q.y); x1 = std::max(x1, q.x); y1 = std::max(y1, q.y); }
      auto& b = lg.boundingBox();
      CHECK_THAT(b.min_corner().x() == x0 && b.min_corner().y() == y0 && b.max_corner().x() == x1 && b.max_corner().y() == y1, "box", "bounding box differs");
    }
    int touched = 0, clear = 0, near0 = 0;
    for (int q = 0; q < 80; ++q)
    {
      std::vector<P2> path;
      const Zone& z = zs[(size_t)g.i(0, (long long)zs.size() - 1)];
      auto rnd = [&]() -> P2 {
        double u = g.u();
        if (u < 0.15) return {g.r(-10, 60 + 50.0 * nz), g.r(-10, 70)};
        auto& a = z.outer.pts[(size_t)g.i(0, (long long)z.outer.pts.size() - 1)]; auto& b = z.outer.pts[(size_t)g.i(0, (long long)z.outer.pts.size() - 1)];
        auto& c = z.outer.pts[(size_t)g.i(0, (long long)z.outer.pts.size() - 1)];
        double s = g.u(), t = g.u(); if (s + t > 1) { s = 1 - s; t = 1 - t; }
        if (u < 0.35 && !z.holes.empty())
        { auto& h = z.holes[(size_t)g.i(0, (long long)z.holes.size() - 1)]; auto& e = h.pts[(size_t)g.i(0, (long long)h.pts.size() - 1)]; return {e.x + g.r(-2, 2), e.y + g.r(-2, 2)}; }
        return {a.x + s * (b.x - a.x) + t * (c.x - a.x), a.y + s * (b.y - a.y) + t * (c.y - a.y)};
      };
      int n = (int)g.i(1, 4); if (n == 1 && g.p(0.5)) n = 2;
      path.push_back(rnd());
      for (int k = 1; k < n; ++k)
      {
        if (g.p(0.6)) { P2 l = path.back(); path.push_back({l.x + g.r(-6, 6), l.y + g.r(-6, 6)}); }
        else path.push_back(rnd());
      }
      if (n == 1) path.push_back(path[0]);      // a standing point
      bool tie = false, inside = false;
      for (auto& w : zs)
      {
        double d = pathDist(w.outer, path);
        if (d < 1e-6 && d > 0) tie = true;
        bool all = true;
        for (auto& p : path) all = all && R::inRing(w.outer, p);
        if (d == 0) all = false; else if (!all && d < 1e-6) tie = true;
        for (auto& p : path) if (edgeDist(w.outer, p) < 1e-6) tie = true;
        for (auto& p : w.outer.pts) for (size_t j = 0; j + 1 < path.size(); ++j) if (R::segDist(path[j], path[j + 1], p) < 1e-6) tie = true;
        inside = inside || all;
      }
      bool hole = false;
      for (auto& w : zs) for (auto& h : w.holes)
      {
        double d = pathDist(h, path);
        if (d == 0 || R::inRing(h, path[0])) hole = true;
        if (d > 0 && d < 1e-6) tie = true;
        for (auto& p : h.pts) for (size_t j = 0; j + 1 < path.size(); ++j) if (R::segDist(path[j], path[j + 1], p) < 1e-6) tie = true;
        for (auto& p : path) if (edgeDist(h, p) < 1e-6) tie = true;
      }
      if (tie) { skip(); continue; }
      bool want = !inside || hole;
      nc::Linestring ls; for (auto& p : path) ls.push_back(nc::Point(p.x, p.y));
      bool got = lg.isPathTouchesBarriers(ls);
      std::reverse(ls.begin(), ls.end());
      bool back = lg.isPathTouchesBarriers(ls);
      event(2);
      (want ? touched : clear)++; if (inside && hole) near0++;
      CHECK_THAT(got == want, want ? (inside ? "hole-missed" : "leaving-missed") : "false-touch", "%zu zones %zu holes: path (%.6f,%.6f)..(%.6f,%.6f) of %zu points: touches %d, reported %d", zs.size(), holes, path[0].x, path[0].y, path.back().x, path.back().y, path.size(), (int)want, (int)got);
      CHECK_THAT(back == got, "direction", "the reversed path gives another answer");
      distinct(Hash().d(path[0].x).d(path.back().y).h);
    }
    note("touching", touched); note("clear", clear); note("through_hole", near0); note("holes", (long long)holes);
  });
}
