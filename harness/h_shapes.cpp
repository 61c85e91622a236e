// P26, class level: vertices, edges and triangles measure and order as plane geometry says.
#include "common.hpp"
#include <list>
#include "triangulation.h"
using namespace H;
using namespace navigine::navigation_core;
template <class T> static void order(const std::vector<T>& v, const std::function<int(size_t, size_t)>& cmp, const char* what)
{
  for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j)
  {
    int c = cmp(i, j); event();
    CHECK_THAT((v[i] < v[j]) == (c < 0) && (v[i] > v[j]) == (c > 0) && (v[i] <= v[j]) == (c <= 0) && (v[i] >= v[j]) == (c >= 0), std::string(what) + ":order", "%s %zu and %zu are in the wrong order", what, i, j);
    CHECK_THAT((v[i] == v[j]) == (c == 0) && (v[i] != v[j]) == (c != 0), std::string(what) + ":equal", "%s %zu and %zu", what, i, j);
  }
}
int main(int argc, char** argv)
{
  return runCases(argc, argv, [](long long, Rng& g)
  {
    std::vector<TriangleVertex> p; bool grid = g.p(0.6); std::set<std::pair<double, double>> at;
    for (int k = 0; k < 7; ++k)
    {
      double x = grid ? (double)g.i(0, 3) : g.r(-50, 50), y = grid ? (double)g.i(0, 3) : g.r(-50, 50);
      if (!at.insert({x, y}).second) continue;                            // one reference point to a place
      p.push_back(TriangleVertex(x, y, ReferencePointId(fmt("r%d", k))));
    }
    auto vc = [&](const TriangleVertex& a, const TriangleVertex& b) { return a.x != b.x ? (a.x < b.x ? -1 : 1) : a.y != b.y ? (a.y < b.y ? -1 : 1) : 0; };
    order<TriangleVertex>(p, [&](size_t i, size_t j) { return vc(p[i], p[j]); }, "vertex");
    if (p.size() < 3) return;
    std::vector<TriangleEdge> e; std::vector<Triangle> t;
    auto any = [&]() -> const TriangleVertex& { return p[(size_t)g.i(0, (long long)p.size() - 1)]; };
    std::vector<std::pair<TriangleVertex, TriangleVertex>> ends;
    for (int k = 0; k < 10; ++k)
    {
      auto a = any(), b = any(); e.push_back(TriangleEdge(a, b)); if (vc(a, b) > 0) std::swap(a, b); ends.push_back({a, b});
      CHECK_THAT(e.back().begin() == a && e.back().end() == b, "edge:ends", "an edge does not begin at its lesser end");
      double l = std::hypot(a.x - b.x, a.y - b.y); CHECK_THAT(near(e.back().length(), l, 1e-12), "edge:length", "length %.12g, should be %.12g", e.back().length(), l);
    }
    order<TriangleEdge>(e, [&](size_t i, size_t j) { int c = vc(ends[i].first, ends[j].first); return c ? c : vc(ends[i].second, ends[j].second); }, "edge");
    std::vector<std::array<TriangleVertex, 3>> c;
    for (int k = 0; k < 10; ++k)
    {
      auto a = any(), b = any(), d = any(); if (a == b || b == d || a == d) continue;
      Triangle q(a, b, d); t.push_back(q); c.push_back({{a, b, d}});
      CHECK_THAT(q.getA() == a && q.getB() == b && q.getC() == d, "triangle:corners", "corners of a triangle are mixed up");
      CHECK_THAT(q.getAB() == TriangleEdge(a, b) && q.getBA() == TriangleEdge(b, a) && q.getBC() == TriangleEdge(b, d) && q.getCB() == TriangleEdge(d, b) && q.getAC() == TriangleEdge(a, d) && q.getCA() == TriangleEdge(d, a), "triangle:sides", "sides of a triangle are mixed up");
      double ab = std::hypot(a.x - b.x, a.y - b.y), bc = std::hypot(b.x - d.x, b.y - d.y), ac = std::hypot(a.x - d.x, a.y - d.y);
      double cr = std::fabs((b.x - a.x) * (d.y - a.y) - (b.y - a.y) * (d.x - a.x)), sc = 100 * (ab + bc + ac) + 1;
      CHECK_THAT(std::fabs(q.square() - cr / 2) < 1e-11 * sc, "triangle:area", "area %.12g, should be %.12g", q.square(), cr / 2);
      double tol = 1e-10 * sc / (std::min(ab, std::min(bc, ac)) * std::min(ab, std::min(bc, ac)));
      CHECK_THAT(std::fabs(q.sinA() - cr / (ab * ac)) < tol && std::fabs(q.sinB() - cr / (ab * bc)) < tol && std::fabs(q.sinC() - cr / (bc * ac)) < tol, "triangle:sine", "sines %.9g %.9g %.9g, should be %.9g %.9g %.9g", q.sinA(), q.sinB(), q.sinC(), cr / (ab * ac), cr / (ab * bc), cr / (bc * ac));
      if (cr < 1) continue;
      // the circle through the corners
      double dd = 2 * ((b.x - a.x) * (d.y - a.y) - (b.y - a.y) * (d.x - a.x)), b2 = (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y), c2 = (d.x - a.x) * (d.x - a.x) + (d.y - a.y) * (d.y - a.y);
      double ux = ((d.y - a.y) * b2 - (b.y - a.y) * c2) / dd, uy = ((b.x - a.x) * c2 - (d.x - a.x) * b2) / dd, r = std::hypot(ux, uy);
      if (r > 1000) continue;
      for (int n = 0; n < 6; ++n)
      {
        TriangleVertex x = g.p(0.5) ? any() : TriangleVertex(a.x + ux + g.r(-1.5, 1.5) * r, a.y + uy + g.r(-1.5, 1.5) * r, ReferencePointId("x"));
        bool corner = x == a || x == b || x == d; double m = std::hypot(x.x - a.x - ux, x.y - a.y - uy);
        if (!corner && std::fabs(m - r) < 1e-3 * (1 + r)) continue;
        event(); note(m < r ? "inside" : "outside");
        CHECK_THAT(q.circumcircle_contains(x) == (!corner && m < r), "triangle:circle", "a point %.6f from the centre of a circle of %.6f is called %s", m, r, q.circumcircle_contains(x) ? "inside" : "outside");
      }
    }
    order<Triangle>(t, [&](size_t i, size_t j) { for (int k = 0; k < 3; ++k) if (int o = vc(c[i][(size_t)k], c[j][(size_t)k])) return o; return 0; }, "triangle");
    Hash h; for (auto& x : p) h.d(x.x).d(x.y); distinct(h.h);
    if (ctx().cur % 500 == 1) sample(fmt("%zu vertices, %zu edges, %zu triangles", p.size(), e.size(), t.size()));
  });
}
