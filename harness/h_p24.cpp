// P24: plane geometry against exact arithmetic (integer grids) and extended precision with margins.
#include "common.hpp"
#include <navigine/navigation-core/location_point.h>
#include <navigine/navigation-core/point.h>
#include "geometry.h"
using namespace H;
using namespace navigine::navigation_core;
typedef long double LD;
typedef __int128 I;
struct P { double x, y; };
static LD hyp(LD x, LD y) { return sqrtl(x * x + y * y); }
static int sgn(I v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
static I cross(P a, P b, P c) { return (I)(b.x - a.x) * (I)(c.y - a.y) - (I)(c.x - a.x) * (I)(b.y - a.y); }
int main(int argc, char** argv)
{
  return runCases(argc, argv, [](long long, Rng& g) {
    auto pt = [&](int kind, double s) { return kind == 0 ? P{(double)g.i(-6, 6), (double)g.i(-6, 6)} : kind == 1 ? P{(double)g.i(-500, 500), (double)g.i(-500, 500)} : P{g.r(-s, s), g.r(-s, s)}; };
    for (int rep = 0; rep < 300; ++rep)
    {
      int kind = (int)g.i(0, 2);
      double s = g.pickd({1, 10, 100, 1000});
      P a = pt(kind, s), b = pt(kind, s), c = pt(kind, s), d = pt(kind, s);
      if (g.p(0.1)) b.x = a.x; else if (g.p(0.1)) b.y = a.y;
      if (g.p(0.1)) d.y = c.y; else if (g.p(0.1)) d.x = c.x;
      if (g.p(0.03)) b = a;
      double tol = kind == 2 ? 1e-9 * s : 1e-9;
      event(12);
      // distances
      LD ab = hyp((LD)a.x - b.x, (LD)a.y - b.y);
      CHECK_THAT(near(GetDist(a.x, a.y, b.x, b.y), (double)ab, 1e-12), "dist", "dist (%g %g)-(%g %g)=%.12g want %.12Lg", a.x, a.y, b.x, b.y, GetDist(a.x, a.y, b.x, b.y), ab);
      LevelId L("1"), M("2");
      LocationPoint A{L, a.x, a.y}, B{L, b.x, b.y}, C{L, c.x, c.y}, C2{M, c.x, c.y}, B2{M, b.x, b.y}, A2{M, a.x, a.y};
      CHECK_THAT(near(GetDist(A, B), (double)ab, 1e-12) && GetDist(A, B) == GetDist(B, A), "dist-location", "dist");
      CHECK_THAT(std::isnan(GetDist(A, B2)) && std::isnan(GetDist(A2, B)), "dist-level", "distance across levels is a number");
      CHECK_THAT(std::isnan(GetDist(A, B, C2)) && std::isnan(GetDist(A, B2, C)) && std::isnan(GetDist(A2, B, C)), "line-dist-level", "line distance across levels is a number");
      CHECK_THAT(std::isnan(GetArea(A, B, C2)) && std::isnan(GetArea(A, B2, C)) && std::isnan(GetArea(A2, B, C)), "area-level", "area across levels is a number");
      // area
      LD ar = (((LD)b.x - a.x) * ((LD)c.y - a.y) - ((LD)c.x - a.x) * ((LD)b.y - a.y)) / 2;
      double got = GetArea(a.x, a.y, b.x, b.y, c.x, c.y), scale = (double)(ab * hyp((LD)c.x - a.x, (LD)c.y - a.y)) + 1e-9;
      CHECK_THAT(std::fabs(got - (double)ar) <= 1e-10 * scale, "area", "area %.12g want %.12Lg", got, ar);
      CHECK_THAT(near(GetArea(A, B, C), got, 1e-12), "area-location", "area");
      CHECK_THAT(std::fabs(GetArea(b.x, b.y, c.x, c.y, a.x, a.y) - got) <= 1e-9 * (scale + s * s) && std::fabs(GetArea(b.x, b.y, a.x, a.y, c.x, c.y) + got) <= 1e-9 * (scale + s * s), "area-symmetry", "area of permuted triangle");
      // line distance
      if (ab > 1e-3)
      {
        LD want = fabsl(2 * ar) / ab;
        CHECK_THAT(std::fabs(GetDist(A, B, C) - (double)want) < 1e-9 * (1 + s), "line-dist", "line dist %.12g want %.12Lg", GetDist(A, B, C), want);
        CHECK_THAT(std::fabs(GetDist(B, A, C) - GetDist(A, B, C)) < 1e-9 * (1 + s), "line-dist-symmetry", "reversed line");
      }
      if (a.x == b.x && a.y == b.y) CHECK_THAT(std::isnan(GetDist(A, B, C)), "line-dist-degenerate", "distance to a line through equal points is %g", GetDist(A, B, C));
      // segment distance
      {
        LD len = ab * ab, t = 0;
        if (len > 0) t = (((LD)c.x - a.x) * ((LD)b.x - a.x) + ((LD)c.y - a.y) * ((LD)b.y - a.y)) / len;
        t = t < 0 ? 0 : t > 1 ? 1 : t;
        LD want = hyp(a.x + t * ((LD)b.x - a.x) - c.x, a.y + t * ((LD)b.y - a.y) - c.y);
        double e = len < 1e-6 ? 2e-4 : 1e-9 * (1 + s);
        double sd = SegmentPointDist(XYPoint(a.x, a.y), XYPoint(b.x, b.y), XYPoint(c.x, c.y));
        CHECK_THAT(std::fabs(sd - (double)want) < e, "segment-dist", "segment (%g %g)-(%g %g) point (%g %g): %.12g want %.12Lg", a.x, a.y, b.x, b.y, c.x, c.y, sd, want);
        CHECK_THAT(std::fabs(SegmentPointDist(XYPoint(b.x, b.y), XYPoint(a.x, a.y), XYPoint(c.x, c.y)) - sd) < e, "segment-dist-symmetry", "reversed segment");
        note(t > 0 && t < 1 ? "foot-inside" : "foot-at-end");
      }
      // determinants (small integers: exact)
      {
        I m[9]; double v[9];
        for (int k = 0; k < 9; ++k) { m[k] = g.i(-50, 50); v[k] = (double)m[k]; }
        I d3 = m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]);
        I d2 = m[0] * m[3] - m[1] * m[2];
        CHECK_THAT(Determinant(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]) == (double)d3, "det3", "determinant");
        CHECK_THAT(Determinant(v[0], v[1], v[2], v[3]) == (double)d2, "det2", "determinant");
      }
      // projection
      {
        double px = 7e77, py = 7e77;
        double k = GetProjection(a.x, a.y, b.x, b.y, c.x, c.y, &px, &py);
        if (ab > 1e-3)
        {
          LD t = (((LD)c.x - a.x) * ((LD)b.x - a.x) + ((LD)c.y - a.y) * ((LD)b.y - a.y)) / (ab * ab);
          CHECK_THAT(std::fabs(k - (double)t) <= 1e-9 * (1 + std::fabs((double)t)) * (1 + s / (double)ab), "projection-k", "k %.12g want %.12Lg", k, t);
          double fx = (double)(a.x + t * ((LD)b.x - a.x)), fy = (double)(a.y + t * ((LD)b.y - a.y));
          CHECK_THAT(std::fabs(px - fx) < 1e-8 * (1 + s) && std::fabs(py - fy) < 1e-8 * (1 + s), "projection-foot", "foot (%g %g) want (%g %g)", px, py, fx, fy);
        }
        else if (a.x == b.x && a.y == b.y) CHECK_THAT(px == a.x && py == a.y, "projection-degenerate", "foot on a point segment (%g %g)", px, py);
        double k2 = GetProjection(a.x, a.y, b.x, b.y, c.x, c.y, nullptr, nullptr);
        CHECK_THAT(sameOr(k, k2), "projection-null", "k differs without outputs");
      }
      // intersections
      {
        // decide with exact integers, or extended precision with margins
        bool decided = false, proper = false; LD k = 0, l = 0;
        if (kind < 2)
        {
          int s1 = sgn(cross(a, b, c)), s2 = sgn(cross(a, b, d)), s3 = sgn(cross(c, d, a)), s4 = sgn(cross(c, d, b));
          decided = s1 && s2 && s3 && s4;
          proper = s1 * s2 < 0 && s3 * s4 < 0;
          I det = (I)(b.x - a.x) * (I)(d.y - c.y) - (I)(d.x - c.x) * (I)(b.y - a.y);
          if (decided && det == 0) { decided = true; proper = false; }
          if (det != 0) { k = (LD)((I)(c.x - a.x) * (I)(d.y - c.y) - (I)(d.x - c.x) * (I)(c.y - a.y)) / (LD)det; }
        }
        else
        {
          LD det = ((LD)b.x - a.x) * ((LD)d.y - c.y) - ((LD)d.x - c.x) * ((LD)b.y - a.y);
          LD n = ab * hyp((LD)d.x - c.x, (LD)d.y - c.y);
          if (fabsl(det) > 1e-6 * n && fabsl(det) > 1e-6)
          {
            k = (((LD)c.x - a.x) * ((LD)d.y - c.y) - ((LD)d.x - c.x) * ((LD)c.y - a.y)) / det;
            l = (((LD)c.x - a.x) * ((LD)b.y - a.y) - ((LD)b.x - a.x) * ((LD)c.y - a.y)) / det;
            decided = fabsl(k) > 1e-6 && fabsl(k - 1) > 1e-6 && fabsl(l) > 1e-6 && fabsl(l - 1) > 1e-6;
            proper = k > 0 && k < 1 && l > 0 && l < 1;
          }
        }
        if (!decided) skip();
        else
        {
          note(proper ? "proper-crossing" : "no-crossing");
          bool axis = a.x == b.x || a.y == b.y || c.x == d.x || c.y == d.y;
          if (axis && proper) note("axis-parallel-crossing");
          double ox = 7e77, oy = 7e77;
          double r = GetIntersection(a.x, a.y, b.x, b.y, c.x, c.y, d.x, d.y, &ox, &oy);
          CHECK_THAT(std::isnan(r) != proper, "intersection", "PQ (%g %g)-(%g %g) AB (%g %g)-(%g %g): %g, crossing %d", a.x, a.y, b.x, b.y, c.x, c.y, d.x, d.y, r, (int)proper);
          if (proper && !std::isnan(r))
          {
            double wx = (double)(a.x + k * ((LD)b.x - a.x)), wy = (double)(a.y + k * ((LD)b.y - a.y));
            CHECK_THAT(std::fabs(r - (double)k) < 1e-7, "intersection-k", "k %.12g want %.12Lg", r, k);
            CHECK_THAT(std::fabs(ox - wx) < 1e-7 * (1 + s) && std::fabs(oy - wy) < 1e-7 * (1 + s), "intersection-point", "(%g %g) want (%g %g)", ox, oy, wx, wy);
            CHECK_THAT(sameOr(r, GetIntersection(a.x, a.y, b.x, b.y, c.x, c.y, d.x, d.y, nullptr, nullptr)), "intersection-null", "differs without outputs");
          }
          int n = 0;
          for (int m = 0; m < 8; ++m)
          {
            P w[4] = {a, b, c, d};
            if (m & 1) std::swap(w[0], w[1]);
            if (m & 2) std::swap(w[2], w[3]);
            if (m & 4) { std::swap(w[0], w[2]); std::swap(w[1], w[3]); }
            n += CheckIntersection(w[0].x, w[0].y, w[1].x, w[1].y, w[2].x, w[2].y, w[3].x, w[3].y) ? 1 : 0;
          }
          CHECK_THAT(n == (proper ? 8 : 0), axis ? "check-intersection-axis-parallel" : "check-intersection", "(%g %g)-(%g %g) x (%g %g)-(%g %g): crossing %d, reported by %d of 8 orders", a.x, a.y, b.x, b.y, c.x, c.y, d.x, d.y, (int)proper, n);
          event(9);
        }
      }
      // point on segment
      if (kind < 2)
      {
        P q = c;
        if (g.p(0.5) ) { long long n = g.i(1, 6); P u{(double)g.i(-9, 9), (double)g.i(-9, 9)}; b = {a.x + n * u.x, a.y + n * u.y}; long long j = g.i(-2, n + 2); q = {a.x + j * u.x, a.y + j * u.y}; }
        bool on = cross(a, b, q) == 0 && (I)(a.x - q.x) * (I)(b.x - q.x) + (I)(a.y - q.y) * (I)(b.y - q.y) <= 0;
        CHECK_THAT(PointOnLine(q.x, q.y, a.x, a.y, b.x, b.y) == on, "point-on-line", "point (%g %g) on (%g %g)-(%g %g): want %d", q.x, q.y, a.x, a.y, b.x, b.y, (int)on);
        CHECK_THAT(PointOnLine(q.x, q.y, b.x, b.y, a.x, a.y) == on, "point-on-line-symmetry", "reversed");
        note(on ? "on-segment" : "off-segment");
      }
      // ray crossing
      {
        if (std::fabs(c.y - a.y) > 1e-3 && std::fabs(c.y - b.y) > 1e-3)
        {
          bool between = (a.y < c.y) != (b.y < c.y);
          bool want = false, ok = true;
          if (between)
          {
            LD xi = a.x + ((LD)c.y - a.y) / ((LD)b.y - a.y) * ((LD)b.x - a.x);
            if (fabsl(xi - c.x) < 1e-3) ok = false;
            want = c.x < xi;
          }
          if (ok)
          {
            CHECK_THAT(XRayIntersectsLine(c.x, c.y, a.x, a.y, b.x, b.y) == want && XRayIntersectsLine(c.x, c.y, b.x, b.y, a.x, a.y) == want, "ray", "ray from (%g %g) and (%g %g)-(%g %g): want %d", c.x, c.y, a.x, a.y, b.x, b.y, (int)want);
            note(want ? "ray-hit" : "ray-miss"); event();
          }
        }
      }
      distinct(Hash().d(a.x).d(a.y).d(b.x).d(b.y).d(c.x).d(c.y).d(d.x).d(d.y).h);
    }
    // ray parity decides inside/outside even through vertices
    for (int rep = 0; rep < 20; ++rep)
    {
      int n = (int)g.i(3, 9);
      std::vector<double> ang; for (int k = 0; k < n; ++k) ang.push_back(2 * 3.14159265358979 * (k + g.r(0.1, 0.9)) / n);
      std::vector<P> v;
      for (double t : ang) { double r = g.r(5, 30); v.push_back({std::round(r * std::cos(t)), std::round(r * std::sin(t))}); }
      for (int q = 0; q < 10; ++q)
      {
        P p{g.r(-32, 32), g.p(0.6) ? v[(size_t)g.i(0, n - 1)].y : g.r(-32, 32)};
        double dm = 1e9; int wind = 0;
        bool flat = false;
        for (int k = 0; k < n; ++k)
        {
          P u = v[k], w = v[(k + 1) % n];
          double L = (w.x - u.x) * (w.x - u.x) + (w.y - u.y) * (w.y - u.y), t = L > 0 ? ((p.x - u.x) * (w.x - u.x) + (p.y - u.y) * (w.y - u.y)) / L : 0;
          t = std::min(1.0, std::max(0.0, t));
          dm = std::min(dm, std::hypot(u.x + t * (w.x - u.x) - p.x, u.y + t * (w.y - u.y) - p.y));
          if (u.y == w.y && std::fabs(u.y - p.y) < 0.01) flat = true;
          // winding number by half-open rule
          double cr = (w.x - u.x) * (p.y - u.y) - (p.x - u.x) * (w.y - u.y);
          if (u.y <= p.y) { if (w.y > p.y && cr > 0) wind++; }
          else if (w.y <= p.y && cr < 0) wind--;
        }
        if (dm < 0.05 || flat) { skip(); continue; }
        int par = 0;
        for (int k = 0; k < n; ++k) par += XRayIntersectsLine(p.x, p.y, v[k].x, v[k].y, v[(k + 1) % n].x, v[(k + 1) % n].y) ? 1 : 0;
        CHECK_THAT((par & 1) == (wind & 1), "ray-parity", "parity %d winding %d at (%g %g) n %d", par, wind, p.x, p.y, n);
        event(); note(wind & 1 ? "parity-inside" : "parity-outside");
      }
    }
  });
}
