// P22: conversion between geographic and local coordinates.
#include "common.hpp"
#include <navigine/navigation-core/point.h>
using namespace H;
using namespace navigine::navigation_core;
static const double PI_ = 3.14159265358979323846;
static double wrapDeg(double d) { d = std::fmod(d, 360.0); if (d > 180) d -= 360; if (d <= -180) d += 360; return d; }
int main(int argc, char** argv)
{
  return runCases(argc, argv, [](long long, Rng& g) {
    for (int rep = 0; rep < 200; ++rep)
    {
      GeoPoint b(g.r(-85, 85), g.r(-180, 180));
      int kind = (int)g.i(0, 9);
      if (kind == 1) b.longitude = 180 - g.u() * 1e-3;
      if (kind == 2) b.longitude = -180 + g.u() * 1e-3;
      if (kind == 3) b.latitude = g.r(-1e-6, 1e-6);
      if (kind == 4) b = GeoPoint((double)g.i(-80, 80), (double)g.i(-180, 180));
      if (kind == 5) b.latitude = g.p(0.5) ? g.r(80, 88) : g.r(-88, -80);
      double span = g.pickd({1e-6, 1e-4, 1e-2, 1, 30, 170});
      GeoPoint p(b.latitude + g.r(-1, 1) * std::min(span, 4.0), b.longitude + g.r(-1, 1) * span);
      if (kind == 6) p = b;
      if (kind == 8) { b.longitude = g.p(0.5) ? -180.0 : 180.0; p.longitude = b.longitude; }      // the two names of the antimeridian
      if (kind == 9) { b.longitude = (double)g.i(-179, 179); p.longitude = g.p(0.5) ? -180.0 : 180.0; }
      if (g.p(0.7)) { if (p.longitude > 180) p.longitude -= 360; if (p.longitude <= -180) p.longitude += 360; }
      double wantX = wrapDeg(p.longitude - b.longitude) * (40075160.0 * std::cos(b.latitude * PI_ / 180) / 360);
      double wantY = (p.latitude - b.latitude) * (40008000.0 / 360);
      XYPoint l = gpsToLocal(p, b);
      event(3);
      bool seam = std::fabs(std::fabs(wrapDeg(p.longitude - b.longitude)) - 180) < 1e-6;
      if (!seam) CHECK_THAT(std::fabs(l.x - wantX) < 1e-6 + 1e-9 * std::fabs(wantX), "to-local-x", "b(%.9f %.9f) p(%.9f %.9f) x %.9f want %.9f", b.latitude, b.longitude, p.latitude, p.longitude, l.x, wantX);
      CHECK_THAT(std::fabs(l.y - wantY) < 1e-6 + 1e-9 * std::fabs(wantY), "to-local-y", "y %.9f want %.9f", l.y, wantY);
      GeoPoint q = localToGps(l, b);
      CHECK_THAT(std::fabs(q.latitude - p.latitude) < 1e-9, "round-trip-lat", "lat %.12f -> %.12f", p.latitude, q.latitude);
      CHECK_THAT(std::fabs(wrapDeg(q.longitude - p.longitude)) < 1e-8, "round-trip-lon", "b(%.9f %.9f) lon %.12f -> %.12f", b.latitude, b.longitude, p.longitude, q.longitude);
      CHECK_THAT(q.longitude > -180 && q.longitude <= 180, "lon-range", "b.lon %.9f x %.3f -> lon %.12f", b.longitude, l.x, q.longitude);
      // the other way round
      XYPoint m(kind == 8 && g.p(0.5) ? 0.0 : g.r(-1, 1) * g.pickd({1, 100, 1e4, 1e6}), g.r(-1, 1) * g.pickd({1, 100, 1e4}));
      double mlon = 40075160.0 * std::cos(b.latitude * PI_ / 180) / 360;
      if (std::fabs(m.x / mlon) < 170)
      {
        GeoPoint r = localToGps(m, b);
        double wl = b.longitude + m.x / mlon;
        CHECK_THAT(std::fabs(r.latitude - (b.latitude + m.y / (40008000.0 / 360))) < 1e-9, "to-gps-lat", "lat %.12f", r.latitude);
        CHECK_THAT(std::fabs(wrapDeg(r.longitude - wl)) < 1e-8, "to-gps-lon", "lon %.12f want %.12f", r.longitude, wl);
        CHECK_THAT(r.longitude > -180 && r.longitude <= 180, "lon-range", "b.lon %.9f x %.3f -> lon %.12f", b.longitude, m.x, r.longitude);
        XYPoint k = gpsToLocal(r, b);
        CHECK_THAT(std::fabs(k.x - m.x) < 1e-6 + 1e-8 * std::fabs(m.x) && std::fabs(k.y - m.y) < 1e-6, "round-trip-local", "(%.6f %.6f) -> (%.6f %.6f)", m.x, m.y, k.x, k.y);
        event(4);
      }
      XYPoint o = gpsToLocal(b, b);
      CHECK_THAT(o.x == 0 && o.y == 0, "origin", "binding at %.9f %.9f", o.x, o.y);
      note(seam ? "seam" : (std::fabs(p.longitude - b.longitude) > 180 ? "antimeridian" : "plain"));
      distinct(Hash().d(b.latitude).d(b.longitude).d(p.latitude).d(p.longitude).h);
      if (rep == 0) sample(fmt("bind(%.6f,%.6f) p(%.6f,%.6f) -> local(%.4f,%.4f)", b.latitude, b.longitude, p.latitude, p.longitude, l.x, l.y));
    }
  });
}
