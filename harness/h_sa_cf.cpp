// P37 standalone complementary filter.  arg: model | attitude | hostile
#include "ref_motion.hpp"
#include "complementary_filter.h"
using namespace H;
namespace nc = navigine::navigation_core;
using R::P3; using ST = nc::SensorMeasurement::Type;
static nc::SensorMeasurement msr(ST t, const P3& v, long long ts)
{ nc::SensorMeasurement m; m.type = t; m.values = nc::Vector3d(v.x, v.y, v.z); m.ts = ts; return m; }
static double angDiff(double a, double b) { return std::fabs(R::wrap(a - b)); }

static void model(Rng& g)
{
  double ka = g.pickd({0.1, 0.1, 0.3, 0}), km = g.pickd({0.05, 0.05, 0.2, 0}), ki = g.pickd({0, 0, 0.01, 0.1});
  bool def = g.p(0.4); if (def) { ka = 0.1; km = 0.05; ki = 0; }
  auto f = def ? nc::ComplementaryFilter() : nc::ComplementaryFilter(ka, km, ki);
  R::CF ref; ref.ka = ka; ref.km = km; ref.ki = ki;
  int n = (int)g.i(30, 400), cmp = 0; long long ts = g.p(0.5) ? 1541003875000LL : g.i(1, 2000); Hash hh; bool magSeen = false, magOk = true;
  double w[6] = {g.u(), g.u(), g.p(0.5) ? 0 : g.u(), g.u() * 0.2, g.u() * 0.2, g.u() * 0.3}, magScale = g.p(0.2) ? std::exp(g.r(-2, 4)) : 1, sum = 0; for (double x : w) sum += x;
  for (int k = 0; k < n; ++k)
  {
    ts += g.p(0.02) ? g.i(0, 3000) : g.i(0, 60);
    double q = g.u() * sum; int t = 0; while (t < 5 && q >= w[t]) { q -= w[t]; ++t; }
    ST st = (const ST[]){ST::ACCELEROMETER, ST::MAGNETOMETER, ST::GYROSCOPE, ST::BAROMETER, ST::LOCATION, ST::ORIENTATION}[t];
    P3 v{g.g(), g.g(), g.g()};
    if (st == ST::ACCELEROMETER) { v.x *= 3; v.y *= 3; v.z = v.z * 3 + 9.8; }
    if (st == ST::MAGNETOMETER) { v.x = magScale * (v.x * 10 + 20); v.y *= magScale * 20; v.z = magScale * (v.z * 10 - 30); }
    if (g.p(0.01)) v = {0, 0, 0};
    f.update(msr(st, v, ts)); ref.update(st, v, ts);
    event();
    auto o = f.getFusedOrientation();
    CHECK_THAT(o.ts == ts, "filter:time", "orientation stamped %lld at %lld", o.ts, ts);
    if (!(std::fabs(2 * (ref.q.w * ref.q.y - ref.q.z * ref.q.x)) > 0.9999))
    {
      cmp++;
      if (angDiff(o.roll, ref.roll()) > 1e-5 || angDiff(o.pitch, ref.pitch()) > 1e-5 || angDiff(o.yaw, ref.yaw()) > 1e-5)
      { violation("filter:orientation", fmt("message %d type %d: roll %.8f pitch %.8f yaw %.8f, model %.8f %.8f %.8f", k, t, o.roll, o.pitch, o.yaw, ref.roll(), ref.pitch(), ref.yaw())); return; }
      CHECK_THAT(angDiff(f.getFusedAzimuth(), -ref.yaw()) < 1e-5, "filter:azimuth", "azimuth %.8f, model %.8f", f.getFusedAzimuth(), -ref.yaw());
    }
    if (st == ST::MAGNETOMETER) { magSeen = true; magOk = !ref.singular && R::hyp(R::hyp(v.x, v.y), v.z) > magScale; }
    if (magSeen && magOk && angDiff(f.getMagneticAzimuth(), ref.magAz) > 1e-4) { violation("filter:magnetic", fmt("message %d type %d: magnetic azimuth %.8f, model %.8f", k, t, f.getMagneticAzimuth(), ref.magAz)); return; }
    double ma = f.getMagneticAzimuth(), fa = f.getFusedAzimuth();
    CHECK_THAT(ma >= -R::PI && ma < R::PI, "filter:magnetic-range", "magnetic azimuth %.17g", ma);
    CHECK_THAT(fa >= -R::PI && fa <= R::PI, "filter:azimuth-range", "fused azimuth %.17g", fa);
    CHECK_THAT(f.getDeviceAzimuth() == ref.devAz, "filter:device", "device azimuth %.9f, model %.9f", f.getDeviceAzimuth(), ref.devAz);
    hh.d(o.roll).d(o.yaw);
  }
  note("orientations", cmp);
  if (cmp > 10) distinct(hh.h);
  sample(fmt("%d messages, gains %.2f %.2f %.2f, gyroscope %s", n, ka, km, ki, w[2] > 0 ? "yes" : "no"));
}

static R::Q fromEuler(double r, double p, double y)
{
  R::Q a{std::cos(y / 2), 0, 0, std::sin(y / 2)}, b{std::cos(p / 2), 0, std::sin(p / 2), 0}, c{std::cos(r / 2), std::sin(r / 2), 0, 0};
  return R::mul(R::mul(a, b), c);
}
static void attitude(Rng& g)
{
  nc::ComplementaryFilter f;
  double roll = g.r(-2.9, 2.9), pitch = g.r(-1.3, 1.3), yaw = g.r(-2.9, 2.9);
  R::Q q = fromEuler(roll, pitch, yaw);
  P3 down = R::rot(R::conj(q), {0, 0, 1});
  if (down.z < -0.97) { skip(); return; }            // nearly the unstable equilibrium
  double gv = g.r(5, 15), dip = g.r(-0.9, 0.9), F = g.r(20, 60); long long ts = g.i(1, 100000);
  P3 acc{down.x * gv, down.y * gv, down.z * gv}, mag = R::rot(R::conj(q), {0, F * std::cos(dip), F * std::sin(dip)});
  bool gyro = g.p(0.4), magnet = g.p(0.5) && (gyro || std::fabs(yaw) < 2.4);
  int n = magnet ? 6000 : 2500;
  for (int k = 0; k < n; ++k)
  {
    ts += g.i(5, 20);
    if (gyro) f.update(msr(ST::GYROSCOPE, {0, 0, 0}, ts));
    f.update(msr(ST::ACCELEROMETER, acc, ts));
    if (magnet) f.update(msr(ST::MAGNETOMETER, mag, ts));
    event();
  }
  auto o = f.getFusedOrientation();
  CHECK_THAT(angDiff(o.roll, roll) < 1e-2 && angDiff(o.pitch, pitch) < 1e-2, "attitude:tilt", "held at roll %.4f pitch %.4f: reports %.4f %.4f", roll, pitch, o.roll, o.pitch);
  f.update(msr(ST::MAGNETOMETER, mag, ts + 1));
  if (gyro || magnet) CHECK_THAT(angDiff(f.getMagneticAzimuth(), -yaw) < 3e-2, "attitude:magnetic", "held at yaw %.4f (roll %.3f pitch %.3f dip %.2f): magnetic azimuth %.4f", yaw, roll, pitch, dip, f.getMagneticAzimuth());
  if (magnet && !gyro)
  { CHECK_THAT(angDiff(f.getFusedAzimuth(), -yaw) < 3e-2, "attitude:heading", "held at yaw %.4f (dip %.2f): heading %.4f", yaw, dip, f.getFusedAzimuth()); note("north"); }
  if (gyro)
  {
    double y0 = f.getFusedOrientation().yaw, rate = g.r(-1.5, 1.5); int m = (int)g.i(50, 300);
    P3 w{down.x * rate, down.y * rate, down.z * rate}; double T = 0;
    f.update(msr(ST::GYROSCOPE, {0, 0, 0}, ts + 2)); ts += 2;
    for (int k = 0; k < m; ++k) { long long dt = g.i(2, 8); ts += dt; T += dt / 1000.0; f.update(msr(ST::GYROSCOPE, w, ts)); }
    CHECK_THAT(angDiff(f.getFusedOrientation().yaw, y0 + rate * T) < 2e-2, "attitude:gyro", "turned by %.4f from %.4f: heading %.4f", rate * T, y0, f.getFusedOrientation().yaw);
    note("turns");
  }
  distinct(g.next());
  sample(fmt("roll %.2f pitch %.2f yaw %.2f magnetometer %d gyroscope %d", roll, pitch, yaw, (int)magnet, (int)gyro));
}

static void hostile(Rng& g)
{
  auto f = g.p(0.5) ? nc::ComplementaryFilter() : nc::ComplementaryFilter(g.pickd({0, 1, 1e300, NAN}), g.pickd({0, 1, -5}), g.pickd({0, 1, 1e300}));
  int n = (int)g.i(10, 300); long long ts = g.i(0, 1000); double pv = g.pickd({0.05, 0.5});
  auto val = [&] { return g.p(pv) ? g.pickd({INFINITY, -INFINITY, NAN, 1e308, -1e308, 5e-324, 0, 1e17}) : g.r(-20, 20); };
  for (int k = 0; k < n; ++k)
  {
    ts = g.p(0.1) ? (long long)g.pickd({-1, 0, 1e15, -1e15, 100}) : ts + g.i(0, 100);
    f.update(msr((ST)(int)g.i(0, 5), {val(), val(), val()}, ts));
    f.getFusedOrientation(); f.getFusedAzimuth(); f.getDeviceAzimuth(); f.getMagneticAzimuth();
    event();
  }
  distinct(g.next());
}

int main(int argc, char** argv)
{
  return runCases(argc, argv, [](long long, Rng& g)
  { const std::string& a = ctx().arg; if (a == "attitude") attitude(g); else if (a == "hostile") hostile(g); else model(g); });
}
