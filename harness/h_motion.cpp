// P27 pedometer and P28 orientation filter.  arg: pedo | rest | fusion | filter | attitude
#include "gen.hpp"
#include "sensor_fusion/pedometer.h"
#include "sensor_fusion/complementary_filter.h"
#include "sensor_fusion/sensor_fusion.h"
using namespace H;
namespace nc = navigine::navigation_core;
using R::P3; using G::SType;
static nc::SensorMeasurement msr(SType t, const P3& v, long long ts)
{ nc::SensorMeasurement m; m.data.type = t; m.data.values = nc::Vector3d(v.x, v.y, v.z); m.ts = ts; return m; }

// acceleration of a walking, resting or shaken device
struct Body
{
  double freq, amp, phase = 0, noise, gx, gy, gz; bool rest = false, uniform; int dtMax; long long ts;
  Body(Rng& g)
  {
    freq = g.r(0.8, 3); amp = g.pickd({0.5, 1, 2, 4, 8}); noise = g.pickd({0, 0.05, 0.3, 2}); ts = g.p(0.5) ? 1541003875000LL : g.i(1, 2000);
    double a = g.r(0, 6.28), b = g.r(-1.5, 1.5); gx = std::cos(a) * std::cos(b); gy = std::sin(a) * std::cos(b); gz = std::sin(b);
    uniform = g.p(0.5); dtMax = (int)g.pickd({10, 20, 40, 100, 250});
  }
  P3 next(Rng& g)
  {
    long long dt = uniform ? dtMax : g.i(1, dtMax);
    if (g.p(0.005)) dt = g.i(300, 8000);
    if (g.p(0.01)) dt = g.pickd({0, 199, 200, 201, 300, 301, 700, 701});
    ts += dt;
    if (g.p(0.005)) rest = !rest;
    if (g.p(0.01)) { freq = g.r(0.8, 3); amp = g.pickd({0.5, 1, 2, 4, 8}); }
    phase += 6.2831853 * freq * dt / 1000.0;
    double a = 9.80665 + (rest ? 0 : amp * std::sin(phase)) + (rest ? 0.02 : noise) * g.g();
    return {gx * a, gy * a, gz * a};
  }
};

static void pedo(Rng& g)
{
  nc::Pedometer p; R::Pedo ref; Body b(g);
  int n = (int)g.i(100, 900), steps = 0; double pOther = g.pickd({0, 0.3}); Hash hh; long long lastStep = -1000000;
  for (int k = 0; k < n; ++k)
  {
    P3 v = b.next(g); bool acc = !g.p(pOther);
    SType t = acc ? SType::ACCELEROMETER : (SType)(int)g.i(1, 5);
    R::Tie tie; tie.tol = 1e-7;
    p.update(msr(t, v, b.ts)); auto got = p.calculateSteps();
    ref.update(acc, b.ts, v.x, v.y, v.z); auto want = ref.steps(tie);
    event();
    if (tie.hit) { skip(); return; }
    if (!acc) CHECK_THAT(got.empty(), "steps:other-sensor", "a sensor of type %d made a step", (int)t);
    if (got.size() != want.size()) { violation("steps:count", fmt("sample %d at %lld: %zu steps, model %zu", k, b.ts, got.size(), want.size())); return; }
    for (size_t q = 0; q < got.size(); ++q)
    {
      if (got[q].ts != want[q].ts) { violation("steps:time", fmt("step at %lld, model %lld", got[q].ts, want[q].ts)); return; }
      if (!near(got[q].len, want[q].len, 1e-6)) { violation("steps:length", fmt("step of %.9f m, model %.9f", got[q].len, want[q].len)); return; }
      CHECK_THAT(got[q].ts - lastStep > 300, "steps:spacing", "steps at %lld and %lld", lastStep, got[q].ts);
      lastStep = got[q].ts; steps++; hh.l(lastStep).d(got[q].len);
    }
  }
  note("steps", steps);
  if (steps) distinct(hh.h);
  sample(fmt("%d samples of %s%d ms, amplitude %.1f, noise %.2f: %d steps", n, b.uniform ? "" : "up to ", b.dtMax, b.amp, b.noise, steps));
}

static void restCase(Rng& g)
{
  nc::SensorFusion f(G::settings({}, {})); Body b(g); b.rest = true;
  int n = (int)g.i(300, 900); double bias = g.r(-0.5, 0.5), jitter = g.r(0, 0.06); bool first = true;
  for (int k = 0; k < n; ++k)
  {
    b.next(g);
    double a = 9.8 + bias + std::max(-2.5 * jitter, std::min(2.5 * jitter, jitter * g.g()));
    auto mi = f.calculateDisplacement(msr(SType::ACCELEROMETER, {b.gx * a, b.gy * a, b.gz * a}, b.ts), b.ts);
    // the very first averages are not settled: nothing is reported either, as magnitudes start below the threshold
    CHECK_THAT(!mi.isStepDetected, "steps:rest", "sample %d of a resting device made a step", k);
    event(); first = false;
  }
  (void)first; note("rest_samples", n);
  distinct(g.next());
}

static double angDiff(double a, double b) { return std::fabs(R::wrap(a - b)); }
static void fusion(Rng& g)
{
  nc::CommonSettings c; c.stepMultiplier = g.pickd({0.5, 1, 1.7}); c.useCalculatedAzimuth = g.p(0.5); c.deviceAzimuthLifetimeSeconds = g.pickd({0.2, 1, 10});
  nc::SensorFusion f(G::settings({}, c)); R::Pedo ref; R::CF cf; cf.life = c.deviceAzimuthLifetimeSeconds;
  Body b(g); int n = (int)g.i(100, 700), total = 0, azs = 0; Hash hh;
  double gyroHeading = 0, magScale = g.p(0.2) ? std::exp(g.r(-3, 4)) : 1; bool gyroOk = true;
  SType t = SType::ACCELEROMETER; P3 v; long long sts = 0; double pRepeat = g.pickd({0, 0.3, 0.7}); bool any = false; long long pts = -1; SType pt = t; P3 pv;
  // before any sample the default one comes along
  if (g.p(0.3)) { auto mi = f.calculateDisplacement(nc::SensorMeasurement(), b.ts); CHECK_THAT(!mi.isStepDetected && !mi.isAzimuthValid == !c.useCalculatedAzimuth, "motion:start", "motion before any sample"); }
  for (int k = 0; k < n; ++k)
  {
    long long now; bool repeat = any && g.p(pRepeat);
    if (repeat) { b.ts += g.i(0, 50); now = b.ts; }
    else
    {
      P3 a = b.next(g); any = true; now = sts = b.ts;
      double q = g.u();
      if (q < 0.7) { t = SType::ACCELEROMETER; v = a; }
      else if (q < 0.8) { t = SType::MAGNETOMETER; v = {magScale * g.r(-30, 30), magScale * g.r(-30, 30), magScale * g.r(-30, 30)}; }
      else if (q < 0.9) { t = SType::ORIENTATION; v = {g.r(-4, 4), g.r(-3, 3), g.r(-3, 3)}; }
      else if (q < 0.95) { t = SType::GYROSCOPE; v = {g.g(), g.g(), g.g()}; }
      else { t = g.p(0.5) ? SType::BAROMETER : SType::LOCATION; v = {g.r(-90, 1000), g.r(-90, 90), 5}; }
      if (pts >= 0 && g.p(0.1))
      {
        // another sample that differs from the one before in one respect only
        now = sts = b.ts = pts; SType nt = t; P3 nv = v; t = pt; v = pv;
        switch (g.i(0, 4)) { case 0: v.x += 0.5; break; case 1: v.y += 0.5; break; case 2: v.z += 0.5; break; case 3: t = nt; break; default: v = nv; }
      }
      // the very same sample again counts as a repetition
      repeat = pts == sts && pt == t && pv.x == v.x && pv.y == v.y && pv.z == v.z; pts = sts; pt = t; pv = v;
    }
    R::Tie tie; tie.tol = 1e-7; std::vector<R::Step> want;
    if (!repeat) { ref.update(t == SType::ACCELEROMETER, sts, v.x, v.y, v.z); want = ref.steps(tie); cf.update(t, v, sts); }
    auto mi = f.calculateDisplacement(msr(t, v, sts), now);
    event();
    if (tie.hit) { skip(); return; }
    double len = 0; for (auto& s : want) len += s.len;
    total += (int)want.size();
    if (mi.isStepDetected != !want.empty()) { violation(repeat ? "motion:repeat" : "motion:step", fmt("message %d: step %d, model %d", k, (int)mi.isStepDetected, (int)!want.empty())); return; }
    CHECK_THAT(near(mi.distance, len * c.stepMultiplier, 1e-6), "motion:distance", "distance %.9f, model %.9f", mi.distance, len * c.stepMultiplier);
    if (mi.isStepDetected)
    {
      CHECK_THAT(mi.lastMotionTs == now, "motion:time", "step time %lld at %lld", mi.lastMotionTs, now);
      CHECK_THAT((int)mi.stepCounter == total, "motion:counter", "counter %zu, model %d", mi.stepCounter, total);
    }
    if (!repeat && t == SType::GYROSCOPE) { gyroHeading = -cf.yaw(); gyroOk = std::fabs(2 * (cf.q.w * cf.q.y - cf.q.z * cf.q.x)) < 0.9999; }
    if (!cf.singular)
    {
      bool valid = c.useCalculatedAzimuth || cf.devValid();
      CHECK_THAT(mi.isAzimuthValid == valid, "motion:azimuth-valid", "azimuth valid %d, model %d", (int)mi.isAzimuthValid, (int)valid);
      if (std::fabs(2 * (cf.q.w * cf.q.y - cf.q.z * cf.q.x)) < 0.9999) CHECK_THAT(angDiff(mi.heading, cf.yaw()) < 1e-5, "motion:heading", "heading %.9f, model %.9f", mi.heading, cf.yaw());
      if (gyroOk) CHECK_THAT(angDiff(mi.gyroHeading, gyroHeading) < 1e-5, "motion:gyro-heading", "gyroscope heading %.9f, model %.9f", mi.gyroHeading, gyroHeading);
      if (valid && !c.useCalculatedAzimuth) { azs++; CHECK_THAT(mi.azimuth == cf.devAz, "motion:device-azimuth", "azimuth %.9f, device's %.9f", mi.azimuth, cf.devAz); }
    }
    hh.l(mi.isStepDetected).d(mi.distance);
  }
  note("steps", total); note("device_azimuths", azs);
  if (total) distinct(hh.h);
}


static void filter(Rng& g)
{
  nc::CommonSettings c; double ka = g.pickd({0.1, 0.1, 0.3, 0}), km = g.pickd({0.05, 0.05, 0.2, 0}), ki = g.pickd({0, 0, 0.01, 0.1});
  bool def = g.p(0.4); if (def) { ka = 0.1; km = 0.05; ki = 0; }
  c.deviceAzimuthLifetimeSeconds = g.pickd({0.2, 2, 10});
  auto st = G::settings({}, c);
  auto f = def ? nc::ComplementaryFilter(st) : nc::ComplementaryFilter(st, ka, km, ki);
  R::CF ref; ref.ka = ka; ref.km = km; ref.ki = ki; ref.life = c.deviceAzimuthLifetimeSeconds;
  int n = (int)g.i(30, 400), cmp = 0; long long ts = g.p(0.5) ? 1541003875000LL : g.i(1, 2000); Hash hh; bool magSeen = false, magOk = true;
  double w[6] = {g.u(), g.u(), g.p(0.5) ? 0 : g.u(), g.u() * 0.2, g.u() * 0.2, g.u() * 0.3}; double sum = 0; for (double x : w) sum += x;
  for (int k = 0; k < n; ++k)
  {
    ts += g.p(0.02) ? g.i(0, 3000) : g.i(0, 60);
    double q = g.u() * sum; int t = 0; while (t < 5 && q >= w[t]) { q -= w[t]; ++t; }
    P3 v{g.g(), g.g(), g.g()};
    if (t == 0) { v.x *= 3; v.y *= 3; v.z = v.z * 3 + 9.8; }
    if (t == 1) { v.x = v.x * 10 + 20; v.y *= 20; v.z = v.z * 10 - 30; }
    if (g.p(0.01)) v = {0, 0, 0};
    R::Q before = ref.q;
    (void)before;
    f.update(msr((SType)t, v, ts)); ref.update((SType)t, v, ts);
    event();
    auto o = f.getFusedOrientation();
    bool lock = std::fabs(2 * (ref.q.w * ref.q.y - ref.q.z * ref.q.x)) > 0.9999;
    CHECK_THAT(o.ts == ts, "filter:time", "orientation stamped %lld at %lld", o.ts, ts);
    if (!lock)
    {
      cmp++;
      if (angDiff(o.roll, ref.roll()) > 1e-5 || angDiff(o.pitch, ref.pitch()) > 1e-5 || angDiff(o.yaw, ref.yaw()) > 1e-5)
      { violation("filter:orientation", fmt("message %d type %d: roll %.8f pitch %.8f yaw %.8f, model %.8f %.8f %.8f", k, t, o.roll, o.pitch, o.yaw, ref.roll(), ref.pitch(), ref.yaw())); return; }
      CHECK_THAT(angDiff(f.getFusedAzimuth(), -ref.yaw()) < 1e-5, "filter:azimuth", "azimuth %.8f, model %.8f", f.getFusedAzimuth(), -ref.yaw());
    }
    if (t == 1) { magSeen = true; magOk = !ref.singular && R::hyp(R::hyp(v.x, v.y), v.z) > 1; }
    if (magSeen && magOk && angDiff(f.getMagneticAzimuth(), ref.magAz) > 1e-4) { violation("filter:magnetic", fmt("message %d type %d: magnetic azimuth %.8f, model %.8f", k, t, f.getMagneticAzimuth(), ref.magAz)); return; }
    double ma = f.getMagneticAzimuth();
    CHECK_THAT(ma >= -R::PI && ma < R::PI, "filter:magnetic-range", "magnetic azimuth %.17g", ma);
    CHECK_THAT(f.isDeviceAzimuthOutdated() == !ref.devValid(), "filter:device-age", "outdated %d at %lld, last %lld, lifetime %.1f s", (int)f.isDeviceAzimuthOutdated(), ts, ref.devTs, ref.life);
    CHECK_THAT(f.getDeviceAzimuth() == ref.devAz, "filter:device", "device azimuth %.9f, model %.9f", f.getDeviceAzimuth(), ref.devAz);
    hh.d(o.roll).d(o.yaw);
  }
  note("orientations", cmp);
  if (cmp > 10) distinct(hh.h);
  sample(fmt("%d messages, gains %.2f %.2f %.2f, gyroscope %s", n, ka, km, ki, w[2] > 0 ? "yes" : "no"));
}

static R::Q fromEuler(double r, double p, double y)
{
  R::Q a{std::cos(y / 2), 0, 0, std::sin(y / 2)}, b{std::cos(p / 2), 0, std::sin(p / 2), 0}, c{std::cos(r / 2), std::sin(r / 2), 0, 0};
  return R::mul(R::mul(a, b), c);
}
// a device held in one attitude, then turned
static void attitude(Rng& g)
{
  nc::NavigationSettings st = G::settings({}, {});
  nc::ComplementaryFilter f(st);
  double roll = g.r(-2.9, 2.9), pitch = g.r(-1.3, 1.3), yaw = g.r(-2.9, 2.9);
  R::Q q = fromEuler(roll, pitch, yaw);
  P3 down = R::rot(R::conj(q), {0, 0, 1});
  if (down.z < -0.97) { skip(); return; }            // nearly the unstable equilibrium
  double gv = g.r(5, 15), dip = g.r(-0.9, 0.9), F = g.r(20, 60); long long ts = g.i(1, 100000);
  P3 acc{down.x * gv, down.y * gv, down.z * gv}, mag = R::rot(R::conj(q), {0, F * std::cos(dip), F * std::sin(dip)});
  bool gyro = g.p(0.4), magnet = g.p(0.5) && (gyro || std::fabs(yaw) < 2.4);
  int n = magnet ? 6000 : 2500;
  for (int k = 0; k < n; ++k)
  {
    ts += g.i(5, 20);
    if (gyro) f.update(msr(SType::GYROSCOPE, {0, 0, 0}, ts));
    f.update(msr(SType::ACCELEROMETER, acc, ts));
    if (magnet) f.update(msr(SType::MAGNETOMETER, mag, ts));
    event();
  }
  auto o = f.getFusedOrientation();
  CHECK_THAT(angDiff(o.roll, roll) < 1e-2 && angDiff(o.pitch, pitch) < 1e-2, "attitude:tilt", "held at roll %.4f pitch %.4f: reports %.4f %.4f", roll, pitch, o.roll, o.pitch);
  f.update(msr(SType::MAGNETOMETER, mag, ts + 1));
  // without a gyroscope the last reading also turns the device
  if (gyro || magnet) CHECK_THAT(angDiff(f.getMagneticAzimuth(), -yaw) < 3e-2, "attitude:magnetic", "held at yaw %.4f (roll %.3f pitch %.3f dip %.2f): magnetic azimuth %.4f", yaw, roll, pitch, dip, f.getMagneticAzimuth());
  if (magnet && !gyro)
  {
    // the heading has one unstable equilibrium, opposite to north
    CHECK_THAT(angDiff(f.getFusedAzimuth(), -yaw) < 3e-2, "attitude:heading", "held at yaw %.4f (dip %.2f): heading %.4f", yaw, dip, f.getFusedAzimuth());
    note("north");
  }
  if (gyro)
  {
    // turn about the vertical by a known angle at constant rate, tilt corrections off by not sending gravity
    double y0 = f.getFusedOrientation().yaw, rate = g.r(-1.5, 1.5); int m = (int)g.i(50, 300);
    P3 w{down.x * rate, down.y * rate, down.z * rate}; double T = 0;
    f.update(msr(SType::GYROSCOPE, {0, 0, 0}, ts + 2)); long long t0 = ts + 2; ts = t0;
    for (int k = 0; k < m; ++k) { long long dt = g.i(2, 8); ts += dt; T += dt / 1000.0; f.update(msr(SType::GYROSCOPE, w, ts)); }
    CHECK_THAT(angDiff(f.getFusedOrientation().yaw, y0 + rate * T) < 2e-2, "attitude:gyro", "turned by %.4f from %.4f: heading %.4f", rate * T, y0, f.getFusedOrientation().yaw);
    note("turns");
  }
  distinct(g.next());
  sample(fmt("roll %.2f pitch %.2f yaw %.2f magnetometer %d gyroscope %d", roll, pitch, yaw, (int)magnet, (int)gyro));
}

int main(int argc, char** argv)
{
  G::Quiet q;
  return runCases(argc, argv, [](long long, Rng& g)
  {
    const std::string& a = ctx().arg;
    if (a == "pedo") pedo(g); else if (a == "rest") restCase(g); else if (a == "fusion") fusion(g); else if (a == "filter") filter(g); else attitude(g);
  });
}
