// Models shared by the core and the standalone algorithms: ties, step detection, orientation filter.
#pragma once
#include "common.hpp"
#include <algorithm>
#include <deque>

namespace R {
struct Tie
{
  bool hit = false;
  double tol = 1e-9;
  // a < b, noting near equality
  bool lt(double a, double b, double t = -1)
  {
    if (t < 0) t = tol;
    if (std::fabs(a - b) <= t * std::max(1.0, std::max(std::fabs(a), std::fabs(b)))) hit = true;
    return a < b;
  }
  bool gt(double a, double b, double t = -1) { return lt(b, a, t); }
};

constexpr double PI = 3.14159265358979323846;
struct P2 { double x = 0, y = 0; };
struct P3 { double x = 0, y = 0, z = 0; };
inline double hyp(double dx, double dy) { return std::sqrt(dx * dx + dy * dy); }


// ---------------------------------------------------------------- motion
struct Step { long long ts; double len; };
struct Pedo
{
  struct S { long long ts; double m; };
  std::deque<S> acc, mag;          // raw magnitudes; filtered magnitudes
  size_t from = 1; long long possible = -1;
  bool grouped = false;              // samples wait for the next query (standalone) instead of only the last message's
  double amp0 = 0.52, thr = 0.05 * 9.80665;
  void update(bool isAcc, long long ts, double x, double y, double z)
  {
    if (!grouped) from = std::max<size_t>(mag.size(), 1);
    if (!isAcc) return;
    acc.push_back({ts, std::sqrt(x * x + y * y + z * z)});
    double f = 0, a = 0; int nf = 0, na = 0;
    bool inA = false, inF = false;
    for (auto& s : acc)
    {
      // windows start at the first sample young enough
      if (ts - s.ts < 2500) inA = true;
      if (ts - s.ts < 200) inF = true;
      if (inA) { a += s.m; na++; }
      if (inF) { f += s.m; nf++; }
    }
    f /= nf; a = (a + f) / na;
    if (ts != 0) mag.push_back({ts, f - a});
    while (!acc.empty() && acc.back().ts - acc.front().ts > 5000) acc.pop_front();
  }
  std::vector<Step> steps(Tie& tie)
  {
    std::vector<Step> out;
    if (mag.size() <= 3) return out;
    for (size_t i = from; i < mag.size(); ++i)
    {
      bool lo = tie.lt(mag[i - 1].m, thr), hi = tie.gt(mag[i].m, thr);
      if (lo && hi && mag[i].ts - possible > 300)
      {
        possible = mag[i].ts;
        size_t l = i;
        while (mag[i].ts - mag[l].ts <= 700 && l != 0) --l;
        double mx = mag[l].m, mn = mag[l].m;
        for (size_t k = l; k < i; ++k) { mx = std::max(mx, mag[k].m); mn = std::min(mn, mag[k].m); }
        out.push_back({possible, amp0 * std::pow(mx - mn, 0.25)});
      }
    }
    while (mag.back().ts - mag.front().ts > 1400) mag.pop_front();
    if (grouped) from = std::max<size_t>(mag.size(), 1);
    return out;
  }
};

// rotation matrix model of the orientation filter (rows: sensor axes expressed in the global frame is R*v)
struct Q { double w = 1, x = 0, y = 0, z = 0; };
inline Q mul(const Q& a, const Q& b)
{
  return { a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z, a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y,
           a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w };
}
inline Q conj(const Q& q) { return {q.w, -q.x, -q.y, -q.z}; }
inline P3 rot(const Q& q, const P3& v) { Q r = mul(mul(q, {0, v.x, v.y, v.z}), conj(q)); return {r.x, r.y, r.z}; }
inline P3 cross(const P3& a, const P3& b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline P3 unit(const P3& v) { double n = std::sqrt(v.x * v.x + v.y * v.y + v.z * v.z); return n > 2.3e-16 ? P3{v.x / n, v.y / n, v.z / n} : v; }
inline double wrap(double a) { double r = std::fmod(a + PI, 2 * PI); if (r < 0) r += 2 * PI; return r - PI; }

struct CF
{
  double ka = 0.1, km = 0.05, ki = 0, life = 10; P3 ie{0, 0, 0}; Q q; long long cur = -1, gyroTs = -1, devTs = -1; double magAz = 0, devAz = 0, gyroHeading = 0;
  bool singular = false;     // too close to gimbal lock or to a vertical field to compare angles
  void apply(const P3& v)
  {
    Q d = mul(q, {0, v.x, v.y, v.z});
    Q n{q.w + d.w / 2, q.x + d.x / 2, q.y + d.y / 2, q.z + d.z / 2};
    double m = std::sqrt(n.w * n.w + n.x * n.x + n.y * n.y + n.z * n.z);
    if (m > 2.3e-16) n = {n.w / m, n.x / m, n.y / m, n.z / m};
    q = n;
  }
  void drift(const P3& e) { if (ki > 1e-8) { ie.x += ki * e.x; ie.y += ki * e.y; ie.z += ki * e.z; } }
  double yaw() const { return std::atan2(2 * (q.w * q.z + q.x * q.y), 1 - 2 * (q.y * q.y + q.z * q.z)); }
  double roll() const { return std::atan2(2 * (q.w * q.x + q.y * q.z), 1 - 2 * (q.x * q.x + q.y * q.y)); }
  double pitch() const { double s = 2 * (q.w * q.y - q.z * q.x); return std::asin(std::min(1.0, std::max(-1.0, s))); }
  template <class SType> void update(SType t, const P3& v, long long ts)
  {
    singular = false;
    if (std::fabs(2 * (q.w * q.y - q.z * q.x)) > 0.9999) singular = true;
    if (t == SType::ACCELEROMETER)
    {
      P3 g = rot(conj(q), {0, 0, 1}), a = unit(v), e = cross(a, g);
      apply({ka * e.x, ka * e.y, ka * e.z}); drift(e);
    }
    else if (t == SType::MAGNETOMETER)
    {
      P3 m = unit(v);
      bool zero = std::sqrt(m.x * m.x + m.y * m.y + m.z * m.z) < 1e-8;
      if (gyroTs == -1 && !zero)
      {
        P3 g = rot(q, m);
        P3 want{0, std::sqrt(g.x * g.x + g.y * g.y), g.z};
        P3 s = rot(conj(q), want), e = cross(m, s);
        apply({km * e.x, km * e.y, km * e.z}); drift(e);
      }
      // tilt-compensated: remove the yaw, then the angle of the horizontal field
      double y = yaw();
      Q zq = mul(Q{std::sin(y / 2), 0, 0, std::cos(y / 2)}, q);
      P3 h = rot(zq, m);
      if (hyp(h.x, h.y) < 1e-4 || std::fabs(2 * (q.w * q.y - q.z * q.x)) > 0.9999) singular = true;
      magAz = wrap(PI / 2 + std::atan2(h.y, h.x));
    }
    else if (t == SType::GYROSCOPE)
    {
      if (gyroTs == -1) gyroTs = ts;
      double dt = (ts - gyroTs) / 1000.0; gyroTs = ts;
      apply({(v.x + ie.x) * dt, (v.y + ie.y) * dt, (v.z + ie.z) * dt});
      gyroHeading = -yaw();
    }
    else if (t == SType::ORIENTATION) { devAz = v.x; devTs = ts; }
    cur = ts;
  }
  bool devValid() const { return devTs != -1 && !((cur - devTs) / 1000.0 > life); }
};

} // namespace R
