// P29: quaternion and vector algebra, angle wrapping.
#include "common.hpp"
#ifdef STANDALONE
#include <vector3d.h>
#include <quaternion.h>
#include <complementary_filter.h>
#else
#include <navigine/navigation-core/vector3d.h>
#include <navigine/navigation-core/navigation_settings.h>
#include "sensor_fusion/quaternion.h"
#include "sensor_fusion/complementary_filter.h"
#endif
using namespace H;
using namespace navigine::navigation_core;
static double qn(const Quaternion& q) { return std::sqrt(q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z); }
static bool qnear(const Quaternion& a, const Quaternion& b, double t) { return std::fabs(a.w - b.w) <= t && std::fabs(a.x - b.x) <= t && std::fabs(a.y - b.y) <= t && std::fabs(a.z - b.z) <= t; }
static bool vnear(const Vector3d& a, const Vector3d& b, double t) { return std::fabs(a.x - b.x) <= t && std::fabs(a.y - b.y) <= t && std::fabs(a.z - b.z) <= t; }
static Quaternion fromEuler(double ro, double pt, double ya)
{ return Quaternion(std::cos(ya / 2), 0, 0, std::sin(ya / 2)) * Quaternion(std::cos(pt / 2), 0, std::sin(pt / 2), 0) * Quaternion(std::cos(ro / 2), std::sin(ro / 2), 0, 0); }
static std::string S(const Quaternion& q) { return fmt("(%.9g %.9g %.9g %.9g)", q.w, q.x, q.y, q.z); }
static std::string S(const Vector3d& q) { return fmt("(%.9g %.9g %.9g)", q.x, q.y, q.z); }
int main(int argc, char** argv)
{
  return runCases(argc, argv, [](long long, Rng& g) {
    const double PI = 3.14159265358979323846;
    for (int rep = 0; rep < 300; ++rep)
    {
      double sc = g.pickd({1e-3, 1, 1, 10, 1e3});
      auto rq = [&] { return g.p(0.1) ? Quaternion((double)g.i(-2, 2), (double)g.i(-2, 2), (double)g.i(-2, 2), (double)g.i(-2, 2)) : Quaternion(sc * g.g(), sc * g.g(), sc * g.g(), sc * g.g()); };
      auto rv = [&] { return g.p(0.1) ? Vector3d((double)g.i(-2, 2), (double)g.i(-2, 2), (double)g.i(-2, 2)) : Vector3d(sc * g.g(), sc * g.g(), sc * g.g()); };
      Quaternion p = rq(), q = rq(), r = rq();
      event(30);
      // product against the definition
      Quaternion pq = p * q;
      Quaternion want(p.w * q.w - p.x * q.x - p.y * q.y - p.z * q.z, p.w * q.x + p.x * q.w + p.y * q.z - p.z * q.y,
                      p.w * q.y - p.x * q.z + p.y * q.w + p.z * q.x, p.w * q.z + p.x * q.y - p.y * q.x + p.z * q.w);
      double t2 = 1e-12 * (qn(p) * qn(q) + 1e-30), t3 = 1e-11 * (qn(p) * qn(q) * qn(r) + 1e-30);
      CHECK_THAT(qnear(pq, want, t2), "q-product", "%s*%s=%s", S(p).c_str(), S(q).c_str(), S(pq).c_str());
      CHECK_THAT(qnear((p * q) * r, p * (q * r), t3), "q-associative", "products do not associate");
      CHECK_THAT(std::fabs(qn(pq) - qn(p) * qn(q)) <= t2 * 10, "q-norm", "|pq| %.12g |p||q| %.12g", qn(pq), qn(p) * qn(q));
      Quaternion pi = p; pi *= q;
      CHECK_THAT(qnear(pi, pq, t2), "q-product-assign", "*= differs from *");
      double ts = 1e-12 * (qn(p) + qn(q) + 1e-30);
      CHECK_THAT(qnear(p + q, Quaternion(p.w + q.w, p.x + q.x, p.y + q.y, p.z + q.z), ts), "q-sum", "sum");
      CHECK_THAT(qnear(p - q, Quaternion(p.w - q.w, p.x - q.x, p.y - q.y, p.z - q.z), ts), "q-difference", "difference");
      Quaternion pa = p, ps = p; pa += q; ps -= q;
      CHECK_THAT(qnear(pa, p + q, ts) && qnear(ps, p - q, ts), "q-sum-assign", "+=, -=");
      double k = g.r(-5, 5);
      CHECK_THAT(qnear(p * k, Quaternion(p.w * k, p.x * k, p.y * k, p.z * k), ts * 6) && qnear(k * p, p * k, ts * 6), "q-scale", "scaling by %g", k);
      Quaternion pk = p; pk *= k;
      CHECK_THAT(qnear(pk, p * k, ts * 6), "q-scale-assign", "*= scale");
      CHECK_THAT(qnear(p.conj(), Quaternion(p.w, -p.x, -p.y, -p.z), 0), "q-conj", "conjugate");
      CHECK_THAT(qnear((p * q).conj(), q.conj() * p.conj(), t2 * 10), "q-conj-product", "conjugate of product");
      if (qn(p) > 1e-6)
      {
        Quaternion u = p.normalized();
        CHECK_THAT(std::fabs(qn(u) - 1) < 1e-12, "q-normalized", "norm %.15g", qn(u));
        CHECK_THAT(qnear(u * qn(p), p, 1e-12 * qn(p)), "q-normalized-direction", "direction");
        CHECK_THAT(qnear(u * u.conj(), Quaternion(1, 0, 0, 0), 1e-12), "q-inverse", "u*conj(u)");
        // Euler angles reproduce the rotation
        double ro, pt, ya; std::tie(ro, pt, ya) = u.toEuler();
        double sp = 2 * (u.w * u.y - u.z * u.x);
        CHECK_THAT(std::fabs(ro) <= PI + 1e-12 && std::fabs(ya) <= PI + 1e-12 && std::fabs(pt) <= PI / 2 + 1e-9, "euler-range", "(%g %g %g)", ro, pt, ya);
        if (std::fabs(sp) < 0.9999)
        {
          Quaternion e = fromEuler(ro, pt, ya);
          double dot = std::fabs(e.w * u.w + e.x * u.x + e.y * u.y + e.z * u.z);
          CHECK_THAT(std::fabs(dot - 1) < 1e-9, "euler-round-trip", "rotation %s angles (%g %g %g) back %s", S(u).c_str(), ro, pt, ya, S(e).c_str());
          note("euler-regular");
        }
        else note("euler-near-pole");
        // rotates a vector like the matrix does, composes
        Vector3d v = rv();
        Quaternion w = q.normalized();
        if (qn(q) > 1e-6)
        {
          Vector3d one = (w * Quaternion((u * Quaternion(v) * u.conj()).toVector3d()) * w.conj()).toVector3d();
          Vector3d two = ((w * u) * Quaternion(v) * (w * u).conj()).toVector3d();
          CHECK_THAT(vnear(one, two, 1e-11 * (1 + v.magnitude())), "rotation-compose", "rotations do not compose");
          CHECK_THAT(std::fabs(one.magnitude() - v.magnitude()) < 1e-11 * (1 + v.magnitude()), "rotation-length", "length changes");
        }
      }
      // euler construction: roll about x, pitch about y, yaw about z
      {
        double ro = g.r(-PI, PI) * 0.999, pt = g.r(-PI / 2, PI / 2) * 0.98, ya = g.r(-PI, PI) * 0.999;
        Quaternion e = fromEuler(ro, pt, ya);
        double a, b, c; std::tie(a, b, c) = e.toEuler();
        CHECK_THAT(std::fabs(a - ro) < 1e-7 && std::fabs(b - pt) < 1e-7 && std::fabs(c - ya) < 1e-7, "euler-angles", "(%g %g %g) -> (%g %g %g)", ro, pt, ya, a, b, c);
      }
      // looking straight up or down the pitch is still defined
      {
        double sg = g.p(0.5) ? 1 : -1, pt = sg * (PI / 2 - g.pickd({0, 0, 1e-15, 1e-12, 1e-9, 1e-6, 1e-3})), ro = g.r(-PI, PI), ya = g.r(-PI, PI);
        Quaternion e = fromEuler(ro, pt, ya).normalized();
        double a, b, c; std::tie(a, b, c) = e.toEuler();
        CHECK_THAT(std::fabs(a) <= PI + 1e-12 && std::fabs(c) <= PI + 1e-12 && std::fabs(b) <= PI / 2 + 1e-12 && std::fabs(b - pt) < 1e-6, "euler-pole", "(%g %.17g %g) -> (%g %.17g %g)", ro, pt, ya, a, b, c);
        note("euler-pole");
      }
      // vectors
      Vector3d u = rv(), v = rv(), w = rv();
      double t = 1e-12 * (u.magnitude() + v.magnitude() + 1e-30), tt = 1e-12 * (u.magnitude() * v.magnitude() + 1e-30);
      CHECK_THAT(vnear(u + v, Vector3d(u.x + v.x, u.y + v.y, u.z + v.z), t), "v-sum", "sum");
      CHECK_THAT(vnear(u - v, Vector3d(u.x - v.x, u.y - v.y, u.z - v.z), t), "v-difference", "difference");
      { Vector3d a = u; a += v; Vector3d b = u; b -= v; Vector3d c = u; c *= k; CHECK_THAT(vnear(a, u + v, t) && vnear(b, u - v, t) && vnear(c, u * k, t * 6), "v-assign", "+= -= *="); }
      CHECK_THAT(vnear(u * k, Vector3d(u.x * k, u.y * k, u.z * k), t * 6) && vnear(k * u, u * k, t * 6), "v-scale", "scale");
      if (std::fabs(k) > 0.01) CHECK_THAT(vnear((u / k) * k, u, t * 10), "v-divide", "divide");
      double dp = Vector3d::dotProduct(u, v);
      CHECK_THAT(std::fabs(dp - (u.x * v.x + u.y * v.y + u.z * v.z)) <= tt * 10, "v-dot", "dot");
      Vector3d x = Vector3d::crossProduct(u, v);
      CHECK_THAT(vnear(x, Vector3d(u.y * v.z - u.z * v.y, u.z * v.x - u.x * v.z, u.x * v.y - u.y * v.x), tt * 10), "v-cross", "cross %s", S(x).c_str());
      CHECK_THAT(std::fabs(Vector3d::dotProduct(x, u)) <= 1e-10 * (u.magnitude() * u.magnitude() * v.magnitude() + 1e-30), "v-cross-orthogonal", "cross product not orthogonal");
      CHECK_THAT(std::fabs(u.magnitude() - std::sqrt(u.x * u.x + u.y * u.y + u.z * u.z)) <= t, "v-magnitude", "magnitude");
      if (u.magnitude() > 1e-6)
      {
        Vector3d n = u.normalized();
        CHECK_THAT(std::fabs(n.magnitude() - 1) < 1e-12 && vnear(n * u.magnitude(), u, t * 10), "v-normalized", "normalized");
      }
      // every length but nothing at all
      {
        double len = std::pow(10.0, g.r(-14, 15));
        Vector3d d; do d = Vector3d(g.g(), g.g(), g.g()); while (std::sqrt(d.x * d.x + d.y * d.y + d.z * d.z) < 0.1);
        Vector3d e(d.x * len, d.y * len, d.z * len), n = e.normalized(), in = e; in.normalize();
        double m = std::sqrt(d.x * d.x + d.y * d.y + d.z * d.z); Vector3d want(d.x / m, d.y / m, d.z / m);
        CHECK_THAT(vnear(n, want, 1e-9), "v-normalized-any-length", "normalized %s is %s", S(e).c_str(), S(n).c_str());
        CHECK_THAT(vnear(in, want, 1e-9), "v-normalize-any-length", "normalize() of %s is %s", S(e).c_str(), S(in).c_str());
        double q = g.p(0.5) ? std::pow(10.0, g.r(-300, 300)) : std::pow(10.0, g.r(-16, 0));
        if (g.p(0.5)) q = -q;
        int at = (int)g.i(0, 2); Vector3d tiny(at == 0 ? q : 0, at == 1 ? q : 0, at == 2 ? q : 0);
        CHECK_THAT(!tiny.isNull(), "v-null-tiny", "%s taken for nothing", S(tiny).c_str());
        event(3);
      }
      { Vector3d z(0, 0, 0); Vector3d n = z.normalized(); CHECK_THAT(n.x == 0 && n.y == 0 && n.z == 0, "v-normalized-zero", "normalized zero vector %s", S(n).c_str()); }
      CHECK_THAT(u == u && !(u == (u + Vector3d(0.1, 0, 0))) && !(u == (u + Vector3d(0, 0.1, 0))) && !(u == (u + Vector3d(0, 0, -0.1))), "v-equality", "equality");
      { Vector3d a = u, b = u; a.normalize(); if (u.magnitude() > 1e-6) CHECK_THAT(vnear(a, u.normalized(), 1e-12), "v-normalize-in-place", "normalize() %s", S(a).c_str()); if (std::fabs(k) > 0.01) { b /= k; CHECK_THAT(vnear(b, u / k, t * 200), "v-divide-assign", "/= differs from /"); } }
      CHECK_THAT(!(u != u) && (u != (u + Vector3d(0, -0.1, 0))) && (u == v) == !(u != v), "v-inequality", "inequality");
      { Vector3d z(g.p(0.5) ? 0 : u.x, g.p(0.5) ? 0 : u.y, g.p(0.5) ? 0 : u.z); CHECK_THAT(z.isNull() == (z.x == 0 && z.y == 0 && z.z == 0), "v-null", "null test of %s", S(z).c_str()); }
      { Quaternion one, pure(u), three(u.x, u.y, u.z); CHECK_THAT(qnear(one, Quaternion(1, 0, 0, 0), 0) && qnear(pure, Quaternion(0, u.x, u.y, u.z), 0) && vnear(pure.toVector3d(), u, 0), "q-made", "identity, pure quaternion"); (void)three; }
      CHECK_THAT(vnear(-u, Vector3d(-u.x, -u.y, -u.z), 0), "v-negate", "negation");
      // wrapping
      double a = g.pickd({1, 1, 10, 1000}) * g.g() * 3;
      if (g.p(0.1)) a = (double)g.i(-20, 20) * PI;
      double m = to_minus_Pi_Pi(a);
      CHECK_THAT(m >= -PI && m < PI, "wrap-range", "wrap(%.17g)=%.17g", a, m);
      double turns = (a - m) / (2 * PI);
      CHECK_THAT(std::fabs(turns - std::round(turns)) < 1e-9, "wrap-turns", "wrap(%.17g)=%.17g", a, m);
      distinct(Hash().d(p.w).d(q.x).d(u.x).d(a).h);
    }
    CHECK_THAT(to_minus_Pi_Pi(3.14159265358979323846) == -3.14159265358979323846 && to_minus_Pi_Pi(-3.14159265358979323846) == -3.14159265358979323846 && to_minus_Pi_Pi(0) == 0, "wrap-ends", "wrap of +-pi");
  });
}
