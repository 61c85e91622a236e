// Fusion, smoothing and post-processing, one part per -D.
#include "gen.hpp"
#include "position.h"
#include "position_postprocessor/position_postprocessor.h"
#include "position_postprocessor/position_smoother_ab.h"
#include "position_postprocessor/position_smoother_lstsq.h"
#include "position_postprocessor/polynomial_fit.h"
#include "position_postprocessor/navigation_time_smoother.h"
using namespace H;
using G::CommonSettings;
namespace nc = navigine::navigation_core;

static nc::Position toNc(const R::Pos& p)
{ return nc::Position(p.x, p.y, nc::LevelId(p.lev), p.dev, p.ts, p.empty, p.prov, 0.0); }
static std::string show(const R::Pos& p) { return p.empty ? std::string("none") : fmt("(%.5f,%.5f) '%s' r%.4f ts%lld pr%d", p.x, p.y, p.lev.c_str(), p.dev, p.ts, (int)p.prov); }
static std::string show(const nc::Position& p) { return p.isEmpty ? std::string("none") : fmt("(%.5f,%.5f) '%s' r%.4f ts%lld pr%d", p.x, p.y, p.levelId.value.c_str(), p.deviationM, p.ts, (int)p.provider); }
static bool eq(const nc::Position& a, const R::Pos& b, double tol = 1e-7, bool dev = true)
{
  if (a.isEmpty != b.empty) return false;
  if (a.isEmpty) return true;
  return near(a.x, b.x, tol) && near(a.y, b.y, tol) && a.levelId.value == b.lev && (!dev || near(a.deviationM, b.dev, tol)) && a.ts == b.ts && a.provider == b.prov;
}
// a walk of positions over a level
struct Walk
{
  const R::Map& m; size_t li; double x, y, speed, dir; long long ts;
  Walk(Rng& g, const R::Map& mm) : m(mm), li((size_t)g.i(0, (long long)mm.lv.size() - 1)), x(g.u() * mm.lv[li].W), y(g.u() * mm.lv[li].Hh), speed(g.r(0, 3)), dir(g.r(0, 6.28)), ts(g.p(0.5) ? 1541003875000LL : g.i(1, 1000)) {}
  R::Pos next(Rng& g, double noise, double pLevel, double pJump, bool timePasses = true)
  {
    long long dt = g.i(1, 1500);
    if (g.p(0.03)) dt = g.i(9000, 11000);
    if (g.p(0.01)) dt = 10000 + g.i(-1, 1);
    if (timePasses) ts += dt;
    if (g.p(0.1)) { speed = g.r(0, 3); dir = g.r(0, 6.28); }
    if (g.p(pLevel)) li = (size_t)g.i(0, (long long)m.lv.size() - 1);
    const auto& l = m.lv[li];
    double t = std::min(3.0, dt / 1000.0);
    x += speed * t * std::cos(dir); y += speed * t * std::sin(dir);
    if (g.p(pJump)) { x = g.u() * l.W; y = g.u() * l.Hh; }
    x = std::min(std::max(x, 0.0), l.W); y = std::min(std::max(y, 0.0), l.Hh);
    R::Pos p; p.x = std::min(std::max(x + noise * g.g(), 1e-3), l.W - 1e-3); p.y = std::min(std::max(y + noise * g.g(), 1e-3), l.Hh - 1e-3);
    p.lev = l.id; p.ts = ts; p.dev = g.pickd({0, 0.5, 1, 3, 10}) + g.u(); p.empty = false; p.prov = nc::Provider::INDOOR;
    return p;
  }
};

#ifdef PART_FUSE
static void run(long long, Rng& g)
{
  CommonSettings c = G::genSettings(g);
  c.useGps = g.p(0.85); c.preferIndoorSolution = g.p(0.2); c.useInstantGpsPosition = g.p(0.15); c.fuseGps = g.p(0.6);
  nc::NavigationSettings st; st.commonSettings = c;
  nc::PositionPostprocessor pp(st);
  R::Fusion ref(c);
  long long ts = g.p(0.5) ? 1541003875000LL : g.i(1, 5000);
  double x = g.r(0, 50), y = g.r(0, 50);
  double pi = g.pickd({0.1, 0.4, 0.9}), po = g.pickd({0.1, 0.4, 0.9});
  int n = (int)g.i(20, 120), fused = 0, in = 0, out = 0, none = 0; Hash hh;
  for (int k = 0; k < n; ++k)
  {
    ts += g.p(0.05) ? g.i(1000, 30000) : g.i(0, 800);
    x += g.g(); y += g.g();
    auto mk = [&](nc::Provider pr, const char* lev) { R::Pos p; double nz = g.pickd({0.5, 3, 20}); p.x = x + nz * g.g(); p.y = y + nz * g.g(); p.dev = g.r(0, 15); p.lev = lev; p.ts = ts - (g.p(0.7) ? 0 : g.i(0, 3000)); if (p.ts < 1) p.ts = ts; p.empty = false; p.prov = pr; return p; };
    R::Pos i, o;
    if (g.p(pi)) i = mk(nc::Provider::INDOOR, "A");
    if (g.p(po)) o = mk(nc::Provider::GNSS, g.p(0.8) ? "A" : "B");
    // ages on and next to the limit
    if (g.p(0.08) && !ref.in.empty) ts = std::max(ts, ref.in.ts + (long long)(1000 * c.positionIsTooOldSec) + g.i(-1, 1));
    bool okStatus = g.p(0.85);
    R::Tie tie;
    auto w = ref.step(ts, i, o, okStatus, tie);
    auto p = pp.fusePositions(ts, toNc(i), toNc(o), okStatus ? nc::OK : nc::NO_SOLUTION);
    event();
    if (tie.hit) { skip(); return; }
    if (!eq(p, w)) { violation("fusion:result", fmt("step %d at %lld: %s, model %s (indoor %s, outdoor %s, known indoor %s dev %.4f, outdoor %s dev %.4f)", k, ts, show(p).c_str(), show(w).c_str(), show(i).c_str(), show(o).c_str(), show(ref.in).c_str(), ref.inDev, show(ref.out).c_str(), ref.outDev)); return; }
    if (w.empty) none++; else if (w.prov == nc::Provider::FUSED)
    {
      fused++;
      // on the segment between the two
      CHECK_THAT(R::segDist({ref.in.x, ref.in.y}, {ref.out.x, ref.out.y}, {p.x, p.y}) < 1e-6, "fusion:segment", "(%.5f,%.5f) is not between the two", p.x, p.y);
    }
    else (w.prov == nc::Provider::GNSS ? out : in)++;
    // what fusion remembers is what the debug state shows
    auto mi = pp.getIndoorPosition(); auto mo = pp.getOutdoorPosition();
    CHECK_THAT(eq(mi, ref.in) && eq(mo, ref.out), "fusion:memory", "remembers %s / %s, expected %s / %s", show(mi).c_str(), show(mo).c_str(), show(ref.in).c_str(), show(ref.out).c_str());
    hh.d(p.x).l((int)p.provider);
  }
  note("fused", fused); note("indoor", in); note("outdoor", out); note("none", none);
  if ((fused > 0) + (in > 0) + (out > 0) >= 2) distinct(hh.h);
  sample(fmt("%d steps: %d fused, %d indoor, %d outdoor, %d none", n, fused, in, out, none));
}
#endif

#ifdef PART_AB
static void run(long long, Rng& g)
{
  G::MapOpt mo; mo.rps = mo.graph = false; mo.maxTx = 1; mo.maxLevels = 2;
  auto m = G::genMap(g, mo);
  CommonSettings c = G::genSettings(g);
  c.useBarriers = g.p(0.4);
  auto coll = G::collector(m);
  nc::PositionSmootherAB s(G::settings(m, c));
  R::AB ref(c);
  Walk wk(g, m);
  double noise = g.pickd({0, 0.3, 1, 4}); int n = (int)g.i(20, 120), restarts = 0, filtered = 0; Hash hh; bool first = true;
  double jump = g.pickd({0, 0.03, 0.3});
  for (int k = 0; k < n; ++k)
  {
    auto p = wk.next(g, noise, 0.02, jump);
    if (g.p(0.05)) { p.ts = std::max(1LL, p.ts - g.i(0, 3000)); }
    if (g.p(0.03)) { s.reset(toNc(p)); ref.reset(p); if (g.p(0.5)) continue; }
    const auto& l = *m.byId(p.lev);
    R::Tie tie; tie.tol = 1e-7;
    bool stale = !first && p.ts <= ref.s.ts;
    auto w = ref.step(p, l, tie);
    auto q = s.smoothPosition(toNc(p), coll->level(nc::LevelId(l.id)));
    event();
    if (tie.hit) { skip(); return; }
    first = false;
    bool dev = !c.useAccuracyForSmoothing;
    // the returned radius while following accuracy is the filter's own business
    if (!eq(q, w, 1e-6, dev)) { violation(stale ? "ab:stale" : "ab:position", fmt("step %d: %s, model %s for input %s", k, show(q).c_str(), show(w).c_str(), show(p).c_str())); return; }
    if (!stale) (q.x == p.x && q.y == p.y ? restarts : filtered)++;
    hh.d(q.x).d(q.y);
  }
  note("restarts", restarts); note("filtered", filtered);
  if (filtered > 3) distinct(hh.h);
  sample(fmt("%d positions, noise %.1f m: %d filtered, %d taken as they are; alpha %.2f barriers %d speed %d accuracy %d", n, noise, filtered, restarts, ref.alpha, (int)c.useBarriers, (int)c.useSpeedConstraint, (int)c.useAccuracyForSmoothing));
}
#endif

#ifdef PART_FIT
// condition number (1-norm) of the normal equations' matrix about zero
static double condition(const std::deque<double>& X, int n)
{
  int k = n + 1;
  std::vector<std::vector<long double>> A(k, std::vector<long double>(2 * k, 0)), B;
  for (double x : X) for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) A[i][j] += powl((long double)x, i + j);
  for (int i = 0; i < k; ++i) A[i][k + i] = 1;
  B = A;
  for (int c = 0; c < k; ++c)
  {
    int pv = c; for (int r = c + 1; r < k; ++r) if (fabsl(A[r][c]) > fabsl(A[pv][c])) pv = r;
    std::swap(A[pv], A[c]);
    if (fabsl(A[c][c]) == 0) return 1e30;
    long double d = A[c][c];
    for (int j = 0; j < 2 * k; ++j) A[c][j] /= d;
    for (int r = 0; r < k; ++r) if (r != c) { long double f = A[r][c]; for (int j = 0; j < 2 * k; ++j) A[r][j] -= f * A[c][j]; }
  }
  long double a = 0, b = 0;
  for (int j = 0; j < k; ++j) { long double s = 0, t = 0; for (int i = 0; i < k; ++i) { s += fabsl(B[i][j]); t += fabsl(A[i][k + j]); } a = std::max(a, s); b = std::max(b, t); }
  return (double)(a * b);
}
static void run(long long k, Rng& g)
{
  const std::string& a = ctx().arg;
  if (a == "solver")
  {
    int n = (int)g.i(1, 6);
    std::vector<double> A((size_t)(n * n)), x0((size_t)n), b((size_t)n), x((size_t)n, 777);
    // well-conditioned: an orthogonal-ish or diagonally dominant matrix, rows permuted
    int kind = (int)g.i(0, 2);
    std::vector<int> perm((size_t)n); for (int i = 0; i < n; ++i) perm[(size_t)i] = i; if (g.p(0.7)) g.shuffle(perm);
    for (int i = 0; i < n; ++i)
    {
      double sum = 0;
      for (int j = 0; j < n; ++j) { double v = kind == 0 ? 0 : (kind == 2 && g.p(0.5) ? 0 : g.r(-1, 1)); A[(size_t)(perm[(size_t)i] * n + j)] = v; if (j != i) sum += std::fabs(v); }
      A[(size_t)(perm[(size_t)i] * n + i)] = (g.p(0.5) ? 1 : -1) * (sum + g.r(0.5, 2));
    }
    for (auto& v : x0) v = g.r(-10, 10);
    for (int i = 0; i < n; ++i) { b[(size_t)i] = 0; for (int j = 0; j < n; ++j) b[(size_t)i] += A[(size_t)(i * n + j)] * x0[(size_t)j]; }
    nc::solveLinearSystem(A, b, x, n);
    for (int i = 0; i < n; ++i)
      if (!near(x[(size_t)i], x0[(size_t)i], 1e-8)) { violation("solver:solution", fmt("%dx%d kind %d: x[%d] = %.10g, true %.10g", n, n, kind, i, x[(size_t)i], x0[(size_t)i])); break; }
    event(n); distinct((uint64_t)k); note(fmt("size_%d", n));
    return;
  }
  if (a == "poly")
  {
    int power = (int)g.i(0, 3); double interval = g.pickd({0.5, 2, 5}), shift = g.pickd({0, 0.3, 0.7}), w = g.pickd({0.2, 0.5, 1, 0});
    nc::PolynomialFit f(power, interval, shift, w);
    R::Fit ref(power, interval, shift, w);
    double t = g.r(0, 1), y = g.r(0, 40), v = g.r(-2, 2); int n = (int)g.i(5, 80), cmp = 0; Hash hh; bool eighths = g.p(0.3);
    CHECK_THAT(f.predict(t) == -1.0, "fit:empty", "prediction without points is %g", f.predict(t));
    for (int q = 0; q < n; ++q)
    {
      t += g.r(0.05, 0.4); if (g.p(0.05)) t += g.r(0, 2 * interval);
      if (eighths) t = std::ceil(t * 8) / 8;     // ages of exactly the window's length
      y += v * 0.2 + 0.3 * g.g(); if (g.p(0.1)) v = g.r(-2, 2);
      bool repeat = g.p(0.1) && !ref.Y.empty();
      double yy = repeat ? ref.Y.back() : y;
      if (g.p(0.03)) { f.clear(); ref.clear(); note("clears"); }
      f.addSequencePoint(t, yy); ref.add(t, yy);
      double at = g.p(0.7) ? t : t + g.r(0, 0.3);
      double want = ref.predict(at), got = f.predict(at);
      event();
      // conditioning: powers of large, close abscissae lose digits
      double cond = ref.X.size() > (size_t)power && power > 0 ? condition(ref.X, power) * 1e-15 : 0;
      if (!ref.ok || cond > 1e-7) { skip(); ref.ok = true; if (cond > 1e-2) return; ref.lastOut = got; continue; }
      if (!near(got, want, 1e-4)) { violation("fit:prediction", fmt("power %d window %zu points, at %.4f: %.9g, least squares gives %.9g", power, ref.X.size(), at, got, want)); return; }
      cmp++; hh.d(got);
      ref.lastOut = got;
    }
    note("compared", cmp); note(fmt("power_%d", power));
    if (cmp > 3) distinct(hh.h);
    sample(fmt("power %d interval %.1f shift %.1f weight %.1f: %d predictions compared", power, interval, shift, w, cmp));
    return;
  }
  G::MapOpt mo; mo.rps = mo.graph = false; mo.maxTx = 1; mo.maxLevels = 2;
  auto m = G::genMap(g, mo);
  CommonSettings c = G::genSettings(g);
  c.sigAveragingTime = g.pickd({2, 5, 10}); c.sigWindowShift = g.pickd({0, 0.3, 0.7}); c.useBarriers = g.p(0.4);
  auto coll = G::collector(m);
  nc::PositionSmootherLstsq s(G::settings(m, c));
  R::Lstsq ref(c);
  Walk wk(g, m);
  double noise = g.pickd({0.3, 1, 3}); int n = (int)g.i(10, 50), filtered = 0; Hash hh;
  for (int q = 0; q < n; ++q)
  {
    auto p = wk.next(g, noise, 0.02, 0.02, !g.p(0.1) || q < 5);
    if (g.p(0.04)) { s.reset(toNc(p)); ref.reset(p); }
    const auto& l = *m.byId(p.lev);
    R::Tie tie;
    auto w = ref.step(p, l, tie);
    auto got = s.smoothPosition(toNc(p), coll->level(nc::LevelId(l.id)));
    event();
    if (tie.hit || (ref.fx.X.size() > 1 && ref.fx.X.back() - ref.fx.X.front() < 0.02)) { skip(); return; }
    if (!eq(got, w, 2e-5)) { violation("lstsq:position", fmt("step %d: %s, model %s for input %s", q, show(got).c_str(), show(w).c_str(), show(p).c_str())); return; }
    if (got.x != p.x) filtered++;
    hh.d(got.x);
  }
  note("filtered", filtered);
  if (filtered > 3) distinct(hh.h);
}
#endif

#ifdef PART_TIME
static void run(long long, Rng& g)
{
  G::MapOpt mo; mo.rps = mo.graph = mo.zones = false; mo.maxTx = 1; mo.maxLevels = 3;
  auto m = G::genMap(g, mo);
  nc::NavigationTimeSmoother s; R::TimeSm ref;
  Walk wk(g, m);
  R::Pos p = wk.next(g, 0.5, 0, 0); long long now = p.ts;
  int n = (int)g.i(20, 150), mid = 0; Hash hh; std::vector<R::Pos> known{p};
  for (int k = 0; k < n; ++k)
  {
    if (g.p(0.3)) { p = wk.next(g, 0.5, 0.05, 0.02); now = std::max(now, p.ts); if (g.p(0.03)) { p.ts = std::max(1LL, p.ts - 500); } if (g.p(0.03)) p.empty = true; }
    else now += g.p(0.1) ? 0 : g.i(1, 400);
    wk.ts = std::max(wk.ts, now);
    auto w = ref.step(p, now);
    auto q = s.getTimeSmoothedPosition(toNc(p), now);
    event();
    if (!eq(q, w)) { violation("time:position", fmt("step %d at %lld: %s, model %s, last known %s", k, now, show(q).c_str(), show(w).c_str(), show(p).c_str())); return; }
    if (!q.isEmpty && !w.empty && (q.x != p.x || q.y != p.y))
    {
      mid++;
      CHECK_THAT(R::segDist({ref.a.x, ref.a.y}, {ref.b.x, ref.b.y}, {q.x, q.y}) < 1e-6, "time:segment", "(%.4f,%.4f) is off the segment", q.x, q.y);
    }
    hh.d(q.x).l(q.ts);
  }
  note("interpolated", mid);
  if (mid > 2) distinct(hh.h);
  sample(fmt("%d calls, %d interpolated", n, mid));
}
#endif

#ifdef PART_POST
// P19 (plain), P20 (stop), P21 (graph)
static void run(long long, Rng& g)
{
  const std::string& a = ctx().arg;
  bool stop = a == "stop", graph = a == "graph";
  G::MapOpt mo; mo.rps = false; mo.maxTx = 1; mo.maxLevels = 3; mo.graph = true;
  auto m = G::genMap(g, mo);
  CommonSettings c = G::genSettings(g);
  if (!stop && !graph)
  {
    // everything that may move a position is off in half of the runs
    if (g.p(0.5)) c.useSmoothing = c.useTimeSmoothing = c.useStops = c.useGraphProjection = false;
    c.useGpsOutsideMap = g.p(0.3);
  }
  if (stop) { c.useStops = g.p(0.9); c.useSmoothing = g.p(0.3); c.useTimeSmoothing = false; c.useGraphProjection = g.p(0.4); c.useGpsOutsideMap = false; c.deadReckoningTime = 60; c.useAbFilter = true; }
  if (graph) { c.useGraphProjection = true; c.useSmoothing = c.useTimeSmoothing = c.useStops = false; c.graphProjDist = g.pickd({0.3, 2, 8, 1000}); }
  if (c.useSmoothing && !c.useAbFilter) { c.sigAveragingTime = g.pickd({2, 5}); c.sigWindowShift = g.pickd({0, 0.3}); }
  auto coll = G::collector(m);
  nc::PositionPostprocessor pp(G::settings(m, c));
  R::Post ref(c);
  Walk wk(g, m);
  R::Pos p; long long now = wk.ts, step = 0; int n = (int)g.i(20, 150), some = 0, none = 0, held = 0, snapped = 0, changes = 0; Hash hh;
  double ox = -1e9, oy = 0; long long changeTs = 0; bool off = false;
  double pNew = g.pickd({0.2, 0.6, 1}), pStep = g.pickd({0, 0.02, 0.1}), indoorDev = 0;
  for (int k = 0; k < n; ++k)
  {
    const bool night = g.p(0.006);                     // nothing for hours
    if (night) now += g.i(40000, 400000000);
    if (p.empty || night || g.p(pNew))
    {
      wk.ts = now;
      p = wk.next(g, g.pickd({0.2, 2}), 0.04, 0.03); now = p.ts;
      if (g.p(0.1)) { p.x += g.r(-30, 30); p.y += g.r(-30, 30); }      // maybe off the map
      if (g.p(0.05)) { p.x = g.p(0.5) ? 0.01 * (double)g.i(1, 500) : p.x; }
      if (g.p(0.5)) { p.prov = nc::Provider::GNSS; }
      if (g.p(0.5))
      {
        // fusion's memory of the indoor radius is what moving positions carry
        R::Pos in = p; in.dev = g.r(0.1, 9); in.prov = nc::Provider::INDOOR; indoorDev = in.dev;
        pp.fusePositions(now, toNc(in), nc::Position(), nc::OK);
      }
    }
    else now += g.p(0.03) ? g.i(1000, 8000) : g.i(0, 300);
    if (g.p(0.05)) now = std::max(now, p.ts + (long long)(1000 * c.deadReckoningTime) + g.i(-1, 0));
    if (g.p(0.03)) p.empty = true;
    long long mt = g.p(pStep) ? now : 0;
    if (mt) step = mt;
    const auto& l = m.lv[wk.li];
    nc::MotionInfo mi; mi.lastMotionTs = mt; mi.isStepDetected = mt > 0;
    auto prev = ref;
    R::Tie tie; tie.tol = 1e-7;
    auto w = ref.step(p, now, mt, l, indoorDev, tie);
    auto q = pp.getProcessedPosition(toNc(p), now, mi, coll->level(nc::LevelId(l.id)));
    event();
    if (tie.hit) { skip(); return; }
    if (q.isEmpty != w.empty) { violation(w.empty ? "post:rejected" : "post:accepted", fmt("step %d at %lld: %s, model %s, fused %s (box %.4f x %.4f)", k, now, show(q).c_str(), show(w).c_str(), show(p).c_str(), l.W, l.Hh)); return; }
    if (q.isEmpty) { none++; continue; }
    some++;
    if (!stop && !graph)
    {
      { auto& b = *m.byId(q.levelId.value); CHECK_THAT(q.x >= -0.0100001 && q.y >= -0.0100001 && q.x <= b.W + 1e-7 && q.y <= b.Hh + 1e-7, "post:box", "(%.6f,%.6f) outside %.4f x %.4f of its level", q.x, q.y, b.W, b.Hh); }
      CHECK_THAT(q.ts == now, "post:time", "stamped %lld at %lld", q.ts, now);
      CHECK_THAT(std::fabs(q.x * 100 - std::round(q.x * 100)) < 1e-6 && std::fabs(q.y * 100 - std::round(q.y * 100)) < 1e-6, "post:centimetres", "(%.9f,%.9f) is not whole centimetres", q.x, q.y);
      if (!c.useSmoothing && !c.useTimeSmoothing && !c.useStops && !c.useGraphProjection && !c.useGpsOutsideMap)
        CHECK_THAT(q.x <= p.x + 1e-7 && q.x > p.x - 0.0100001 && q.y <= p.y + 1e-7 && q.y > p.y - 0.0100001, "post:plain", "(%.6f,%.6f) from fused (%.6f,%.6f)", q.x, q.y, p.x, p.y);
    }
    bool still = c.useStops && step > 0 && now - step >= (long long)(1000 * c.stopDetectionTime);
    if (stop && ox > -1e8 && !off)
    {
      if (still && (q.x != ox || q.y != oy))
      {
        if (changeTs > 0 && now - changeTs < (long long)(1000 * c.stopUpdateTime))
        { violation("stop:moved", fmt("step %d at %lld: (%.2f,%.2f) -> (%.2f,%.2f), last change %lld ms ago, standing since %lld", k, now, ox, oy, q.x, q.y, now - changeTs, step)); return; }
        changeTs = now; changes++;
      }
      if (still) held++;
    }
    if (!still) changeTs = 0;
    ox = q.x; oy = q.y;
    // whole centimetres: allow either side when the model's value is at the edge
    if (std::fabs(q.x - w.x) > 1e-7 || std::fabs(q.y - w.y) > 1e-7)
    {
      bool close = std::fabs(q.x - w.x) < 0.0100001 && std::fabs(q.y - w.y) < 0.0100001;
      bool edge = std::fabs(p.x * 100 - std::round(p.x * 100)) < 1e-4 || std::fabs(p.y * 100 - std::round(p.y * 100)) < 1e-4 || c.useSmoothing || c.useTimeSmoothing || c.useGraphProjection;
      if (!(close && edge)) { violation(graph ? "post:graph" : stop ? "post:stop" : "post:position", fmt("step %d at %lld: %s, model %s, fused %s (still %d)", k, now, show(q).c_str(), show(w).c_str(), show(p).c_str(), (int)still)); return; }
      note("rounding_edges");
      ref.lastOut.x = q.x; ref.lastOut.y = q.y;
    }
    CHECK_THAT(q.levelId.value == w.lev && q.provider == w.prov, "post:fields", "%s, model %s", show(q).c_str(), show(w).c_str());
    if (!near(q.deviationM, w.dev, 1e-7)) { violation("post:radius", fmt("step %d radius %.6f, model %.6f", k, q.deviationM, w.dev)); return; }
    if (c.useGraphProjection && (std::fabs(q.x - p.x) > 0.011 || std::fabs(q.y - p.y) > 0.011)) snapped++;
    hh.d(q.x).d(q.y);
    (void)prev;
  }
  note("positions", some); note("none", none); note("held", held); note("snapped", snapped); note("moves_while_standing", changes);
  if ((stop && held) || (graph && snapped) || (!stop && !graph && some && none)) distinct(hh.h);
  sample(fmt("%d steps: %d positions, %d none, %d held, %d moves while standing, %d snapped", n, some, none, held, changes, snapped));
}
#endif

int main(int argc, char** argv) { G::Quiet q; return runCases(argc, argv, run); }
