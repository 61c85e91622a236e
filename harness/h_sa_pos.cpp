// P35 standalone position estimation.  arg: model | hostile
#include "ref_motion.hpp"
#include "measurement_preprocessor.h"
#include "nearest_transmitter_estimator.h"
#include "position_smoother.h"
using namespace H;
namespace nc = navigine::navigation_core;
using RM = nc::RadioMeasurement;

struct Buf
{
  std::vector<RM> kept; long long cur = -1, last = -1, avg, shift; bool wifi, ble; long long now = -1;
  Buf(double a, double s, bool w, bool b) : avg((long long)(1000 * a)), shift((long long)(1000 * s)), wifi(w), ble(b) { if (shift == 0 || shift > avg) shift = avg; }
  void update(const RM& m)
  {
    if ((m.type == RM::Type::WIFI ? wifi : ble) && m.rssi > -100 && m.rssi < 0)
    {
      if (cur == -1) cur = last = m.ts;
      if (m.ts > last) kept.push_back(m);
      cur = std::max(cur, m.ts);
    }
    now = std::max(now, m.ts);
  }
  struct E { std::string id; double rssi, dist; std::set<long long> ts; };
  std::vector<E> extract(R::Tie& tie)
  {
    std::vector<E> o;
    if (cur - last < shift) return o;
    last = cur;
    std::map<std::string, std::vector<RM>> by;
    for (auto& m : kept) by[m.id].push_back(m);
    for (auto& kv : by)
    {
      E e; e.id = kv.first; e.rssi = e.dist = 0;
      for (auto& m : kv.second) { e.rssi += m.rssi; e.dist += m.distance; e.ts.insert(m.ts); }
      e.rssi /= (double)kv.second.size(); e.dist /= (double)kv.second.size();
      o.push_back(e);
    }
    std::sort(o.begin(), o.end(), [](const E& a, const E& b) { return a.rssi > b.rssi; });
    for (size_t k = 1; k < o.size() && k < 7; ++k) tie.lt(o[k].rssi, o[k - 1].rssi);
    if (o.size() > 5) o.resize(5);
    if (avg == shift) kept.clear();
    else { std::vector<RM> n; for (auto& m : kept) if (m.ts >= cur - (avg - shift)) n.push_back(m); kept.swap(n); }
    return o;
  }
};

// constant gain filter
struct AB
{
  double a; bool any = false; double x = 0, y = 0, prec = 0, vx = 0, vy = 0; long long ts = -1; bool empty = true;
  explicit AB(double s) { s = std::min(1.0, std::max(0.0, s)); a = 0.1 * s + 0.9 * (1 - s); }
  void step(double mx, double my, double p, long long t)
  {
    if (t <= ts) return;
    double dt = (t - ts) / 1000.0, b = a * a / (2 - a), px = x + vx * dt, py = y + vy * dt;
    if (!any || dt > 10) { x = mx; y = my; vx = vy = 0; }
    else { vx += b / dt * (mx - px); vy += b / dt * (my - py); x = px + a * (mx - px); y = py + a * (my - py); }
    any = true; prec = p; ts = t; empty = false;
  }
};

static void run(Rng& g, bool hostile)
{
  double avg = g.pickd({3, 3, 1, 0.5, 2, 5}), shift = g.pickd({2, 2, 0, 0.3, 1, 10}); bool wifi = !g.p(0.15), ble = !g.p(0.15), def = g.p(0.3);
  if (def) { avg = 3; shift = 2; wifi = ble = true; }
  nc::MeasurementsPreprocessor p = def ? nc::MeasurementsPreprocessor() : nc::MeasurementsPreprocessor(avg, shift, wifi, ble);
  Buf b(avg, shift, wifi, ble);
  std::vector<nc::Transmitter> txs; int n = (int)g.i(1, 14); std::map<std::string, R::P2> at;
  for (int k = 0; k < n; ++k) { nc::Transmitter t; t.id = fmt("t%d", k); t.x = g.r(-100, 300); t.y = g.r(-100, 300); t.type = g.p(0.5) ? nc::Transmitter::Type::WIFI : nc::Transmitter::Type::BEACON; txs.push_back(t); at[t.id] = {t.x, t.y}; }
  nc::NearestTransmitterPositionEstimator est(txs);
  AB ab(0.9);
  long long ts = g.p(0.5) ? 1541003875000LL : g.i(0, 2000); int N = (int)g.i(50, 500), releases = 0, positions = 0, moved = 0; Hash hh;
  double every = g.pickd({1, 1, 0.5, 0.1}), late = g.pickd({0, 0, 0.1}), ux = g.u() * n; int dtMax = (int)g.pickd({20, 100, 400, 1500});
  bool integer = g.p(0.5), direct = g.p(0.3);
  for (int k = 0; k < N; ++k)
  {
    ts += g.p(0.02) ? g.i(1000, 15000) : g.p(0.2) ? 0 : g.i(1, dtMax);
    ux += g.r(-0.3, 0.3);
    RM m; int i = g.p(0.1) ? n + (int)g.i(0, 2) : (int)g.i(0, n - 1);
    m.id = fmt("t%d", i); m.ts = g.p(late) ? ts - g.i(0, 5000) : ts; if (m.ts < 0) m.ts = 0; m.type = g.p(0.5) ? RM::Type::WIFI : RM::Type::BEACON;
    m.rssi = -50 - 8 * std::fabs(ux - i) + 3 * g.g(); if (integer) m.rssi = std::floor(m.rssi); m.distance = g.r(0, 40);
    if (g.p(0.05)) m.rssi = g.pickd({-100, -99.99, 0, -0.01, 5, -130});
    if (hostile && g.p(0.2)) m.rssi = g.pickd({INFINITY, -INFINITY, NAN, 1e300, -99.9999, -1e-300});
    if (hostile && g.p(0.2)) m.distance = g.pickd({INFINITY, -INFINITY, NAN, 1e300, -5});
    if (hostile && g.p(0.1)) m.ts = (long long)g.pickd({-1, 0, -1e12, 1e15, 5});
    p.update(m); b.update(m);
    event();
    if (!hostile) CHECK_THAT(p.getCurrentTs() == b.now, "preprocess:time", "current time %lld, model %lld", p.getCurrentTs(), b.now);
    if (!g.p(every)) continue;
    R::Tie tie; auto want = b.extract(tie); auto got = p.extractRadioMeasurements();
    if (hostile) { auto q = est.calculatePosition(got); hh.d(q.x); releases += !got.empty(); continue; }
    if (got.size() != want.size()) { violation("preprocess:count", fmt("message %d: %zu averaged signals, model %zu", k, got.size(), want.size())); return; }
    if (!got.empty()) releases++;
    std::map<std::string, const RM*> gm; for (auto& q : got) gm[q.id] = &q;
    if (!tie.hit)
      for (size_t q = 0; q < got.size(); ++q)
      {
        CHECK_THAT(got[q].id == want[q].id && near(got[q].rssi, want[q].rssi, 1e-9) && near(got[q].distance, want[q].dist, 1e-9), "preprocess:average",
                   "rank %zu: %s %.9f %.9f, model %s %.9f %.9f", q, got[q].id.c_str(), got[q].rssi, got[q].distance, want[q].id.c_str(), want[q].rssi, want[q].dist);
        CHECK_THAT(want[q].ts.count(got[q].ts), "preprocess:stamp", "%s stamped %lld, no such reading in the window", got[q].id.c_str(), got[q].ts);
      }
    for (size_t q = 1; q < got.size(); ++q) CHECK_THAT(got[q - 1].rssi >= got[q].rssi, "preprocess:order", "signals are not in order of strength");
    if (!got.empty()) { for (auto& q : got) hh.s(q.id).d(q.rssi); }
    // the estimator gets what was released, or any other list
    if (direct) { got.clear(); int c = (int)g.i(0, 6); for (int q = 0; q < c; ++q) { RM r; r.type = RM::Type::BEACON; r.id = fmt("t%lld", g.i(0, n + 1)); r.ts = g.p(0.3) ? ts - g.i(0, 9000) : ts; r.rssi = g.r(-99, -30); got.push_back(r); } }
    auto pos = est.calculatePosition(got);
    event();
    const RM* best = nullptr; const RM* lastKnown = nullptr; bool tied = false;
    for (auto& q : got) if (at.count(q.id)) { lastKnown = &q; if (!best || q.rssi > best->rssi) { if (best && std::fabs(q.rssi - best->rssi) < 1e-9) tied = true; best = &q; } else if (std::fabs(q.rssi - best->rssi) < 1e-9 && q.id != best->id) tied = true; }
    if (!best) { CHECK_THAT(pos.isEmpty, "estimate:none", "a position without any known transmitter"); continue; }
    if (tied) { skip(); return; }
    double x0 = ab.x;
    ab.step(at[best->id].x, at[best->id].y, std::sqrt(std::exp((-82.0 - best->rssi) / 3.0)) + 1.0, lastKnown->ts);
    CHECK_THAT(pos.isEmpty == ab.empty, "estimate:empty", "empty %d, model %d", (int)pos.isEmpty, (int)ab.empty);
    if (pos.isEmpty) continue;
    positions++; moved += ab.x != x0; hh.d(pos.x);
    if (!near(pos.x, ab.x, 1e-9) || !near(pos.y, ab.y, 1e-9)) { violation("estimate:place", fmt("message %d: (%.9f,%.9f), model (%.9f,%.9f)", k, pos.x, pos.y, ab.x, ab.y)); return; }
    CHECK_THAT(near(pos.precision, ab.prec, 1e-9), "estimate:precision", "radius %.9f, model %.9f", pos.precision, ab.prec);
    CHECK_THAT(pos.ts == ab.ts, "estimate:time", "time %lld, model %lld", pos.ts, ab.ts);
  }
  note("releases", releases); note("positions", positions); note("moves", moved);
  if (releases > 1) distinct(hh.h);
  sample(fmt("%d transmitters, %d readings, averaging %.1f s shift %.1f s: %d releases, %d positions", n, N, avg, shift, releases, positions));
}

// the filter on its own
static void smooth(Rng& g)
{
  double s = g.pickd({0.5, 0, 1, 0.9, 0.3, -1, 2}); bool def = s == 0.5 && g.p(0.5);
  nc::PositionSmoother f = def ? nc::PositionSmoother() : nc::PositionSmoother(s); AB ab(s);
  long long ts = g.p(0.5) ? 1541003875000LL : g.i(0, 2000); double x = g.r(-100, 100), y = g.r(-100, 100); int n = (int)g.i(5, 200); Hash hh;
  for (int k = 0; k < n; ++k)
  {
    ts += g.p(0.05) ? g.i(9990, 10010) : g.p(0.1) ? -g.i(0, 3000) : g.i(0, 2500);
    if (ts < 0) ts = 0;
    x += 2 * g.g(); y += 2 * g.g(); if (g.p(0.02)) x += 100;
    nc::Position q; q.x = x; q.y = y; q.precision = g.r(1, 10); q.isEmpty = false; q.ts = ts;
    auto o = f.smoothPosition(q); ab.step(x, y, q.precision, ts); event();
    if (!near(o.x, ab.x, 1e-9) || !near(o.y, ab.y, 1e-9) || o.ts != ab.ts || o.precision != ab.prec || o.isEmpty != ab.empty)
    { violation("smooth:place", fmt("position %d: (%.9f,%.9f) at %lld, model (%.9f,%.9f) at %lld", k, o.x, o.y, o.ts, ab.x, ab.y, ab.ts)); return; }
    hh.d(o.x);
  }
  distinct(hh.h);
}

int main(int argc, char** argv)
{ return runCases(argc, argv, [](long long, Rng& g) { if (ctx().arg == "smooth") smooth(g); else run(g, ctx().arg == "hostile"); }); }
