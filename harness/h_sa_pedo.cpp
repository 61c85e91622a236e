// P36 standalone pedometer.  arg: model | rest | hostile
#include "ref_motion.hpp"
#include <pedometer.h>
using namespace H;
namespace nc = navigine::navigation_core;
using R::P3;
static nc::SensorMeasurement msr(const P3& v, long long ts) { nc::SensorMeasurement m; m.values = nc::Vector3d(v.x, v.y, v.z); m.ts = ts; return m; }

struct Body
{
  double freq, amp, phase = 0, noise, gx, gy, gz; bool rest = false, uniform; int dtMax; long long ts; double pGap;
  explicit Body(Rng& g)
  {
    freq = g.r(0.8, 3); amp = g.pickd({0.5, 1, 2, 4, 8}); noise = g.pickd({0, 0.05, 0.3, 2}); ts = g.p(0.5) ? 1541003875000LL : g.i(1, 2000);
    double a = g.r(0, 6.28), b = g.r(-1.5, 1.5); gx = std::cos(a) * std::cos(b); gy = std::sin(a) * std::cos(b); gz = std::sin(b);
    uniform = g.p(0.5); dtMax = (int)g.pickd({10, 20, 40, 100, 250}); pGap = g.pickd({0, 0.005, 0.01});
  }
  P3 next(Rng& g)
  {
    long long dt = uniform ? dtMax : g.i(1, dtMax);
    if (g.p(pGap)) dt = g.i(300, 8000);
    if (g.p(0.01)) dt = (long long)g.pickd({0, 199, 200, 201, 300, 301, 699});
    ts += dt;
    if (g.p(0.005)) rest = !rest;
    if (g.p(0.01)) { freq = g.r(0.8, 3); amp = g.pickd({0.5, 1, 2, 4, 8}); }
    phase += 6.2831853 * freq * dt / 1000.0;
    double a = 9.80665 + (rest ? 0 : amp * std::sin(phase)) + (rest ? 0.02 : noise) * g.g();
    return {gx * a, gy * a, gz * a};
  }
};

// one pedometer fed in its own grouping, next to its model
struct Fed
{
  nc::Pedometer p; R::Pedo ref; std::vector<nc::Step> all; int group, calls; std::vector<nc::SensorMeasurement> buf; bool bad = false;
  Fed(int gr, int c) : group(gr), calls(c) { ref.grouped = true; }
  bool feed(Rng& g, const nc::SensorMeasurement& m, bool last)
  {
    buf.push_back(m);
    if ((int)buf.size() < (group ? group : 1 + (int)g.i(0, 30)) && !last) return true;
    p.update(buf); buf.clear();
    if (g.p(0.05)) p.update({});
    if (!last && !g.p(1.0 / calls)) return true;
    auto got = p.calculateSteps(); R::Tie tie; tie.tol = 1e-7; auto want = ref.steps(tie);
    event();
    if (tie.hit) { skip(); bad = true; return false; }
    if (got.size() != want.size()) { violation("steps:count", fmt("at %lld: %zu steps, model %zu (groups of %d, queries after %d)", m.ts, got.size(), want.size(), group, calls)); bad = true; return false; }
    for (size_t q = 0; q < got.size(); ++q)
    {
      if (got[q].ts != want[q].ts) { violation("steps:time", fmt("step at %lld, model %lld", got[q].ts, want[q].ts)); bad = true; return false; }
      if (!near(got[q].len, want[q].len, 1e-6)) { violation("steps:length", fmt("step of %.9f m, model %.9f", got[q].len, want[q].len)); bad = true; return false; }
      if (!all.empty()) CHECK_THAT(got[q].ts - all.back().ts > 300, "steps:spacing", "steps at %lld and %lld", all.back().ts, got[q].ts);
      all.push_back(got[q]);
    }
    if (g.p(0.1)) { auto again = p.calculateSteps(); R::Tie t2; ref.steps(t2); CHECK_THAT(again.empty(), "steps:again", "asked again at once: %zu steps", again.size()); }
    return true;
  }
};

static void model(Rng& g)
{
  Body b(g); int n = (int)g.i(20, 700); std::vector<nc::SensorMeasurement> v; long long gap = 0;
  for (int k = 0; k < n; ++k) { P3 a = b.next(g); v.push_back(msr(a, b.ts)); if (k) gap = std::max(gap, v[(size_t)k].ts - v[(size_t)k - 1].ts); }
  // a query looks at nothing while there are three samples or fewer to look at: let the last ones be more
  for (int k = 0; k < 6; ++k) { P3 a = b.next(g); b.ts = v.back().ts + 10; v.push_back(msr(a, b.ts)); ++n; }
  std::vector<Fed> fs; fs.emplace_back(1, 1); fs.emplace_back((int)g.i(1, 5), (int)g.i(1, 4)); fs.emplace_back(0, (int)g.i(1, 3)); fs.emplace_back(n, 1);
  for (auto& f : fs)
  {
    for (int k = 0; k < n; ++k)
    {
      f.ref.update(true, v[(size_t)k].ts, v[(size_t)k].values.x, v[(size_t)k].values.y, v[(size_t)k].values.z);
      // (the model sees a sample as soon as it is made, the library at the latest before the next query)
      if (!f.feed(g, v[(size_t)k], k == n - 1)) return;
      // a sample waiting in the buffer must not reach a query of the model earlier: queries only follow a flush
    }
    if (f.bad) return;
  }
  for (size_t q = 1; q < fs.size(); ++q)
  {
    auto &a = fs[0].all, &c = fs[q].all; bool same = a.size() == c.size();
    for (size_t k = 0; same && k < a.size(); ++k) same = a[k].ts == c[k].ts && (gap > 690 || near(a[k].len, c[k].len, 1e-6));
    CHECK_THAT(same, "steps:grouping", "%zu steps one sample at a time, %zu in groups of %d with queries after %d", a.size(), c.size(), fs[q].group, fs[q].calls);
    event();
  }
  note("steps", (long long)fs[0].all.size());
  Hash hh; for (auto& s : fs[0].all) hh.l(s.ts).d(s.len);
  if (!fs[0].all.empty()) distinct(hh.h);
  sample(fmt("%d samples of %s%d ms, amplitude %.1f, noise %.2f: %zu steps in four groupings", n, b.uniform ? "" : "up to ", b.dtMax, b.amp, b.noise, fs[0].all.size()));
}

static void restCase(Rng& g)
{
  nc::Pedometer p; Body b(g); b.rest = true; int n = (int)g.i(300, 900); double bias = g.r(-0.5, 0.5), jitter = g.r(0, 0.06);
  for (int k = 0; k < n; ++k)
  {
    b.next(g); double a = 9.8 + bias + std::max(-2.5 * jitter, std::min(2.5 * jitter, jitter * g.g()));
    p.update({msr({b.gx * a, b.gy * a, b.gz * a}, b.ts)});
    if (g.p(0.5)) continue;
    CHECK_THAT(p.calculateSteps().empty(), "steps:rest", "sample %d of a resting device made a step", k);
    event();
  }
  distinct(g.next());
}

static void hostile(Rng& g)
{
  nc::Pedometer p; Body b(g); int n = (int)g.i(20, 400), mode = (int)g.i(0, 3), steps = 0; long long ts = b.ts; double pq = g.pickd({1, 0.3, 0.02});
  for (int k = 0; k < n; ++k)
  {
    P3 v = b.next(g); ts = b.ts;
    if (mode >= 1 && g.p(0.1)) v.x = g.pickd({INFINITY, -INFINITY, NAN, 1e308, 1e-308, 0});
    if (mode == 2 && g.p(0.2)) ts -= g.i(0, 10000);
    if (mode == 3) ts = g.p(0.5) ? ts : (long long)g.pickd({0, -1, 1, -1e15, 1e15, 5000});
    std::vector<nc::SensorMeasurement> in; in.push_back(msr(v, ts)); if (g.p(0.1)) in.clear();
    p.update(in); event();
    if (g.p(pq)) steps += (int)p.calculateSteps().size();
  }
  note("steps", steps); distinct(g.next());
}

int main(int argc, char** argv)
{
  return runCases(argc, argv, [](long long, Rng& g)
  { const std::string& a = ctx().arg; if (a == "rest") restCase(g); else if (a == "hostile") hostile(g); else model(g); });
}
