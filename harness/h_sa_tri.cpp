// P34 standalone trilateration.  arg: model | hostile
#include "common.hpp"
#include "trilateration.h"
#include <algorithm>
#include <memory>
using namespace H;

struct Bc { std::string id; double x, y; };
struct Ms { std::string id; double rssi, dist; };

static BeaconMeas toMeas(const Ms& m) { BeaconMeas b; b.setBeaconId(m.id); b.setRssi(m.rssi); b.setDistance(m.dist); return b; }

// 0 and the weighted mean, or the error
static int model(const std::vector<Bc>& bs, const std::vector<Ms>& ms, double& x, double& y)
{
  std::map<std::string, std::pair<double, int>> avg;
  for (auto& m : ms) { if (!(m.dist >= 0) || std::isinf(m.dist)) return ERROR_IN_TRILATER; avg[m.id].first += m.dist; avg[m.id].second++; }
  if (avg.size() < 3) return ERROR_NO_SOLUTION_TRILATERATION;
  long double sx = 0, sy = 0, sw = 0;
  for (auto& b : bs)
  {
    // the first beacon under an identifier counts
    if (&b != &*std::find_if(bs.begin(), bs.end(), [&](const Bc& q) { return q.id == b.id; })) continue;
    auto it = avg.find(b.id); if (it == avg.end()) continue;
    long double d = std::max(it->second.first / it->second.second, 1e-6), w = 1 / d;
    sx += w * b.x; sy += w * b.y; sw += w;
  }
  if (sw == 0) return ERROR_NO_SOLUTION_TRILATERATION;
  x = (double)(sx / sw); y = (double)(sy / sw);
  return 0;
}

static void run(Rng& g, bool hostile)
{
  std::unique_ptr<Trilateration> t(new Trilateration);
  std::vector<Bc> bs; std::vector<Ms> ms; std::vector<Beacon> lib; int solved = 0, errors = 0; Hash hh; bool measured = false, solvable = false;
  auto newMap = [&]
  {
    bs.clear(); lib.clear(); int n = (int)g.i(0, g.p(0.2) ? 60 : 25); double R = g.pickd({1, 10, 50, 500}), ox = g.p(0.3) ? g.r(-1e4, 1e4) : 0;
    for (int k = 0; k < n; ++k) bs.push_back({fmt("(%lld,%d)", g.i(0, 3), k), ox + g.r(-R, R), g.r(-R, R)});
    if (n > 1 && g.p(0.1)) bs.push_back({bs[0].id, g.r(-R, R), g.r(-R, R)});
    for (auto& b : bs) { Beacon c; c.fillData(b.x, b.y, b.id, "b", "f"); lib.push_back(c); }
    t->fillLocationBeacons(lib);
    if (g.p(0.3)) { lib.clear(); }
  };
  newMap();
  int rounds = (int)g.i(3, 25);
  for (int q = 0; q < rounds; ++q)
  {
    if (g.p(0.15)) { newMap(); solvable = false; }
    if (g.p(0.1)) { std::unique_ptr<Trilateration> c(new Trilateration(*t)); t.swap(c); note("copies"); }
    if (!measured || g.p(0.85) || !solvable)
    {
      ms.clear(); measured = true;
      double pHear = g.r(0.1, 1), pZero = g.pickd({0, 0, 0.1});
      for (auto& b : bs) if (g.p(pHear)) for (int k = 0; k < 1 + (g.p(0.3) ? (int)g.i(1, 4) : 0); ++k)
        ms.push_back({b.id, g.r(-100, -20), g.p(pZero) ? 0 : g.p(0.5) ? g.r(0.1, 30) : std::exp(g.r(-5, 7))});
      for (int k = 0; k < 3; ++k) if (g.p(0.2)) ms.push_back({fmt("?%d", k), g.r(-100, -20), g.r(0, 30)});
      if (g.p(0.03) && !ms.empty()) ms[(size_t)g.i(0, (long long)ms.size() - 1)].dist = -g.r(0.001, 5);
      double pBad = g.pickd({0, 0.03, 0.2}); if (hostile) for (auto& m : ms) if (g.p(pBad)) m.dist = g.pickd({INFINITY, -INFINITY, NAN, 1e300, 5e-324, -0.0, 1e-300});
      if (g.p(0.05)) ms.clear();
      g.shuffle(ms);
      std::vector<BeaconMeas> v; for (auto& m : ms) v.push_back(toMeas(m));
      if (g.p(0.02)) { BeaconMeas fresh; fresh.setBeaconId("fresh"); v.push_back(fresh); ms.push_back({"fresh", 1, -1}); }
      t->updateMeasurements(v);
    }
    else note("repeated_calculations");
    int e = t->calculateCoordinates();
    event();
    if (hostile) { double hx, hy; int w = model(bs, ms, hx, hy); if (e != w) { violation("trilateration:status", fmt("%zu beacons, %zu measurements: code %d, model %d", bs.size(), ms.size(), e, w)); return; } t->getX(); t->getY(); t->getErrorMessage(); solved += e == 0; hh.l(e).l((long long)ms.size()); measured = e == 0; continue; }
    double x = 0, y = 0; int w = model(bs, ms, x, y);
    if (e != w) { violation("trilateration:status", fmt("%zu beacons, %zu measurements: code %d, model %d", bs.size(), ms.size(), e, w)); return; }
    solvable = false;
    if (e) { errors++; continue; }
    double sc = 1; for (auto& b : bs) sc = std::max(sc, std::max(std::fabs(b.x), std::fabs(b.y)));
    if (!(std::fabs(t->getX() - x) < 1e-9 * sc) || !(std::fabs(t->getY() - y) < 1e-9 * sc))
    { violation("trilateration:place", fmt("calculation %d: %zu beacons, %zu measurements: (%.9f,%.9f), model (%.9f,%.9f)", q, bs.size(), ms.size(), t->getX(), t->getY(), x, y)); return; }
    std::set<std::string> known; for (auto& b : bs) for (auto& m : ms) if (m.id == b.id) known.insert(b.id);
    solvable = known.size() >= 3;     // unchanged measurements may be used again
    if (!solvable) measured = false;
    solved++; hh.d(t->getX()).d(t->getY());
  }
  note("solved", solved); note("refused", errors);
  if (solved) distinct(hh.h);
  sample(fmt("%d calculations, last with %zu beacons and %zu measurements, %d solved", rounds, bs.size(), ms.size(), solved));
}

int main(int argc, char** argv)
{ return runCases(argc, argv, [](long long, Rng& g) { run(g, ctx().arg == "hostile"); }); }
