// P30: altitude of a receiver from distances, against an independent least-squares computation.
#include "ref_client.hpp"
#include "trilateration.h"
using namespace H;
namespace nc = navigine::navigation_core;

static void run(long long, Rng& g)
{
  G::MapOpt mo; mo.maxLevels = 2; mo.maxTx = (int)g.pickd({5, 8, 14}); mo.rps = mo.graph = mo.zones = false; mo.locators = false;
  auto m = G::genMap(g, mo);
  for (auto& l : m.lv) if (g.p(0.3)) { double z = g.r(0, 4); for (auto& t : l.txs) t.alt = z; }
  auto coll = G::collector(m);
  auto& l = m.lv[0];
  const auto& level = coll->level(nc::LevelId(l.id));
  for (int rep = 0; rep < 12; ++rep)
  {
    double x = g.r(-5, l.W + 5), y = g.r(-5, l.Hh + 5), z = l.altitude + g.r(-3, 5), noise = g.pickd({0, 0, 0.5, 3});
    std::vector<R::Sig> sig; nc::RadioMeasurementsData v;
    double pTx = g.pickd({0.5, 0.8, 1});
    for (auto& q : m.lv) for (auto& t : q.txs)
    {
      if (&q != &l && !g.p(0.3)) continue;
      if (&q == &l && !g.p(pTx)) continue;
      bool dup = false; for (auto& s : sig) dup = dup || s.id == t.id;
      if (dup) continue;
      double d = std::sqrt((x - t.x) * (x - t.x) + (y - t.y) * (y - t.y) + (z - q.altitude - t.alt) * (z - q.altitude - t.alt)) + noise * g.g();
      if (g.p(0.1)) d *= g.pickd({0.2, 0.5, 2, 5});            // does not reach the others, or far too far
      if (d < 0.05) d = 0.05;
      R::Sig s; s.id = t.id; s.dist = d; s.rssi = -60; sig.push_back(s);
    }
    if (g.p(0.1)) { R::Sig s; s.id = "unknown"; s.dist = 3; sig.push_back(s); }
    g.shuffle(sig);
    for (auto& s : sig) { nc::RadioMeasurementData d; d.type = nc::RadioMeasurementData::Type::BEACON; d.id = nc::TransmitterId(s.id); d.rssi = s.rssi; d.distance = s.dist; d.power = 0; v.push_back(d); }
    R::Tie tie; double want = 0; bool has = R::altitude(l, sig, want, tie);
    nc::Trilateration w;
    auto got = w.calculateAltitude(level, v);
    event();
    if (tie.hit) { skip(); continue; }
    if (got.is_initialized() != has) { violation(has ? "altitude:missing" : "altitude:unexpected", fmt("%zu signals, %s, expected %s", sig.size(), got ? "an altitude" : "none", has ? "one" : "none")); return; }
    note(has ? "altitudes" : "none");
    if (!has) continue;
    if (!near(*got, want, 1e-6)) { violation("altitude:value", fmt("%.9f, expected %.9f from %zu signals", *got, want, sig.size())); return; }
    // the order of the signals does not matter
    g.shuffle(v); auto again = w.calculateAltitude(level, v);
    if (!again || !near(*again, want, 1e-6)) { violation("altitude:order", fmt("%.9f in another order, %.9f before", again ? *again : NAN, *got)); return; }
    distinct(Hash().d(want).h);
    sample(fmt("%zu signals at (%.2f,%.2f,%.2f) noise %.1f: altitude %.6f", sig.size(), x, y, z, noise, want));
  }
}
int main(int argc, char** argv) { G::Quiet q; return runCases(argc, argv, run); }
