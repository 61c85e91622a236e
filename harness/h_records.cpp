// P49: the beacon and measurement records of the standalone trilateration.
#include "common.hpp"
#include "trilateration.h"
#include <algorithm>
#include <memory>
#include <unistd.h>
#include <fcntl.h>
using namespace H;

static std::string name(Rng& g)
{
  switch (g.i(0, 4))
  {
    case 0: return fmt("(%lld,%lld,F7826DA6)", g.i(0, 3), g.i(0, 9));
    case 1: return fmt("%lld", g.i(-3, 12));
    case 2: { std::string s; for (long long n = g.i(1, 3); n > 0; --n) s += (char)g.i(1, 255); return s; }
    case 3: { std::string s((size_t)g.i(10, 300), 'a'); return s + (char)g.i('a', 'd'); }
    default: return std::string(1, (char)g.i('a', 'c'));
  }
}
static void beacons(Rng& g)
{
  Beacon fresh;
  CHECK_THAT(fresh.getX() == 0 && fresh.getY() == 0 && fresh.getLocationId() == 0 && !*fresh.getId(), "beacon:new", "a new beacon is at (%g,%g) in %d", fresh.getX(), fresh.getY(), fresh.getLocationId());
  struct B { std::string id; double x, y; int loc; };
  std::vector<B> want; std::vector<std::unique_ptr<Beacon>> got;
  int n = (int)g.i(2, 10);
  for (int k = 0; k < n; ++k)
  {
    B b{name(g), g.r(-1e3, 1e3), g.r(-1e3, 1e3), (int)g.i(-5, 1000)};
    std::unique_ptr<Beacon> q(new Beacon);
    if (g.p(0.5)) { q->fillData(b.x, b.y, b.id, g.p(0.7) ? "name" : "", g.p(0.7) ? "place" : ""); }
    else { if (g.p(0.9)) q->setBeaconId(b.id); else b.id = ""; if (g.p(0.9)) q->setY(b.y); else b.y = 0; if (g.p(0.9)) q->setX(b.x); else b.x = 0; if (g.p(0.6)) q->setLocationName("place"); }
    if (g.p(0.9)) q->setLocationId(b.loc); else b.loc = 0;
    if (g.p(0.2)) { b.x = g.r(-9, 9); q->setX(b.x); }
    if (g.p(0.2)) { b.id = name(g); q->setBeaconId(b.id); }
    if (g.p(0.4)) { std::unique_ptr<Beacon> c(new Beacon(*q)); q->setX(1e9); q->setBeaconId("gone"); q.swap(c); }
    if (g.p(0.2)) { Beacon c; c = *q; *q = c; }
    want.push_back(b); got.push_back(std::move(q)); event();
  }
  for (int k = 0; k < n; ++k)
  {
    const B& w = want[(size_t)k]; Beacon& b = *got[(size_t)k];
    CHECK_THAT(b.getId() == w.id && b.getX() == w.x && b.getY() == w.y && b.getLocationId() == w.loc, "beacon:held", "beacon '%s' (%g,%g) in %d is '%s' (%g,%g) in %d", w.id.c_str(), w.x, w.y, w.loc, b.getId(), b.getX(), b.getY(), b.getLocationId());
    for (int j = 0; j < n; ++j) { event(); bool e = w.id == want[(size_t)j].id; CHECK_THAT((b == *got[(size_t)j]) == e && (b != *got[(size_t)j]) == !e, "beacon:equal", "beacons '%s' and '%s'", w.id.c_str(), want[(size_t)j].id.c_str()); }
  }
  IBeacon i; CHECK_THAT(i.getMajor() == 0 && i.getMinor() == 0 && !*i.getUuid() && i.getX() == 0, "ibeacon:new", "a new iBeacon is %d/%d", i.getMajor(), i.getMinor());
  int ma = (int)g.i(0, 65535), mi = (int)g.i(0, 65535); std::string u = name(g); double x = g.r(-9, 9);
  i.setMajor((unsigned)ma); i.setMinor((unsigned)mi); i.setUuid(u.c_str()); i.setX(x); i.setBeaconId("i");
  IBeacon j(i); i.setUuid("other"); i.setMajor(1); i.setMinor(2);
  CHECK_THAT(j.getMajor() == ma && j.getMinor() == mi && j.getUuid() == u && j.getX() == x && std::string(j.getId()) == "i", "ibeacon:held", "iBeacon %d/%d '%s' is %d/%d '%s'", ma, mi, u.c_str(), j.getMajor(), j.getMinor(), j.getUuid());
}
static void measurements(Rng& g)
{
  BeaconMeas fresh; CHECK_THAT(fresh.getDistance() == -1 && fresh.getRssi() == TRANSMITTER_POINT_UNUSED && !*fresh.getBeaconId(), "measurement:new", "a new measurement has distance %g and rssi %g", fresh.getDistance(), fresh.getRssi());
  struct M { std::string id; double r, d; const Beacon* at; };
  std::vector<Beacon> map; std::set<std::string> ids; int nb = (int)g.i(1, 12);
  for (int k = 0; k < nb; ++k) { std::string id = name(g); Beacon b; b.fillData(g.r(-9, 9), k, id, "", ""); map.push_back(b); }
  std::vector<M> want; std::vector<BeaconMeas> got; int n = (int)g.i(0, 25);
  for (int k = 0; k < n; ++k)
  {
    M m{g.p(0.6) ? std::string(map[(size_t)g.i(0, nb - 1)].getId()) : name(g), g.r(-100, 0), g.p(0.2) ? (double)g.i(0, 3) : g.r(0, 30), nullptr};
    if (g.p(0.3)) { Beacon* b = &map[(size_t)g.i(0, nb - 1)]; m.id = b->getId(); m.at = b; got.push_back(BeaconMeas(b, m.r, m.d)); }
    else { BeaconMeas b; b.setBeaconId(m.id); b.setDistance(m.d); b.setRssi(m.r); if (g.p(0.3)) { m.at = &map[0]; b.setBeaconPtr(&map[0]); } got.push_back(b); }
    want.push_back(m); event();
  }
  for (int k = 0; k < n; ++k)
  {
    auto& w = want[(size_t)k]; auto& b = got[(size_t)k];
    CHECK_THAT(b.getBeaconId() == w.id && b.getRssi() == w.r && b.getDistance() == w.d && (!w.at || b.getBeaconPtr() == w.at), "measurement:held", "measurement '%s' %g %g is '%s' %g %g", w.id.c_str(), w.r, w.d, b.getBeaconId(), b.getRssi(), b.getDistance());
    for (int j = 0; j < n; ++j)
    {
      auto& v = want[(size_t)j]; auto& c = got[(size_t)j]; event();
      CHECK_THAT((b == c) == (w.id == v.id) && (b != c) == (w.id != v.id), "measurement:equal", "measurements of '%s' and '%s'", w.id.c_str(), v.id.c_str());
      CHECK_THAT((b < c) == (w.d < v.d) && (b > c) == (w.d > v.d), "measurement:order", "measurements of %g m and %g m", w.d, v.d);
      CHECK_THAT(compareBeaconMeasByName(b, c) == (strcmp(w.id.c_str(), v.id.c_str()) < 0), "measurement:names", "names '%s' and '%s'", w.id.c_str(), v.id.c_str());
    }
  }
  // what the map does not know falls out, the rest stays in its order and finds its beacon
  auto left = got; Trilateration::filterUnknownBeacons(left, map);
  size_t at = 0; bool same = true;
  for (auto& w : want)
  {
    const Beacon* first = nullptr; for (auto& b : map) if (!first && b.getId() == w.id) first = &b;
    auto f = findBeaconForMeas(map, w.id); event();
    CHECK_THAT((f == map.end()) == !first && (!first || &*f == first), "find", "the beacon of '%s' is %sfound", w.id.c_str(), f == map.end() ? "not " : "");
    if (!first) continue;
    same = same && at < left.size() && left[at].getBeaconId() == w.id && left[at].getBeaconPtr() == first && left[at].getRssi() == w.r && left[at].getDistance() == w.d; at++;
  }
  CHECK_THAT(same && at == left.size(), "filter", "%zu of %d measurements left, %zu known", left.size(), n, at);
  Trilateration t; t.setCurrentLocationId((int)g.i(0, 99) + 7); Trilateration u(t); CHECK_THAT(u.getCurrentLocationId() == t.getCurrentLocationId() && t.getCurrentLocationId() >= 7 && Trilateration().getCurrentLocationId() == 0, "location", "location %d", u.getCurrentLocationId());
  note("measurements", n); note("kept", (long long)at);
  Hash h; for (auto& w : want) h.s(w.id).d(w.d); distinct(h.h);
  if (ctx().cur % 500 == 1) sample(fmt("%d measurements, %d beacons in the map, %zu known", n, nb, at));
}
int main(int argc, char** argv)
{
  return runCases(argc, argv, [](long long, Rng& g) { beacons(g); measurements(g); });
}
