// What the monitors over whole sessions share: random sessions, running them, comparing what they report.
#pragma once
#include "ref_client.hpp"
using namespace H;
using G::CommonSettings; using G::RType; using G::SType;
namespace nc = navigine::navigation_core;
using U = CommonSettings::UseAlgorithm;
typedef std::shared_ptr<nc::NavigationClient> ClientP;
typedef std::vector<nc::NavigationOutput> Outs;
typedef std::vector<nc::NavigationState> States;

struct Setup { R::Map m; CommonSettings c; std::vector<nc::Measurement> stream; };
inline Setup setup(Rng& g, int maxLen = 0)
{
  Setup s; s.c = G::genSettings(g);
  auto o = G::genStreamOpt(g);
  if (maxLen) { o.minLen = std::min(o.minLen, maxLen); o.maxLen = std::min(o.maxLen, maxLen); }
  G::MapOpt mo; mo.maxLevels = 3;
  s.m = G::genMap(g, mo);
  if (g.p(0.6))
  {
    // names this process has never met before: what an earlier history left behind under a name cannot hide
    std::string salt = fmt("~%llx", (unsigned long long)g.next());
    for (auto& l : s.m.lv)
    {
      for (auto& t : l.txs) t.id += salt;
      for (auto& r : l.rps) { std::map<std::string, R::Stat> f; for (auto& q : r.fp) f[q.first + salt] = q.second; r.fp = f; r.id += salt; }
      l.id += salt;
    }
  }
#ifndef WITH_ALT
  s.c.useAltitude = false;
#endif
  s.stream = G::genStream(g, s.m, o);
  return s;
}
inline ClientP session(const Setup& s) { return nc::createNavigationClient(G::collector(s.m), G::settings(s.m, s.c)); }
inline void runAll(const ClientP& c, const std::vector<nc::Measurement>& v, Outs& o, States& st)
{
  for (auto& m : v)
  {
    auto q = c->navigate({m}); auto t = c->getStates();
    o.insert(o.end(), q.begin(), q.end()); st.insert(st.end(), t.begin(), t.end());
  }
}
inline int okCount(const Outs& o) { int n = 0; for (auto& q : o) n += q.status == nc::OK; return n; }
inline bool differs(const Outs& a, const States& sa, const Outs& b, const States& sb, const char* key, const char* what)
{
  event((long long)a.size());
  if (a.size() != b.size() || sa.size() != sb.size()) { violation(std::string(key) + ":count", fmt("%s: %zu outputs and %zu states, expected %zu and %zu", what, b.size(), sb.size(), a.size(), sa.size())); return true; }
  for (size_t k = 0; k < a.size(); ++k)
  {
    if (!G::same(a[k], b[k])) { violation(std::string(key) + ":output", fmt("%s: output %zu is %s, expected %s", what, k, G::descr(b[k]).c_str(), G::descr(a[k]).c_str())); return true; }
    if (!G::same(sa[k], sb[k])) { violation(std::string(key) + ":state", fmt("%s: state %zu is %s, expected %s", what, k, G::descr(sb[k]).c_str(), G::descr(sa[k]).c_str())); return true; }
  }
  return false;
}
// equal but for headings, which settle from a start far in the past and so carry a trace of the clock far below any use
inline bool closeTo(const Outs& a, const States& sa, const Outs& b, const States& sb, double tol, const std::map<std::string, std::string>& ren, bool altitude, std::string& why, double metres = 0)
{
  auto dist = [](double x, double y) { return std::isnan(x) && std::isnan(y) ? 0 : x == y ? 0 : std::fabs(x - y); };
  if (a.size() != b.size() || sa.size() != sb.size()) { why = fmt("count: %zu outputs and %zu states, expected %zu and %zu", b.size(), sb.size(), a.size(), sa.size()); return false; }
  for (size_t k = 0; k < a.size(); ++k)
  {
    nc::NavigationOutput x = a[k], y = b[k];
    auto it = ren.find(x.posLevel.value); if (it != ren.end()) x.posLevel.value = it->second;
    if (!altitude) x.posAltitude = y.posAltitude = 0;
    double d = dist(x.posOrientation, y.posOrientation); if (d <= tol || std::fabs(d - 2 * M_PI) <= tol) x.posOrientation = y.posOrientation;
    if (metres > 0 && x.status == y.status && std::fabs(x.posLatitude - y.posLatitude) < metres / 110000 && std::fabs(x.posLongitude - y.posLongitude) < metres / 110000 / std::max(0.05, std::cos(x.posLatitude * M_PI / 180))) { x.posLatitude = y.posLatitude; x.posLongitude = y.posLongitude; if (dist(x.posR, y.posR) <= metres) x.posR = y.posR; if (dist(x.posAltitude, y.posAltitude) <= metres) x.posAltitude = y.posAltitude; }
    if (!G::same(x, y)) { why = fmt("output: output %zu is %s, expected %s", k, G::descr(y).c_str(), G::descr(x).c_str()); return false; }
  }
  for (size_t k = 0; k < sa.size(); ++k)
  {
    auto& x = sa[k]; auto& y = sb[k];
    auto off = [&](double p, double q) { return metres > 0 ? !(dist(p, q) <= metres) : !G::sameBits(p, q); };
    if (dist(x.getHeading(), y.getHeading()) > tol || dist(x.getStepLen(), y.getStepLen()) > tol || x.getStepCounter() != y.getStepCounter()
      || off(x.getIndoorPosition().x, y.getIndoorPosition().x) || off(x.getIndoorPosition().y, y.getIndoorPosition().y)
      || off(x.getOutdoorPosition().x, y.getOutdoorPosition().x) || off(x.getOutdoorPosition().y, y.getOutdoorPosition().y))
    { why = fmt("state: state %zu is %s, expected %s", k, G::descr(y).c_str(), G::descr(x).c_str()); return false; }
  }
  return true;
}
inline std::string keyOf(const std::string& why, double metres = 0) { return why.substr(0, why.find(':')); }

