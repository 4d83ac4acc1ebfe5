#include "common.hpp"
#include "cluster_container.hpp"
#include <list>
#include <map>
#include <memory>
using namespace mythical;
static std::list<double> own;
static std::unique_ptr<Cluster_Container> c;
static int walker = 0;
static Cluster make(Line& l, J& j) {
  int id = l.n(), base = l.n(), n = l.n(), b = l.n(), k = l.n();
  VL outs;
  for (int o = 0; o < k; ++o) outs.push_back(900 + o);
  std::vector<Site> v;
  for (int i = 0; i < n; ++i) {
    Site s;
    s.setId(base + i);
    for (int q = 0; q < n; ++q) if (q != i) { own.push_back(1000); s.addNeighRate(std::pair<int, double*>(base + q, &own.back())); }
    for (long long o : outs) { own.push_back(b); s.addNeighRate(std::pair<int, double*>((int)o, &own.back())); }
    v.push_back(s);
  }
  Cluster x;
  x.setId(id);
  if (n) {
    x.addSites(v);
    x.updateProbabilitiesAndTimeConstant();
  } else outs.clear();
  j.i("i", id).i("base", base).i("n", n).i("b", b).a("outs", outs);
  return x;
}
static std::string state() {
  J x("x");
  VVL sites, res, inc;
  for (auto& p : c->getSiteIdsOfClusters()) { VL r{p.first}; for (int s : p.second) r.push_back(s); sites.push_back(r); }
  for (auto& p : c->getResolutionOfClusters()) res.push_back({p.first, fx(p.second, 10)});
  for (auto& p : c->getTimeIncrementOfClusters()) inc.push_back({p.first, c->getCluster(p.first).getNumberOfSitesInCluster() ? fx(p.second, 1e9) : 0});
  x.i("size", c->size()).a("ids", vl(c->getClusterIds())).aa("sites", sites).aa("res", res).aa("inc", inc);
  return x.s.substr(x.s.find(",\"size\""));
}
static void run(J j, const std::function<void(J&)>& f) {
  J r = j;
  int thr = 0;
  try { f(r); } catch (const std::exception&) { thr = 1; r = j; }
  r.i("thr", thr);
  r.s += state();
  r.out();
}
static int thrown(const std::function<void()>& f) {
  try { f(); } catch (const std::exception&) { return 1; }
  return 0;
}
int main() {
  quiet();
  c.reset(new Cluster_Container);
  std::string line;
  while (std::getline(std::cin, line)) {
    Line l(line);
    if (l.op == "Reset") run(J("Reset"), [&](J&) { c.reset(new Cluster_Container); own.clear(); });
    else if (l.op == "Add") {
      J j("Add");
      Cluster x = make(l, j);
      run(j, [&](J&) { c->addCluster(x); TopologyFeature& f = x; f.occupy(); x.setResolution(31); });
    } else if (l.op == "AddMany") {
      int n = l.n();
      std::vector<Cluster> v;
      J j("AddMany");
      j.s += ",\"es\":[";
      for (int k = 0; k < n; ++k) { J e("x"); v.push_back(make(l, e)); j.s += (k ? "," : "") + e.s + "}"; }
      j.s += "]";
      run(j, [&](J&) { c->addClusters(v); });
    } else if (l.op == "Erase") { int i = l.n(); run(J("Erase").i("i", i), [&](J&) { c->erase(i); }); }
    else if (l.op == "Occ") { int i = l.n(); run(J("Occ").i("i", i), [&](J&) { c->occupy(i); }); }
    else if (l.op == "Vac") { int i = l.n(); run(J("Vac").i("i", i), [&](J&) { c->vacate(i); }); }
    else if (l.op == "SetRes") { int i = l.n(), r = l.n(); run(J("SetRes").i("i", i).i("r", r), [&](J&) { c->getCluster(i).setResolution(r); }); }
    else if (l.op == "Ask") {
      int i = l.n();
      run(J("Ask").i("i", i), [&](J& j) {
        VL t, nb, mine;
        long long occ = -9, fast = -9, tc = -9, dw = -9, id = -9, same = -9;
        bool ex = c->exist(i), empty = ex && !c->getCluster(i).getNumberOfSitesInCluster();
        t.push_back(thrown([&] { occ = c->isOccupied(i); }));
        t.push_back(thrown([&] { nb = vl(c->getSiteIdsOfNeighbors(i)); }));
        t.push_back(thrown([&] { fast = fx(c->getFastestRateOffCluster(i)); }));
        t.push_back(thrown([&] { if (!empty) tc = fx(c->getTimeConstant(i), 1e9); }));
        t.push_back(thrown([&] { if (empty) return;
          if (!ex) { c->getDwellTime(++walker, i); return; }
          Cluster own = c->getCluster(i);  // gets the same calls
          const double inc = own.getTimeIncrement();
          same = 1;
          dw = 1;
          for (int k = 0; k < 5; ++k) {  // walkers staying in the cluster
            ++walker;
            for (int n = 0; n < 4; ++n) {
              double d = c->getDwellTime(walker, i);
              if (!(d > 0 && d <= inc)) dw = 0;
              if (d != own.getDwellTime(walker)) same = 0;
              if (d < inc || !same || !dw) break;
            }
          }
        }));
        t.push_back(thrown([&] { id = c->getCluster(i).getId(); mine = vl(c->getCluster(i).getSiteIdsInCluster()); }));
        j.i("ex", ex).a("t", t).i("occ", occ).a("nb", nb).i("fast", fast).i("tc", tc).i("dw", dw).i("same", same).i("id", id).a("mine", mine);
      });
    } else _exit(8);
  }
  return 0;
}
