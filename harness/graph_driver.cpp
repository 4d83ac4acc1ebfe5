#include "common.hpp"
#include "basin_explorer.hpp"
#include "cluster_container.hpp"
#include "graph_library_adapter.hpp"
#include "site_container.hpp"
#include <list>
#include <map>
#include <memory>
#include <set>
#include <unordered_set>
using namespace mythical;
using ugly::Edge;
static std::unique_ptr<Site_Container> sites;
static std::unique_ptr<Cluster_Container> clusters;
static std::map<std::pair<int, int>, double> own;
static std::set<int> ids;
static double unit = 1;
static void state(J& j) {
  VVL r, st;
  for (auto& a : sites->getRates())
    for (auto& b : a.second) r.push_back({a.first, b.first, fx(*b.second / unit)});
  for (int i : ids) {
    Site& s = sites->getSite(i);
    st.push_back({i, s.partOfCluster() ? s.getClusterId() : -1, s.getVisitFrequency(), s.isOccupied()});
  }
  j.aa("rates", r).aa("st", st);
}
template <typename C>
static VVL edges(const C& c, bool time) {
  VVL r;
  for (auto& e : c) r.push_back({e->getVertex1(), e->getVertex2(), time ? fx(e->getWeight() * unit, 1e6) : fx(e->getWeight() / unit)});
  return r;
}
int main() {
  quiet();
  std::string s;
  while (std::getline(std::cin, s)) {
    Line l(s);
    if (l.op == "Net") {
      unit = std::ldexp(1.0, l.n());
      VL id;
      VVL es;
      int n = l.n();
      for (int k = 0; k < n; ++k) id.push_back(l.n());
      int m = l.n();
      for (int k = 0; k < m; ++k) { long long a = l.n(), b = l.n(), v = l.n(); es.push_back({a, b, v}); }
      guarded(J("Net").a("ids", id).aa("es", es), [&](J&) {
        sites.reset(new Site_Container);
        clusters.reset(new Cluster_Container);
        own.clear();
        ids.clear();
        for (auto& e : es) own[{(int)e[0], (int)e[1]}] = e[2] * unit;
        for (long long i : id) {
          Site x;
          x.setId(i);
          for (auto& p : own) if (p.first.first == i) x.addNeighRate(std::pair<int, double*>(p.first.second, &p.second));
          sites->addSite(x);
          ids.insert(i);
        }
      });
    } else if (l.op == "Join") {
      int c = l.n(), n = l.n();
      VL v;
      for (int k = 0; k < n; ++k) v.push_back(l.n());
      guarded(J("Join").i("c", c).a("ids", v), [&](J&) {
        Cluster x;
        x.setId(c);
        std::vector<Site> in;
        for (long long i : v) in.push_back(sites->getSite(i));
        x.addSites(in);
        for (long long i : v) sites->setClusterId(i, c);
        clusters->addCluster(x);
      });
    } else if (l.op == "Change") {
      int a = l.n(), b = l.n(), v = l.n();
      guarded(J("Change").i("i", a).i("j", b).i("v", v), [&](J&) { own.at({a, b}) = v * unit; });
    } else if (l.op == "Find") {
      int i = l.n(), lim = l.n();
      guarded(J("Find").i("s", i).i("limit", lim ? lim : 5), [&](J& j) {
        BasinExplorer b, b2;
        if (lim) { b.setMaxExplorationCount(lim); b2.setMaxExplorationCount(lim); }
        j.a("basin", vl(b.findBasin(*sites, *clusters, i)));
        j.a("again", vl(b2.findBasin(*sites, *clusters, i)));
        for (int o : ids) b.findBasin(*sites, *clusters, o);
        j.a("reused", vl(b.findBasin(*sites, *clusters, i)));
        state(j);
      });
    } else if (l.op == "Edges") {
      int kind = l.n(), n = l.n();
      VL v;
      std::vector<int> w;
      for (int k = 0; k < n; ++k) { v.push_back(l.n()); w.push_back(v.back()); }
      guarded(J("Edges").i("kind", kind).a("ids", v), [&](J& j) {
        VVL r;
        if (kind == 0) r = edges(convertSitesOutgoingRatesToUniqueWeightedEdges<std::vector<std::unique_ptr<Edge>>>(*sites, w[0]), false);
        else if (kind == 1) r = edges(convertSitesOutgoingRatesToSharedWeightedEdges<std::list<std::shared_ptr<Edge>>>(*sites, w[0]), false);
        else if (kind == 2) r = edges(convertSitesOutgoingRatesToSharedWeightedEdges<std::unordered_set<std::shared_ptr<Edge>>>(*sites, w), false);
        else if (kind == 3) r = edges(convertSitesOutgoingRatesToTimeSharedWeightedEdges<std::vector<std::shared_ptr<Edge>>>(*sites, w), true);
        else r = edges(convertSitesOutgoingRatesToSharedWeightedEdges<std::unordered_set<std::shared_ptr<Edge>>>(*sites, w[0]), false);
        j.aa("edges", r);
        state(j);
      });
    } else if (l.op == "Nodes") {
      int n = l.n();
      VL v;
      std::vector<int> w;
      for (int k = 0; k < n; ++k) { v.push_back(l.n()); w.push_back(v.back()); }
      guarded(J("Nodes").a("ids", v), [&](J& j) {
        auto m = convertSitesToEmptySharedNodes(w);
        VL r;
        std::set<const void*> p;
        for (auto& x : m) { r.push_back(x.first); if (x.second) p.insert(x.second.get()); }
        j.a("nodes", r).i("distinct", p.size());
      });
    } else _exit(8);
  }
  return 0;
}
