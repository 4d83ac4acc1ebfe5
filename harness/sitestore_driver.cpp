#include "common.hpp"
#include "site_container.hpp"
#include <list>
#include <map>
#include <memory>
using namespace mythical;
static std::list<double> own;
static std::unique_ptr<Site_Container> c;
static long long cl(int x) { return x == constants::unassignedId ? -1 : (x == -1 ? -3 : x); }
static Site make(Line& l, int& id, VVL& r) {
  id = l.n();
  int n = l.n();
  std::unordered_map<int, double> dummy;
  Site s;
  s.setId(id);
  for (int k = 0; k < n; ++k) {
    int nb = l.n(), v = l.n();
    own.push_back(v);
    s.addNeighRate(std::pair<int, double*>(nb, &own.back()));
    r.push_back({nb, v});
  }
  return s;
}
static std::string state() {
  J x("x");
  VVL none;
  x.i("size", c->size()).a("ids", vl(c->getSiteIds()));
  std::string out = ",\"st\":[";
  bool first = true;
  for (auto& p : c->getSites()) {
    J j("s");
    VVL r;
    auto m = p.second.getNeighborsAndRates();
    for (auto& q : m) r.push_back({q.first, fx(*q.second)});
    TopologyFeature& f = p.second;
    j.i("id", p.first == p.second.getId() ? p.first : -999).aa("r", r).i("cl", cl(p.second.getClusterId())).i("occ", f.isOccupied()).i("vis", f.getVisitFrequency());
    out += (first ? "" : ",") + j.s + "}";
    first = false;
  }
  return x.s.substr(x.s.find(",\"size\"")) + out + "]";
}
static void run(J j, const std::function<void(J&)>& f) {
  J r = j;
  int thr = 0;
  try { f(r); } catch (const std::exception&) { thr = 1; r = j; }
  r.i("thr", thr);
  r.s += state();
  r.out();
}
static int thrown(const std::function<void()>& f) {
  try { f(); } catch (const std::exception&) { return 1; }
  return 0;
}
int main() {
  quiet();
  c.reset(new Site_Container);
  std::string line;
  while (std::getline(std::cin, line)) {
    Line l(line);
    if (l.op == "Reset") run(J("Reset"), [&](J&) { c.reset(new Site_Container); own.clear(); });
    else if (l.op == "Add") {
      int id; VVL r;
      Site s = make(l, id, r);
      run(J("Add").i("i", id).aa("r", r), [&](J&) {
        c->addSite(s);
        // the container keeps a site of its own
        TopologyFeature& f = s;
        f.occupy(); s.setClusterId(77);
      });
    } else if (l.op == "AddMany") {
      int n = l.n();
      std::vector<Site> v;
      J j("AddMany");
      j.s += ",\"es\":[";
      for (int k = 0; k < n; ++k) {
        int id; VVL r;
        v.push_back(make(l, id, r));
        j.s += (k ? "," : "") + J("x").i("i", id).aa("r", r).s + "}";
      }
      j.s += "]";
      run(j, [&](J&) { c->addSites(v); });
    } else if (l.op == "SetCl") { int i = l.n(), k = l.n(); run(J("SetCl").i("i", i).i("c", k), [&](J&) { c->setClusterId(i, k); }); }
    else if (l.op == "Occ") { int i = l.n(); run(J("Occ").i("i", i), [&](J&) { c->occupy(i); }); }
    else if (l.op == "Vac") { int i = l.n(); run(J("Vac").i("i", i), [&](J&) { c->vacate(i); }); }
    else if (l.op == "SetVis") {
      int i = l.n(), v = l.n();
      run(J("SetVis").i("i", i).i("v", v), [&](J&) { TopologyFeature& f = c->getSite(i); f.setVisitFrequency(v); });
    } else if (l.op == "Ask") {
      int i = l.n(), n = l.n();
      run(J("Ask").i("i", i).i("n", n), [&](J& j) {
        VL t, nb;
        long long clid = -9, part = -9, occ = -9, fast = -9, tc = -9, dw = -9, id = -9, rate = 0;
        bool ex = c->exist(i);
        t.push_back(thrown([&] { clid = cl(c->getClusterIdOfSite(i)); }));
        t.push_back(thrown([&] { part = c->partOfCluster(i); }));
        t.push_back(thrown([&] { occ = c->isOccupied(i); }));
        t.push_back(thrown([&] { nb = vl(c->getSiteIdsOfNeighbors(i)); }));
        t.push_back(thrown([&] { fast = fx(c->getFastestRateOffSite(i)); }));
        t.push_back(thrown([&] { tc = fx(c->getTimeConstant(i), 1e9); }));
        t.push_back(thrown([&] { dw = c->getDwellTime(i) > 0; }));
        t.push_back(thrown([&] { id = c->getSite(i).getId(); }));
        auto all = c->getSites();
        int rt = 2;  // a rate that the site does not have must not be asked for
        if (!all.count(i) || all[i].isNeighbor(n)) rt = thrown([&] { rate = fx(c->getRateToNeighborOfSite(i, n)); });
        j.i("ex", ex).a("t", t).a("rn", {rt, rate}).i("cl", clid).i("part", part).i("occ", occ).a("nb", nb).i("fast", fast).i("tc", tc).i("dw", dw).i("id", id);
      });
    } else if (l.op == "Group") {
      int n = l.n();
      std::vector<int> g;
      for (int k = 0; k < n; ++k) g.push_back(l.n());
      run(J("Group").a("g", vl(g)), [&](J& j) {
        VL t, got;
        long long small = -9;
        int same = 1;
        t.push_back(thrown([&] { small = cl(c->getSmallestClusterId(g)); }));
        t.push_back(thrown([&] {
          for (auto& p : c->getSites(g)) {
            got.push_back(p.first);
            Site& s = c->getSite(p.first);
            TopologyFeature &a = s, &b = p.second;
            if (s.getClusterId() != p.second.getClusterId() || p.second.getId() != p.first || a.isOccupied() != b.isOccupied() || a.getVisitFrequency() != b.getVisitFrequency() || s.getNeighborsAndRates() != p.second.getNeighborsAndRates()) same = 0;
          }
        }));
        j.a("t", t).i("small", small).a("got", got).i("same", same);
      });
    } else if (l.op == "All") {
      run(J("All"), [&](J& j) {
        VVL m;
        int alias = 1;
        for (auto& a : c->getRates()) for (auto& b : a.second) {
          m.push_back({a.first, b.first, fx(*b.second)});
          auto k = c->getSite(a.first).getNeighborsAndRates();
          if (!k.count(b.first) || k[b.first] != b.second) alias = 0;
        }
        j.aa("m", m).i("alias", alias);
      });
    } else _exit(8);
  }
  return 0;
}
