#include "common.hpp"
#include "topologyfeatures/site.hpp"
#include <list>
#include <map>
#include <memory>
using namespace mythical;
static double unit = 1.0;  // rates are multiples of this power of two
static std::map<int, double*> cellp;
static std::list<double> own;
static std::list<std::unordered_map<int, double>> maps;
static std::vector<Site> sites(4);
static const int PROBE[] = {1, 2, 3, 4, 9, -7, 1000000};
static double* cellv(int c, double v) {
  if (!cellp.count(c)) { own.push_back(0); cellp[c] = &own.back(); }
  *cellp[c] = v * unit;
  return cellp[c];
}
static long long rv(double r) { return fx(r / unit); }
static std::string state() {
  std::string out = "[";
  for (int s = 1; s <= 3; ++s) {
    Site& x = sites[s];
    J j("s");
    VL ids = vl(x.getNeighborSiteIds());
    VVL r, pl, isn;
    VL all;
    for (int p : PROBE) isn.push_back({p, x.isNeighbor(p)});
    auto m = x.getNeighborsAndRates();
    for (auto i : ids) {
      int n = i;
      double viaMap = m.count(n) ? *m.at(n) : -1;
      if (x.getNeighborsAndRatesConst().count(n) == 0 || *x.getNeighborsAndRatesConst().at(n) != viaMap) viaMap = -1;
      r.push_back({n, rv(x.getRateToNeighbor(n)), rv(viaMap), fx(x.getProbabilityOfHoppingToNeighboringSite(n), 1e6)});
    }
    for (auto& q : x.getProbabilitiesAndIdsOfNeighbors()) pl.push_back({q.first, fx(q.second, 1e6)});
    for (double q : x.getRateToNeighbors()) all.push_back(rv(q));
    TopologyFeature& f = x;
    int any = 99;
    j.a("ids", ids).aa("isn", isn).aa("r", r).aa("pl", pl).a("all", all).i("fast", rv(x.getFastestRate()));
    j.i("tc", ids.empty() ? 0 : fx(x.getTimeConstant() * unit, 1e9)).i("occ", f.isOccupied()).i("occi", f.isOccupied(any)).i("vis", f.getVisitFrequency()).i("visi", f.getVisitFrequency(any));
    out += (s > 1 ? "," : "") + j.s + "}";
  }
  return out + "]";
}
static void st(J& j) { j.s += ",\"st\":" + state(); }
int main() {
  quiet();
  std::string line;
  while (std::getline(std::cin, line)) {
    Line l(line);
    if (l.op == "Reset" || l.op == "ResetUnit") {
      unit = l.op == "ResetUnit" ? std::ldexp(1.0, l.n()) : 1.0;
      guarded(J("Reset"), [&](J& j) {
        sites = std::vector<Site>(4);
        for (int i = 1; i <= 3; ++i) sites[i].setId(i);
        cellp.clear(); own.clear(); maps.clear();
        st(j);
      });
    } else if (l.op == "SetRates") {
      int s = l.n(), n = l.n();
      maps.emplace_back();
      auto& m = maps.back();
      VVL nw;
      for (int i = 0; i < n; ++i) { int k = l.n(), c = l.n(), v = l.n(); m[k] = v * unit; nw.push_back({k, c, v}); }
      for (auto& t : nw) cellp[t[1]] = &m[t[0]];
      guarded(J("SetRates").i("s", s).aa("new", nw), [&](J& j) { sites[s].setRatesToNeighbors(m); st(j); });
    } else if (l.op == "AddNeigh" || l.op == "ResetNeigh") {
      int s = l.n(), n = l.n(), c = l.n(), v = l.n();
      double* p = cellv(c, v);
      guarded(J(l.op).i("s", s).i("n", n).i("c", c).i("v", v), [&](J& j) {
        if (l.op == "AddNeigh") sites[s].addNeighRate({n, p}); else sites[s].resetNeighRate({n, p});
        st(j);
      });
    } else if (l.op == "Mutate") {
      int c = l.n(), v = l.n();
      cellv(c, v);
      guarded(J("Mutate").i("c", c).i("v", v), [&](J& j) { st(j); });
    } else if (l.op == "Occupy" || l.op == "Vacate") {
      int s = l.n(), named = l.n();
      TopologyFeature& f = sites[s];
      guarded(J(l.op).i("s", s), [&](J& j) {
        if (l.op == "Occupy") { if (named) f.occupy(s); else f.occupy(); }
        else { if (named) f.vacate(s); else f.vacate(); }
        st(j);
      });
    } else if (l.op == "Remove") {
      int s = l.n(), w = l.n();
      TopologyFeature& f = sites[s];
      guarded(J("Remove").i("s", s), [&](J& j) { f.removeWalker(w, s); st(j); });
    } else if (l.op == "SetStatus") {
      int s = l.n(), v = l.n();
      TopologyFeature& f = sites[s];
      guarded(J("SetStatus").i("s", s).i("v", v), [&](J& j) { if (v) f.setToOccupiedStatus(); else f.setToUnoccupiedStatus(); st(j); });
    } else if (l.op == "SetVisits") {
      int s = l.n(), v = l.n(), named = l.n();
      TopologyFeature& f = sites[s];
      guarded(J("SetVisits").i("s", s).i("v", v), [&](J& j) { if (named) f.setVisitFrequency(v, s); else f.setVisitFrequency(v); st(j); });
    } else if (l.op == "Wide") {
      // n rates mantissa * 2^exponent
      unsigned long seed = l.n();
      int n = l.n();
      std::unordered_map<int, double> m;
      std::map<int, double> want;
      long double S = 0;
      for (int i = 0; i < n; ++i) { int id = l.n(); int v = l.n(); int ex = l.n(); m[id] = want[id] = std::ldexp((double)v, ex); S += want[id]; }
      guarded(J("Wide"), [&](J& j) {
        Site x;
        x.setRatesToNeighbors(m);
        x.setRandomSeed(seed);
        VL q;
        int same = 1, bad = 0, neg = 0;
        for (auto& k : want) {
          q.push_back(fx((double)(x.getProbabilityOfHoppingToNeighboringSite(k.first) * S / k.second), 1e6));
          if (x.getRateToNeighbor(k.first) != k.second) same = 0;
        }
        for (int i = 0; i < 2000; ++i) {
          int w = 3;
          if (!want.count(x.pickNewSiteId(w))) ++bad;
          if (!want.count(x.pickNewSiteId())) ++bad;
          if (!(x.getDwellTime(w) > 0)) ++neg;
        }
        j.a("q", q).i("tc", fx((double)(x.getTimeConstant() * S), 1e6)).i("same", same).i("bad", bad).i("neg", neg);
      });
    } else if (l.op == "Draw") {
      int s = l.n(); unsigned long seed = l.n(); int n = l.n(), sum = l.n();
      guarded(J("Draw").i("s", s).i("n", n), [&](J& j) {
        Site x = sites[s];
        x.setRandomSeed(seed);
        TopologyFeature& f = x;
        double med = std::log(2.0) / (sum * unit);
        struct C { long long n = 0, after = 0, before = 0, twice = 0; };
        std::map<int, C> c;
        VL q(5, 0);
        long long neg = 0, both = 0;
        bool prev = false, any = false;
        int pk = 0;
        for (int i = 0; i < n; ++i) {
          int w = i % 3;
          double d = f.getDwellTime(w);
          int k = i % 2 ? f.pickNewSiteId(w) : f.pickNewSiteId();
          bool big = d > med;
          ++c[k].n;
          if (big) ++c[k].after;
          if (any && big) ++c[pk].before;
          if (i % 2 && k == pk) ++c[k].twice;
          any = true;
          pk = k;
          if (i % 2 && big && prev) ++both;
          prev = big;
          if (!(d > 0)) ++neg;
          for (int t = 0; t < 5; ++t) if (d > (t + 1) * med) ++q[t];
        }
        VVL cc;
        for (auto& k : c) cc.push_back({k.first, k.second.n, k.second.after, k.second.before, k.second.twice});
        j.aa("c", cc).a("q", q).i("neg", neg).i("both", both);
      });
    } else if (l.op == "Runs") {
      // m picks in a row, then n dwell times in a row
      int s = l.n(); unsigned long seed = l.n(); int m = l.n(), n = l.n(), sum = l.n();
      guarded(J("Runs").i("s", s).i("m", m).i("n", n), [&](J& j) {
        Site x = sites[s];
        x.setRandomSeed(seed);
        TopologyFeature& f = x;
        int w = 1;
        std::map<int, std::pair<long long, long long>> c;
        int pk = 0;
        for (int i = 0; i < m; ++i) {
          int k = f.pickNewSiteId(w);
          ++c[k].first;
          if (i % 2 && k == pk) ++c[k].second;
          pk = k;
        }
        VVL cc;
        for (auto& k : c) cc.push_back({k.first, k.second.first, k.second.second});
        VL hi(12, 0), lo(12, 0);
        long long neg = 0;
        double tau = 1.0 / (sum * unit);
        for (int i = 0; i < n; ++i) {
          double d = f.getDwellTime(w) / tau;
          if (!(d > 0)) ++neg;
          for (int t = 0; t < 12; ++t) {
            if (d > (t + 1) * std::log(2.0)) ++hi[t];
            if (d < -std::log1p(-std::ldexp(1.0, -(t + 1)))) ++lo[t];
          }
        }
        j.aa("c", cc).a("hi", hi).a("lo", lo).i("neg", neg);
      });
    } else if (l.op == "Rare") {
      int s = l.n(); unsigned long seed = l.n(); int n = l.n();
      guarded(J("Rare").i("s", s).i("n", n), [&](J& j) {
        Site x = sites[s];
        x.setRandomSeed(seed);
        int w = 1;
        std::map<int, long long> c;
        for (int i = 0; i < n; ++i) ++c[x.pickNewSiteId(w)];
        VVL cc;
        for (auto& k : c) cc.push_back({k.first, k.second});
        j.aa("c", cc);
      });
    } else if (l.op == "Seeds") {
      int s = l.n(); unsigned long s1 = l.n(), s2 = l.n();
      guarded(J("Seeds").i("s", s), [&](J& j) {
        const char* nm[] = {"a", "b", "c"};
        for (int t = 0; t < 3; ++t) {
          Site x = sites[s];
          x.setRandomSeed(t == 2 ? s2 : s1);
          VL v;
          for (int i = 0; i < 20; ++i) { int w = 1; v.push_back(fx(x.getDwellTime(w) * unit, 1e6)); v.push_back(x.pickNewSiteId(w)); }
          j.a(nm[t], v);
        }
      });
    } else _exit(8);
  }
  return 0;
}
