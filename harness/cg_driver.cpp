// Drives mythical::CoarseGrainSystem.  The script says which walker acts; what
// is possible (free sites, walkers on drains) is decided here from the
// positions the walkers report, and everything observable is logged.
#include "common.hpp"
#include "mythical/coarsegrainsystem.hpp"
#include "mythical/constants.hpp"
#include "mythical/walker.hpp"
#include "topologyfeatures/cluster.hpp"
#include <map>
#include <memory>
#include <set>
using namespace mythical;
typedef std::unordered_map<int, std::unordered_map<int, double>> Rates;
struct W : Walker {};
static const double TICK = 1024;
static double unit = 1;
static Rates rates;
static VVL edges;
static std::set<int> ids;
static std::unique_ptr<CoarseGrainSystem> sys, twin;
static std::map<int, std::shared_ptr<Walker>> here, there, spareHere, spareThere;
static std::map<int, double> lastDwell;
static long long hops = 0;  // since New
static bool stuck = false;
static long long conf[5];  // T pn pd min reads
static bool drain(int s) { auto it = rates.find(s); return it == rates.end() || it->second.empty(); }
// relative difference in units of 10^-9
static long long differ(double a, double b) { return a == b ? 0 : fx((a - b) / std::max(std::fabs(a), std::fabs(b)), 1e9); }
static VVL clustersOf(CoarseGrainSystem& s, bool idFirst) {
  VVL r;
  for (auto& c : s.getClusters()) {
    VL v = svl(c.second);
    if (idFirst) v.insert(v.begin(), c.first);
    r.push_back(v);
  }
  std::sort(r.begin(), r.end());
  return r;
}
static VVL visits(CoarseGrainSystem& s) {
  VVL r;
  for (int i : ids) r.push_back({i, s.getVisitFrequencyOfSite(i)});
  return r;
}
static void common(J& j) {
  VVL cid, inc;
  for (int i : ids) { int c = sys->getClusterIdOfSite(i); if (c != constants::unassignedId) cid.push_back({i, c}); }
  auto r = sys->getResolutionOfClusters();
  auto t = sys->getTimeIncrementOfClusters();
  const double T = sys->getTimeResolution();
  for (auto& p : r) inc.push_back({p.first, fx(p.second, 1e3), t.count(p.first) ? fx(t[p.first] / T, 1e6) : -1, t.count(p.first) ? fx(t[p.first] * TICK * unit, 1e4) : -1});
  for (auto& p : t) if (!r.count(p.first)) inc.push_back({p.first, -1, -1, -1});
  j.aa("cls", clustersOf(*sys, true)).aa("cid", cid).aa("inc", inc);
  if (conf[4]) j.aa("vis", visits(*sys));
  VVL all;
  for (auto& w : here) all.push_back({w.first, w.second->getIdOfSiteCurrentlyOccupying()});
  j.aa("all", all);
}
// the step of walker w that was just chosen; inc: increments before the call
static void step(J& j, int w, std::unordered_map<int, double>& inc, std::unordered_map<int, int>& cl) {
  auto& x = here[w];
  int p = x->getIdOfSiteCurrentlyOccupying();
  double d = x->getDwellTime();
  j.i("pos", p).i("pot", drain(p) ? -1 : x->getPotentialSite()).i("dpos", d > 0 && std::isfinite(d));
  int c = 2;
  if (cl.count(p)) { double i = inc[cl[p]]; c = d < i ? -1 : d > i ? 1 : 0; }
  j.i("cmp", c);
  j.i("fresh", !lastDwell.count(w) || lastDwell[w] != d);
  lastDwell[w] = d;
  if (twin) {
    auto& y = there[w];
    j.i("tpos", y->getIdOfSiteCurrentlyOccupying()).i("tpot", drain(p) ? -1 : y->getPotentialSite()).i("tdw", differ(d, y->getDwellTime()));
    j.aa("sets", clustersOf(*sys, false)).aa("tsets", clustersOf(*twin, false));
    if (conf[4]) j.aa("tvis", visits(*twin));
  }
}
static std::unordered_map<int, int> clusterIds() {
  std::unordered_map<int, int> r;
  for (auto& c : sys->getClusters()) for (int s : c.second) r[s] = c.first;
  return r;
}
static void place(int w, int s) {
  guarded(J("Place").i("w", w).i("s", s), [&](J& j) {
    auto inc = sys->getTimeIncrementOfClusters();
    auto cl = clusterIds();
    for (int k = 0; k < (twin ? 2 : 1); ++k) {
      // a walker that was removed comes back, as the same object or as a new one
      auto& old = (k ? spareThere : spareHere)[w];
      std::shared_ptr<Walker> object = old && ((unsigned)w + (unsigned)s) % 2 ? old : std::shared_ptr<Walker>(new W);
      std::vector<std::pair<int, std::shared_ptr<Walker>>> v(1, std::make_pair(w, object));
      v[0].second->occupySite(s);
      (k ? twin : sys)->initializeWalkers(v);
      (k ? there : here)[w] = v[0].second;
    }
    step(j, w, inc, cl);
    common(j);
  });
}
static void removeW(int w) {
  guarded(J("Remove").i("w", w), [&](J& j) {
    static int n = 0;
    for (int k = 0; k < (twin ? 2 : 1); ++k) {
      std::pair<int, std::shared_ptr<Walker>> p(w, (k ? there : here)[w]);
      (k ? spareThere : spareHere)[w] = p.second;
      if (++n % 3) (k ? twin : sys)->removeWalkerFromSystem(p);
      else (k ? twin : sys)->removeWalkerFromSystem(w, p.second);
    }
    here.erase(w);
    there.erase(w);
    common(j);
  });
}
static void hop(int w) {
  guarded(J("Hop").i("w", w), [&](J& j) {
    static int n = 0;
    auto inc = sys->getTimeIncrementOfClusters();
    auto cl = clusterIds();
    ++n;
    ++hops;
    for (int k = 0; k < (twin ? 2 : 1); ++k) {
      std::pair<int, std::shared_ptr<Walker>> p(w, (k ? there : here)[w]);
      if (n % 3) (k ? twin : sys)->hop(p);
      else (k ? twin : sys)->hop(w, p.second);
    }
    step(j, w, inc, cl);
    common(j);
  });
}
// up to n hops of one walker, reported as the set of its moves
static void runW(int w, long long n) {
  guarded(J("Run").i("w", w), [&](J& j) {
    auto inc = sys->getTimeIncrementOfClusters();
    auto cl = clusterIds();
    std::set<VL> moves;
    std::map<int, long long> in;
    long long done = 0, bad = 0, again = 0, tdiff = 0;
    auto x = here[w];
    while (done < n && !drain(x->getIdOfSiteCurrentlyOccupying())) {
      int p = x->getIdOfSiteCurrentlyOccupying(), q = x->getPotentialSite();
      double before = x->getDwellTime();
      for (int k = 0; k < (twin ? 2 : 1); ++k) {
        std::pair<int, std::shared_ptr<Walker>> v(w, (k ? there : here)[w]);
        if (done % 2) (k ? twin : sys)->hop(v);
        else (k ? twin : sys)->hop(w, v.second);
      }
      ++done;
      ++hops;
      int s = x->getIdOfSiteCurrentlyOccupying();
      double d = x->getDwellTime();
      int to = drain(s) ? -1 : x->getPotentialSite(), c = 2;
      if (!drain(s) && !(d > 0 && std::isfinite(d))) ++bad;
      if (!drain(s) && !cl.count(s) && d == before) ++again;
      if (cl.count(s)) { double i = inc[cl[s]]; c = d < i ? -1 : d > i ? 1 : 0; }
      ++in[s];
      moves.insert({p, q, s, to, c});
      if (twin) {
        auto& y = there[w];
        if (y->getIdOfSiteCurrentlyOccupying() != s || (!drain(s) && y->getPotentialSite() != to) || std::llabs(differ(d, y->getDwellTime())) > 1) ++tdiff;
      }
    }
    lastDwell[w] = x->getDwellTime();
    VVL mv(moves.begin(), moves.end()), arr;
    for (auto& a : in) arr.push_back({a.first, a.second});
    int p = x->getIdOfSiteCurrentlyOccupying();
    j.i("n", done).i("pos", p).i("pot", drain(p) ? -1 : x->getPotentialSite()).aa("mv", mv).aa("arr", arr).i("bad", bad).i("again", again).i("tdiff", tdiff);
    if (twin) { j.aa("sets", clustersOf(*sys, false)).aa("tsets", clustersOf(*twin, false)); if (conf[4]) j.aa("tvis", visits(*twin)); }
    common(j);
  });
}
static int freeSite(int k) {
  std::vector<int> f;
  for (int i : ids) {
    bool ok = !drain(i);
    for (auto& w : here) if (w.second->getIdOfSiteCurrentlyOccupying() == i) ok = false;
    if (ok) f.push_back(i);
  }
  if (f.empty()) return constants::unassignedId;
  return f[k % f.size()];
}
static void go(int w, int k) {
  if (!here.count(w)) { int s = freeSite(k); if (s != constants::unassignedId) place(w, s); }
  else if (drain(here[w]->getIdOfSiteCurrentlyOccupying())) removeW(w);
  else hop(w);
}
static void make(std::unique_ptr<CoarseGrainSystem>& s, long long seed) {
  s.reset(new CoarseGrainSystem);
  s->setTimeResolution(conf[0] / (TICK * unit));
  if (conf[1]) s->setPerformanceRatio((double)conf[1] / conf[2]);
  if (conf[3] >= 0) s->setMinCoarseGrainIterationThreshold(conf[3]);
  if (seed >= 0) s->setRandomSeed(seed);
  s->initializeSystem(rates);
}
#include "cg_more.hpp"
int main() {
  quiet();
  std::string line;
  while (std::getline(std::cin, line)) {
    Line l(line);
    if (l.op == "Net") {  // used by the next New
      unit = std::ldexp(1.0, l.n());
      sys.reset();
      twin.reset();
      rates.clear();
      edges.clear();
      ids.clear();
      int m = l.n();
      for (int k = 0; k < m; ++k) {
        int a = l.n(), b = l.n(), q = l.n();
        rates[a][b] = q * unit;
        edges.push_back({a, b, q});
        ids.insert(a);
        ids.insert(b);
      }
    } else if (l.op == "New") {
      here.clear();
      spareHere.clear();
      spareThere.clear();
      there.clear();
      sys.reset();
      twin.reset();
      lastDwell.clear();
      hops = 0;
      stuck = false;
      for (int k = 0; k < 5; ++k) conf[k] = l.n();
      long long seed = l.n(), two = l.n();
      guarded(J("New").i("T", conf[0]).i("pn", conf[1] ? conf[1] : 1).i("pd", conf[1] ? conf[2] : 1).i("min", conf[3] >= 0 ? conf[3] : 1000).aa("es", edges), [&](J&) {
        make(sys, seed);
        if (two) make(twin, seed);
      });
    } else if (l.op == "Go") { int w = l.n(), k = l.n(); go(w, k); }
    else if (l.op == "GoN") {  // n steps of walkers 1..nw in a pseudo-random order
      unsigned n = l.n(), nw = l.n(), x = l.n();
      while (n--) { x = x * 1664525u + 1013904223u; go(1 + (x >> 8) % nw, x >> 12); }
    } else if (l.op == "Place") { int w = l.n(), s = l.n(); int f = freeSite(s); if (!here.count(w) && f != constants::unassignedId) place(w, f); }
    else if (l.op == "Hop") { int w = l.n(); if (here.count(w)) go(w, 0); }
    else if (l.op == "Drop" || l.op == "Remove") { int w = l.n(); if (here.count(w)) removeW(w); }
    else if (l.op == "Until") {  // hops of walkers 1..nw, in runs, until k hops were made since New
      long long k = l.n(); unsigned nw = l.n(), x = l.n();
      for (int t = 0; !stuck && hops < k && t < 400; ++t) {
        x = x * 1664525u + 1013904223u;
        int w = 1 + (x >> 8) % nw;
        if (here.count(w) && !drain(here[w]->getIdOfSiteCurrentlyOccupying())) runW(w, std::min(k - hops, 1 + (long long)(x >> 4) % std::max(50LL, k / 4)));
        else go(w, x >> 12);
      }
      if (hops < k) stuck = true;
    } else if (l.op == "StepTo") {  // the same, reported hop by hop
      long long k = l.n(); unsigned nw = l.n(), x = l.n();
      for (int t = 0; !stuck && hops < k && t < 300; ++t) { x = x * 1664525u + 1013904223u; go(1 + (x >> 8) % nw, x >> 12); }
      if (hops < k) stuck = true;
    } else if (l.op == "Burn") {  // cluster ids used up elsewhere in the program
      int n = l.n();
      while (n--) Cluster c;
    } else if (l.op == "Reads") conf[4] = l.n();
    else if (l.op == "Visits") {
      guarded(J("Visits"), [&](J& j) { j.aa("vis", visits(*sys)); });
    } else if (l.op == "SetMin") {
      int m = l.n();
      guarded(J("SetMin").i("min", m), [&](J&) { sys->setMinCoarseGrainIterationThreshold(m); if (twin) twin->setMinCoarseGrainIterationThreshold(m); });
    } else if (l.op == "SetConf") {  // time resolution and performance ratio
      int T = l.n(), pn = l.n(), pd = l.n();
      if (T < 1) T = 1;
      guarded(J("SetConf").i("T", T).i("pn", pn).i("pd", pd), [&](J&) {
        for (auto s : {sys.get(), twin.get()}) if (s) { s->setTimeResolution(T / (TICK * unit)); s->setPerformanceRatio((double)pn / pd); }
      });
    } else if (!more(l)) _exit(8);
  }
  return 0;
}
