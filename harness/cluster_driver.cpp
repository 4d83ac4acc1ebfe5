#include "common.hpp"
#include "topologyfeatures/cluster.hpp"
#include <list>
#include <map>
#include <memory>
#include <set>
using namespace mythical;
struct Edge { int f, t; double rate; };
static std::list<double> own;
static std::map<int, Site> sites;  // sites not (yet) handed to a cluster
static std::vector<Edge> es;
static std::set<int> ids;
static std::vector<std::unique_ptr<Cluster>> cl;
static std::vector<std::set<int>> built;
static std::vector<std::map<int, int>> open_;  // walker -> last step full?
static double unit = 1, K = 1;
static std::map<int, int> wid;      // walker of the script -> id given to the code
static int W(int w) { return wid.count(w) ? wid[w] : w; }
static std::set<int> issued;        // every cluster id seen so far
static int clash(const std::vector<int>& v) { int n = 0; for (int i : v) n += !issued.insert(i).second; return n; }
static std::string state() {
  VVL order;
  for (auto& x : es) order.push_back({x.f, x.t});
  J o("o");
  o.aa("order", order);
  std::string out = o.s.substr(o.s.find(",\"order\"")) + ",\"cl\":[";
  for (int c = 1; c <= 3; ++c) {
    Cluster x = *cl[c];  // observing must not disturb
    TopologyFeature& f = x;
    J j("c");
    VL mine = vl(x.getSiteIdsInCluster()), fe;
    VVL isin, info, occi, P, ex, vis;
    for (int i : ids) isin.push_back({i, x.siteIsInCluster(i)});
    for (auto& s : x.getSitesInCluster()) { Site t = s; TopologyFeature& g = t; info.push_back({t.getId(), t.getClusterId(), g.isOccupied()}); }
    double fast = x.getFastestRateOffCluster();
    for (size_t k = 0; k < es.size(); ++k) if (es[k].rate == fast) fe.push_back(k + 1);
    for (long long i : mine) { int q = i; occi.push_back({i, f.isOccupied(q)}); }
    j.i("id", x.getId()).a("ids", mine).i("n", x.getNumberOfSitesInCluster()).aa("isin", isin).aa("info", info).a("nb", vl(x.getSiteIdsNeighboringCluster()));
    j.a("fe", fe).i("fz", fast == 0.0).i("occ", f.isOccupied()).aa("occi", occi);
    if (!built[c].empty()) {
      double tc = x.getTimeConstant();
      for (int i : built[c]) P.push_back({i, fx(x.getProbabilityOfOccupyingInternalSite(i), 1e7)});
      for (int n : x.getSiteIdsNeighboringCluster()) ex.push_back({n, fx(x.getProbabilityOfHoppingToNeighborOfCluster(n), 1e7)});
      j.aa("P", P).aa("ex", ex).i("tcf", fx(tc * unit, 1e7)).i("tcs", fx(tc * unit / K, 1e7)).i("res", fx(x.getResolution(), 10)).i("ratio", fx(x.getTimeIncrement() * x.getResolution() / tc, 1e6));
      for (int i : built[c]) vis.push_back({i, x.getVisitFrequency(i)});
    }
    j.aa("vis", vis);
    out += (c > 1 ? "," : "") + j.s + "}";
  }
  return out + "]";
}
static void run(J j, const std::function<void(J&)>& f) {
  J r = j;
  int thr = 0;
  try { f(r); } catch (const std::exception&) { thr = 1; r = j; }
  r.i("thr", thr);
  r.s += state();
  r.out();
}
// the rest of the stay of w in x: dwell times and exit
static std::vector<double> rest(Cluster x, int w) {
  std::vector<double> r;
  TopologyFeature& f = x;
  for (int k = 0; k < 20000; ++k) {
    double d = f.getDwellTime(w);
    r.push_back(d);
    int to = f.pickNewSiteId(w);
    r.push_back(to);
    if (!x.siteIsInCluster(to)) break;
  }
  return r;
}
int main() {
  quiet();
  std::string line;
  while (std::getline(std::cin, line)) {
    Line l(line);
    if (l.op == "Net") {
      int u = l.n(), kx = l.n(), method = l.n(), n = l.n();
      unit = std::ldexp(1.0, u);
      K = std::ldexp(1.0, kx);
      own.clear(); sites.clear(); es.clear(); ids.clear(); wid.clear();
      std::map<int, double> m;
      VVL jm, je;
      for (int k = 0; k < n; ++k) { int i = l.n(); m[i] = l.n(); jm.push_back({i, (long long)m[i]}); sites[i].setId(i); sites[i].setRandomSeed(i + 7); ids.insert(i); }
      n = l.n();
      for (int k = 0; k < n; ++k) {
        int f = l.n(), t = l.n(), v = l.n(), s = l.n();
        double r = v / m[f] * unit / (s == 2 ? K * K : s ? K : 1.0);
        own.push_back(r);
        sites[f].addNeighRate(std::pair<int, double*>(t, &own.back()));
        es.push_back({f, t, r});
        je.push_back({f, t, v, s});
        ids.insert(t);
      }
      run(J("Net").aa("m", jm).aa("e", je).i("method", method).i("kexp", kx), [&](J& j) {
        cl.clear(); built.assign(4, {}); open_.assign(4, {});
        for (int c = 0; c <= 3; ++c) {
          cl.emplace_back(new Cluster);
          cl[c]->setRandomSeed(1000 + c + 13 * u * u + n);
          if (method == 1) { cl[c]->setConvergenceMethod(Cluster::converge_by_tolerance); cl[c]->setConvergenceTolerance(1e-13); }
          if (method == 2) { cl[c]->setConvergenceMethod(Cluster::converge_by_iterations_per_cluster); cl[c]->setConvergenceIterations(1500); }
          if (method == 3) { cl[c]->setConvergenceMethod(Cluster::converge_by_iterations_per_site); cl[c]->setConvergenceIterations(400); }
        }
        j.i("clash", clash({cl[1]->getId(), cl[2]->getId(), cl[3]->getId()}));
      });
      continue;
    }
    if (l.op == "OccFree") { int i = l.n(); run(J("OccFree").i("i", i), [&](J&) { TopologyFeature& f = sites[i]; f.occupy(); }); continue; }
    if (l.op == "VacFree") { int i = l.n(); run(J("VacFree").i("i", i), [&](J&) { TopologyFeature& f = sites[i]; f.vacate(); }); continue; }
    if (l.op == "Ids") { for (int w = 1; w <= 3; ++w) wid[w] = l.n(); continue; }
    if (l.op == "Many") {
      int n = l.n();
      run(J("Many").i("n", n), [&](J& j) { std::vector<int> v; for (int k = 0; k < n; ++k) { Cluster x; v.push_back(x.getId()); } j.i("clash", clash(v)); });
      continue;
    }
    int c = l.n();
    Cluster& x = *cl[c];
    TopologyFeature& f = x;
    if (l.op == "AddSite") {
      int i = l.n();
      run(J("AddSites").i("c", c).a("is", {i}), [&](J& j) { x.addSite(sites[i]); j.a("given", {sites[i].getClusterId()}); });
    } else if (l.op == "AddSites") {
      int n = l.n();
      VL is;
      std::vector<Site> v;
      for (int k = 0; k < n; ++k) { is.push_back(l.n()); v.push_back(sites[is.back()]); }
      run(J("AddSites").i("c", c).a("is", is), [&](J& j) { x.addSites(v); VL g; for (auto& s : v) g.push_back(s.getClusterId()); j.a("given", g); });
    } else if (l.op == "Update") {
      run(J("Update").i("c", c), [&](J&) { x.updateProbabilitiesAndTimeConstant(); auto v = x.getSiteIdsInCluster(); built[c] = std::set<int>(v.begin(), v.end()); });
    } else if (l.op == "Occ") { int i = l.n(); run(J("Occ").i("c", c).i("i", i), [&](J&) { f.occupy(i); }); }
    else if (l.op == "OccMany") { int i = l.n(), n = l.n(); run(J("OccMany").i("c", c).i("i", i).i("n", n), [&](J&) { for (int k = 0; k < n; ++k) { f.occupy(i); f.vacate(i); } }); }
    else if (l.op == "Vac") { int i = l.n(); run(J("Vac").i("c", c).i("i", i), [&](J&) { f.vacate(i); }); }
    else if (l.op == "Remove") { int w = l.n(), i = l.n(); run(J("Remove").i("c", c).i("w", w).i("i", i), [&](J&) { f.removeWalker(W(w), i); open_[c].erase(w); }); }
    else if (l.op == "Step" || l.op == "Dwell" || l.op == "Pick") {
      int w = l.n();
      auto pick = [&] { run(J("Pick").i("c", c).i("w", w), [&](J& j) { j.i("to", f.pickNewSiteId(W(w))); if (!open_[c][w]) open_[c].erase(w); }); };
      bool can = open_[c].count(w);
      if ((can && (!open_[c][w] || l.op == "Pick"))) { pick(); continue; }
      if (l.op == "Pick") { run(J("Skip"), [](J&) {}); continue; }
      run(J("Dwell").i("c", c).i("w", w), [&](J& j) {
        double d = f.getDwellTime(W(w)), inc = x.getTimeIncrement();
        open_[c][w] = d == inc;
        j.i("full", d == inc).i("pos", d > 0).i("le", d <= inc);
      });
      if (l.op == "Step") pick();
    } else if (l.op == "Fresh") {
      int w = l.n();
      if (open_[c].count(w) && !open_[c][w]) { run(J("Skip"), [](J&) {}); continue; }
      run(J("Fresh").i("c", c).i("w", w), [&](J& j) { j.i("eq", rest(x, W(w)) == rest(x, 987654)); });
    } else if (l.op == "Indep") {  // the rest of the stay of w, with and without n steps of v before
      int w = l.n(), v = l.n(), n = l.n();
      if (v == w || !open_[c].count(w) || !open_[c][w] || (open_[c].count(v) && !open_[c][v])) { run(J("Skip"), [](J&) {}); continue; }
      run(J("Indep").i("c", c).i("w", w).i("v", v), [&](J& j) {
        Cluster y = x;
        TopologyFeature& g = y;
        for (int k = 0; k < n; ++k) { g.getDwellTime(W(v)); g.pickNewSiteId(W(v)); }
        auto a = rest(x, W(w)), b = rest(y, W(w));
        bool eq = a.size() == b.size();
        for (size_t k = 0; eq && k < a.size(); k += 2) eq = a[k] == b[k];
        j.i("eq", eq);
      });
    } else if (l.op == "Guests") {  // the rest of the stay of w, with and without n other walkers coming in
      int w = l.n(), n = l.n();
      if (!open_[c].count(w) || !open_[c][w]) { run(J("Skip"), [](J&) {}); continue; }
      run(J("Indep").i("c", c).i("w", w).i("v", 0), [&](J& j) {
        Cluster y = x;
        TopologyFeature& g = y;
        for (int k = 0; k < n; ++k) { g.getDwellTime(k * 7919 + 100); if (k % 3) g.pickNewSiteId(k * 7919 + 100); }
        auto a = rest(x, W(w)), b = rest(y, W(w));
        bool eq = a.size() == b.size();
        for (size_t k = 0; eq && k < a.size(); k += 2) eq = a[k] == b[k];
        j.i("eq", eq);
      });
    } else if (l.op == "Iter") {  // iterations per site, per cluster, by default and by tolerance
      int k = l.n(), dec = l.n();
      run(J("Iter").i("c", c).i("k", k), [&](J& j) {
        auto solve = [&](int how, long n, double tol) {
          Cluster y;
          if (how == 1) { y.setConvergenceMethod(Cluster::converge_by_iterations_per_site); y.setConvergenceIterations(n); }
          if (how == 2) { y.setConvergenceMethod(Cluster::converge_by_iterations_per_cluster); y.setConvergenceIterations(n); }
          if (how == 3) { y.setConvergenceMethod(Cluster::converge_by_tolerance); y.setConvergenceTolerance(tol); }
          std::vector<Site> v;
          for (int i : built[c]) v.push_back(sites[i]);
          y.addSites(v);
          y.updateProbabilitiesAndTimeConstant();
          std::vector<double> r;
          for (int i : built[c]) r.push_back(y.getProbabilityOfOccupyingInternalSite(i));
          for (int i : ids) if (!built[c].count(i)) for (int n : y.getSiteIdsNeighboringCluster()) if (n == i) r.push_back(y.getProbabilityOfHoppingToNeighborOfCluster(i));
          r.push_back(y.getTimeConstant());
          return r;
        };
        // greatest relative difference in units of 10^-9
        auto far = [&](const std::vector<double>& a, const std::vector<double>& b) {
          long long d = a.size() == b.size() ? 0 : 2000000000;
          for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) d = std::max(d, (long long)fx(std::fabs(a[i] - b[i]) / std::max(std::fabs(a[i]), std::fabs(b[i])), 1e9));
          return d;
        };
        size_t N = built[c].size();
        Cluster z;  // what is set is what is reported
        bool set = z.getConvergenceTolerance() == 0.01 && z.getConvergenceIterations() == 3;
        z.setConvergenceIterations(k * 1000003L);
        z.setConvergenceTolerance(0.37 / k);
        for (auto w : {Cluster::converge_by_tolerance, Cluster::converge_by_iterations_per_site}) {
          z.setConvergenceMethod(w);
          set = set && z.getConvergenceTolerance() == 0.37 / k && z.getConvergenceIterations() == k * 1000003L;
        }
        j.i("set", set);
        j.i("site", far(solve(1, k, 0), solve(2, k * N, 0))).i("def", far(solve(0, 0, 0), solve(2, 3 * N, 0)));
        double tol = std::pow(10.0, -dec);
        auto t = solve(3, 0, tol);
        long long found = 0, kept = 0;
        std::vector<double> before;
        for (int n = 1; n <= 3000 && !found; ++n) {
          auto a = solve(2, n, 0);
          if (far(a, t) <= 1) {
            found = n;
            kept = 1;
            for (size_t i = 0; i < N && n > 1; ++i) if (!(std::fabs(a[i] - before[i]) <= tol * 1.000001)) kept = 0;
          }
          before = a;
        }
        j.i("found", found).i("kept", kept);
      });
    } else if (l.op == "Closed") {  // the same sites without their exits: there is no escape time
      run(J("Closed").i("c", c), [&](J& j) {
        std::map<int, std::unordered_map<int, double>> inner;
        for (auto& q : es) if (built[c].count(q.f) && built[c].count(q.t)) inner[q.f][q.t] = q.rate;
        bool none = true;
        if (inner.size() == built[c].size()) {
          Cluster y;
          std::vector<Site> v;
          for (auto& q : inner) { Site s; s.setId(q.first); s.setRatesToNeighbors(q.second); v.push_back(s); }
          y.addSites(v);
          y.updateProbabilitiesAndTimeConstant();
          none = y.getTimeConstant() == constants::unassigned_value;
        }
        j.i("none", none);
      });
    } else if (l.op == "Absorb") {
      int d = l.n();
      run(J("Absorb").i("c", c).i("d", d), [&](J&) {
        x.migrateSitesFrom(*cl[d]);
        auto v = x.getSiteIdsInCluster();
        built[c] = std::set<int>(v.begin(), v.end());
        built[d].clear();
        open_[d].clear();
      });
    } else if (l.op == "SetRes") { int r = l.n(); run(J("SetRes").i("c", c).i("r", r), [&](J&) { x.setResolution(r / 10.0); }); }
    else if (l.op == "Read") {
      run(J("Read").i("c", c), [&](J& j) { VVL v; for (int i : built[c]) v.push_back({i, x.getVisitFrequency(i)}); j.aa("v", v); });
    } else if (l.op == "SetVisits") {
      int i = l.n(), v = l.n();
      run(J("SetVisits").i("c", c).i("i", i).i("v", v), [&](J&) { x.setVisitFrequency(v, i); });
    } else if (l.op == "Poll") {
      // n visits, read after each (a) or only at the end (b)
      int n = l.n();
      run(J("Poll").i("c", c).i("n", n), [&](J& j) {
        int spare = -1;
        for (int i : built[c]) { int k = i; if (!f.isOccupied(k)) spare = i; }
        VVL res[2];
        if (spare >= 0) for (int t = 0; t < 2; ++t) {
          Cluster y = x;
          TopologyFeature& g = y;
          for (int k = 0; k < n; ++k) { g.occupy(spare); g.vacate(spare); if (!t) for (int i : built[c]) y.getVisitFrequency(i); }
          for (int i : built[c]) res[t].push_back({i, y.getVisitFrequency(i)});
        }
        j.aa("a", res[0]).aa("b", res[1]);
      });
    } else if (l.op == "Walk") {
      int n = l.n(); unsigned long seed = l.n(); int nw = l.n();
      run(J("Walk").i("c", c), [&](J& j) {
        Cluster y = x;
        y.setRandomSeed(seed);
        TopologyFeature& g = y;
        std::minstd_rand rnd(seed % 100000 + 1);
        double med = std::log(2.0) * y.getTimeConstant();
        VL q(10, 0);
        struct Out { long long n = 0, after = 0, before = 0; };
        struct In { long long n = 0, twice = 0; };
        std::map<int, In> in;
        std::map<int, Out> out;
        long long fo = 0, si = 0, bad = 0, done = 0, followed = 0, pairs = 0, both = 0, ins = 0, inp = 0;
        const int NONE = -1999999999;
        int lastExit = NONE, lastIn = NONE;
        std::vector<int> startExit(nw, NONE), started(nw, 0), second(nw, 0), longer(nw, 0);
        int spare = *built[c].begin();
        for (int i : built[c]) { int k = i; if (!g.isOccupied(k)) spare = k; }
        std::vector<double> total(nw, 0.0);
        std::vector<int> left(nw, n / nw), throwaway(nw, 0);  // throwaway: steps until the walker is removed
        std::vector<int> alive;
        for (int w = 0; w < nw; ++w) alive.push_back(w);
        while (!alive.empty()) {
          int k = rnd() % alive.size(), w = alive[k], id = 5000 + w;
          if (!started[w]) { started[w] = 1; startExit[w] = lastExit; lastExit = NONE; }
          double d = g.getDwellTime(id);
          bool full = d == y.getTimeIncrement();
          if (!(d > 0) || d > y.getTimeIncrement()) ++bad;
          if (throwaway[w] == 1) {  // removed before it hops
            int s = spare;
            if (g.isOccupied(s)) g.vacate(s);
            g.occupy(s);
            g.removeWalker(id, s);
            throwaway[w] = 0; total[w] = 0; started[w] = 0;
            continue;
          }
          total[w] += d;
          int to = g.pickNewSiteId(id);
          bool member = y.siteIsInCluster(to);
          if (full && !member) ++fo;
          if (!full && member) ++si;
          if (!member) { lastExit = to; started[w] = 0; }
          if (throwaway[w] > 1) { --throwaway[w]; if (!member) total[w] = 0; lastIn = NONE; ins = 0; continue; }
          if (member && full) { ++in[to].n; if (ins++ % 2) { ++inp; if (to == lastIn) ++in[to].twice; } lastIn = to; }
          if (!member || !full) {
            auto& o = out[to];
            ++o.n;
            bool big = total[w] > med;
            if (big) ++o.after;
            if (startExit[w] != NONE) { ++followed; if (big) ++out[startExit[w]].before; }
            if (second[w]) { ++pairs; if (big && longer[w]) ++both; }
            second[w] = !second[w];
            longer[w] = big;
            for (int t = 0; t < 10; ++t) if (total[w] > (t + 1) * med) ++q[t];
            ++done;
            total[w] = 0;
            if (--left[w] <= 0) { alive.erase(alive.begin() + k); continue; }
            if (rnd() % 8 == 0) throwaway[w] = 1 + rnd() % 4;
          }
        }
        VVL vi, vo;
        for (auto& p : in) vi.push_back({p.first, p.second.n, p.second.twice});
        for (auto& p : out) vo.push_back({p.first, p.second.n, p.second.after, p.second.before});
        j.i("n", done).a("q", q).aa("in", vi).aa("out", vo).i("inp", inp).i("followed", followed).i("pairs", pairs).i("both", both).i("fo", fo).i("si", si).i("bad", bad);
      });
    } else _exit(8);
  }
  return 0;
}
