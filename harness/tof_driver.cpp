// A time-of-flight simulation put together from the lattice, the Marcus rates,
// the queue and the coarse grained system, as in examples/ToF.  The script
// chooses the lattice, the energies, the field and the number of charges;
// everything that happens is logged.
#include "common.hpp"
#include "mythical/charge_transport/cuboid_lattice.hpp"
#include "mythical/charge_transport/marcus.hpp"
#include "mythical/coarsegrainsystem.hpp"
#include "mythical/constants.hpp"
#include "mythical/queue.hpp"
#include "mythical/walker.hpp"
#include <map>
#include <memory>
#include <set>
using namespace mythical;
using namespace mythical::charge_transport;
typedef std::unordered_map<int, std::unordered_map<int, double>> Rates;
struct Hole : Walker {};
static std::unique_ptr<Cuboid> lat;
static std::unique_ptr<CoarseGrainSystem> sys;
static Rates rates;
static int F, Jq, C, Z, N;
static long long h;
static double unit;  // times are logged in units of 1/unit
static std::vector<int> level;
static VVL clusters() {
  VVL r;
  for (auto& c : sys->getClusters()) r.push_back(svl(c.second));
  std::sort(r.begin(), r.end());
  return r;
}
int main() {
  quiet();
  std::string s;
  while (std::getline(std::cin, s)) {
    Line l(s);
    if (l.op == "Net") {
      // Net n1 n2 n3 p1 p2 p3 spacing h F J C Z T seed min tres levels...
      int a = l.n(), b = l.n(), c = l.n(), px = l.n(), py = l.n(), pz = l.n();
      double sp = std::vector<double>{1.0, 0.5, 1.1, 3.7e-10}[l.n()];
      h = l.n(); F = l.n(); Jq = l.n(); C = l.n(); Z = l.n();
      double T = l.n();
      int seed = l.n(), min = l.n(), tres = l.n();
      N = a * b * c;
      level.clear();
      VL lv;
      for (int i = 0; i < N; ++i) { level.push_back(l.n()); lv.push_back(level.back()); }
      guarded(J("Net").a("n", {a, b, c}).a("per", {px, py, pz}).i("h", h).i("F", F).i("J", Jq).i("C", C).i("Z", Z).i("min", min).a("lev", lv), [&](J&) {
        BoundarySetting P = BoundarySetting::Periodic, X = BoundarySetting::Fixed;
        lat.reset(new Cuboid(a, b, c, sp, px ? P : X, py ? P : X, pz ? P : X));
        const double kB = 8.617333262e-5, hbar = 6.582119569e-16, ln2 = std::log(2.0), kT = kB * T, H0 = 0.01;
        const double lambda = Jq ? ln2 * kT / Jq : 40 * kT;
        const double r0 = 2 * M_PI / hbar * H0 * H0 / std::sqrt(4 * M_PI * kT) * std::exp(-lambda / (4 * kT));
        unit = r0 * std::ldexp(1.0, -Z);
        Marcus marcus(lambda, T);
        double cut = std::sqrt(h / 2.0) * sp;
        rates.clear();
        auto d = lat->getNeighborDistances(cut);
        for (auto& p : d) {
          for (auto& q : p.second) {
            // the energy drops by 2 ln2 kT for each of F per step along x and each level
            double r = q.second / sp, H = H0 * std::pow(2.0, -0.5 * C * r * r);
            double x = lat->getX(q.first) - lat->getX(p.first);
            double Ei = 2 * ln2 * kT * level.at(p.first), Ej = 2 * ln2 * kT * (level.at(q.first) - F * x);
            rates[p.first][q.first] = marcus.getRate(Ei, Ej, H);
            rates[q.first][p.first] = marcus.getRate(Ej, Ei, H);
          }
        }
        sys.reset(new CoarseGrainSystem);
        sys->setRandomSeed(seed);
        sys->setTimeResolution(tres / unit);
        if (min >= 0) sys->setMinCoarseGrainIterationThreshold(min);
        sys->initializeSystem(rates);
      });
    } else if (l.op == "Fly") {
      // n charges together, at most so many hops; again: collected charges are
      // put back on the first plane, 1: as new objects, 2: as the same ones
      int n = l.n(), hops = l.n();
      double scale = l.n();
      int again = l.n();
      std::set<int> away;
      std::vector<std::pair<int, std::shared_ptr<Walker>>> holes;
      Queue queue;
      VVL at;
      guarded(J("Start"), [&](J& j) {
        std::set<int> taken;
        for (int k = 0; (int)taken.size() < n && k < 100000; ++k) taken.insert(lat->getRandomSite(Cuboid::Plane::YZ, 0));
        int id = 0;
        for (int i : taken) { holes.emplace_back(id++, std::make_shared<Hole>()); holes.back().second->occupySite(i); }
        sys->initializeWalkers(holes);
        for (auto& w : holes) {
          at.push_back({w.first, w.second->getIdOfSiteCurrentlyOccupying(), w.second->getPotentialSite(), fx(w.second->getDwellTime() * unit, scale)});
          queue.add({w.first, w.second->getDwellTime()});
        }
        queue.sort();
        j.aa("at", at).aa("cls", clusters());
      });
      int k = 0;
      double clock = 0;
      for (; k < hops && queue.size(); ++k) {
        bool gone = false;
        guarded(J("Hop"), [&](J& j) {
          double front = queue.at(0).second;
          auto now = queue.pop_current();
          auto& w = holes.at(now.first).second;
          clock = now.second;
          sys->hop(now.first, w);
          int site = w->getIdOfSiteCurrentlyOccupying();
          j.i("w", now.first).i("t", fx(now.second * unit, scale)).i("front", front == now.second).i("to", site).i("next", w->getPotentialSite()).i("d", fx(w->getDwellTime() * unit, scale));
          now.second += w->getDwellTime();
          gone = lat->getX(site) == lat->getLength() - 1;
          if (gone) { sys->removeWalkerFromSystem(now.first, w); away.insert(now.first); }
          else queue.sortedAdd(now);
          j.i("gone", gone).i("left", queue.size()).aa("cls", clusters());
        });
        int site = lat->getRandomSite(Cuboid::Plane::YZ, 0);
        for (auto& w : holes) if (!away.count(w.first) && w.second->getIdOfSiteCurrentlyOccupying() == site) site = -1;
        if (again && away.size() && site >= 0) {
          guarded(J("Inject"), [&](J& j) {
            int id = *away.begin();
            away.erase(id);
            auto& w = holes.at(id);
            if (again == 1) w.second = std::make_shared<Hole>();
            w.second->occupySite(site);
            std::vector<std::pair<int, std::shared_ptr<Walker>>> one{w};
            sys->initializeWalkers(one);
            queue.sortedAdd({id, clock + w.second->getDwellTime()});
            j.i("w", id).i("at", site).i("next", w.second->getPotentialSite()).i("t", fx(clock * unit, scale)).i("d", fx(w.second->getDwellTime() * unit, scale)).i("left", queue.size()).aa("cls", clusters());
          });
        }
      }
      // take the rest out, so that the next charges find an empty lattice
      guarded(J("Clear"), [&](J& j) {
        VL out;
        while (queue.size()) {
          auto now = queue.pop_current();
          out.push_back(now.first);
          sys->removeWalkerFromSystem(now.first, holes.at(now.first).second);
        }
        j.a("out", out);
      });
    } else if (l.op == "Alone") {
      // one charge, so many hops, no coarse graining: where it goes from each site and how long it stays
      int hops = l.n();
      guarded(J("Alone"), [&](J& j) {
        std::vector<std::pair<int, std::shared_ptr<Walker>>> one{{0, std::make_shared<Hole>()}};
        one[0].second->occupySite(lat->getRandomSite(Cuboid::Plane::YZ, 0));
        sys->initializeWalkers(one);
        auto& w = one[0].second;
        std::map<int, std::map<int, long long>> c;
        std::map<int, double> t;
        for (int k = 0; k < hops; ++k) {
          int i = w->getIdOfSiteCurrentlyOccupying();
          ++c[i][w->getPotentialSite()];
          t[i] += w->getDwellTime();
          sys->hop(0, w);
        }
        sys->removeWalkerFromSystem(0, w);
        VVL pk, tm;
        for (auto& x : c) {
          long long sum = 0;
          for (auto& y : x.second) { pk.push_back({x.first, y.first, y.second}); sum += y.second; }
          tm.push_back({x.first, sum, fx(t[x.first] * unit, 1000)});
        }
        j.aa("picks", pk).aa("times", tm);
      });
    } else if (l.op == "Flights") {
      // charges one after another from the first plane to the last: mean time;
      // same: the charge collected is the next one put in
      int n = l.n(), same = l.n();
      guarded(J("Flights").i("n", n), [&](J& j) {
        double sum = 0;
        std::shared_ptr<Walker> hole;
        for (int k = 0; k < n; ++k) {
          if (!hole || !same) hole = std::make_shared<Hole>();
          std::vector<std::pair<int, std::shared_ptr<Walker>>> one{{k, hole}};
          one[0].second->occupySite(lat->getRandomSite(Cuboid::Plane::YZ, 0));
          sys->initializeWalkers(one);
          auto& w = one[0].second;
          while (lat->getX(w->getIdOfSiteCurrentlyOccupying()) != lat->getLength() - 1) { sum += w->getDwellTime(); sys->hop(k, w); }
          sys->removeWalkerFromSystem(k, w);
        }
        j.i("mean", fx(sum / n * unit, 100000));
      });
    } else _exit(8);
  }
  return 0;
}
