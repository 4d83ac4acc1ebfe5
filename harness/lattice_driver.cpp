#include "common.hpp"
#include "mythical/charge_transport/cuboid_lattice.hpp"
#include <memory>
using namespace mythical::charge_transport;
static const double SP[] = {1.0, 0.5, 2.0, 0.25, 1.1, 0.1, 5.570437069337762, 0.584123248710474, 3.7e-10, 1024.0};
static double sp = 1.0;
// h is twice the square of the cutoff in units of the spacing
static double cutoff(long long h) {
  double c2 = h / 2.0;
  double k = std::floor(std::sqrt(c2) + 0.5);
  if (k * k == c2) return k * sp;
  return std::sqrt(c2) * sp;
}
static long long d2(double d) { return fx((d / sp) * (d / sp), 1000.0); }
int main() {
  quiet();
  std::unique_ptr<Cuboid> c(new Cuboid(1, 1, 1));
  std::string s;
  while (std::getline(std::cin, s)) {
    Line l(s);
    if (l.op == "New") {
      int a = l.n(), b = l.n(), h = l.n(), si = l.n(), x = l.n(), y = l.n(), z = l.n(), ctor = l.n();
      guarded(J("New").a("n", {a, b, h}).a("per", {x, y, z}), [&](J& j) {
        BoundarySetting P = BoundarySetting::Periodic, F = BoundarySetting::Fixed;
        std::unique_ptr<Cuboid> n;
        double want = SP[si];
        if (ctor == 3) { n.reset(new Cuboid(a, b, h)); want = 1.0; }
        else if (ctor == 4) n.reset(new Cuboid(a, b, h, SP[si]));
        else n.reset(new Cuboid(a, b, h, SP[si], x ? P : F, y ? P : F, z ? P : F));
        c = std::move(n);
        sp = want;
        j.a("gn", {c->getLength(), c->getWidth(), c->getHeight()}).a("gper", {c->isXPeriodic(), c->isYPeriodic(), c->isZPeriodic()});
        j.i("sp", c->getLatticeSpacing() == want);
      });
    } else if (l.op == "Index") {
      int a = l.n(), b = l.n(), h = l.n();
      guarded(J("Index").a("p", {a, b, h}), [&](J& j) { j.i("i", c->getIndex(a, b, h)); });
    } else if (l.op == "IndexV" || l.op == "NeighPosV") {
      int n = l.n();
      std::vector<int> p;
      for (int i = 0; i < n; ++i) p.push_back(l.n());
      if (l.op == "IndexV") guarded(J("IndexV").a("p", vl(p)), [&](J& j) { j.i("i", c->getIndex(p)); });
      else guarded(J("NeighPos").a("p", vl(p)).i("h", 5), [&](J& j) {
        VVL v;
        for (auto& q : c->getNeighborDistances(p, cutoff(5))) v.push_back({q.first, d2(q.second)});
        j.aa("nd", v);
      });
    } else if (l.op == "Pos") {
      int i = l.n();
      guarded(J("Pos").i("i", i), [&](J& j) { j.a("p", vl(c->getPosition(i))); });
    } else if (l.op == "Coord") {
      int i = l.n();
      VL t, p;
      for (int d = 0; d < 3; ++d) {
        try { p.push_back(d == 0 ? c->getX(i) : d == 1 ? c->getY(i) : c->getZ(i)); t.push_back(0); }
        catch (const std::exception&) { p.push_back(-1); t.push_back(1); }
      }
      J("Coord").i("i", i).a("t", t).a("p", p).out();
    } else if (l.op == "Neigh") {
      int i = l.n(); long long h = l.n();
      guarded(J("Neigh").i("i", i).i("h", h), [&](J& j) {
        j.a("ns", vl(c->getNeighbors(i, cutoff(h))));
        VVL v;
        for (auto& q : c->getNeighborDistances(i, cutoff(h))) v.push_back({q.first, d2(q.second)});
        j.aa("nd", v);
      });
    } else if (l.op == "NeighTo") {  // the cutoff is the distance of i and j the lattice reports
      int i = l.n(), k = l.n();
      guarded(J("NeighTo").i("i", i).i("j", k), [&](J& j) {
        const double cut = c->getSmallestDistance(i, k);
        VVL v, w;
        j.a("ns", vl(c->getNeighbors(i, cut)));
        for (auto& q : c->getNeighborDistances(i, cut)) v.push_back({q.first, d2(q.second)});
        auto all = c->getNeighborDistances(cut);
        if (all.count(i)) for (auto& q : all[i]) w.push_back({q.first, d2(q.second)});
        j.aa("nd", v).aa("na", w);
      });
    } else if (l.op == "NeighPos") {
      int a = l.n(), b = l.n(), z = l.n(); long long h = l.n();
      guarded(J("NeighPos").a("p", {a, b, z}).i("h", h), [&](J& j) {
        VVL v;
        for (auto& q : c->getNeighborDistances(std::vector<int>{a, b, z}, cutoff(h))) v.push_back({q.first, d2(q.second)});
        j.aa("nd", v);
      });
    } else if (l.op == "NeighAll") {
      long long h = l.n();
      guarded(J("NeighAll").i("h", h), [&](J& j) {
        auto m = c->getNeighborDistances(cutoff(h));
        int n = c->getLength() * c->getWidth() * c->getHeight();
        std::string all = "[";
        int extra = 0;
        for (auto& q : m) if (q.first < 0 || q.first >= n) ++extra;
        for (int i = 0; i < n; ++i) {
          VVL v;
          if (m.count(i)) for (auto& q : m[i]) v.push_back({q.first, d2(q.second)});
          J t("x");
          t.aa("a", v);
          all += (i ? "," : "") + t.s.substr(t.s.find(":[") + 1);
        }
        j.i("extra", extra);
        j.s += ",\"all\":" + all + "]";
      });
    } else if (l.op == "Dist") {
      int a = l.n(), b = l.n();
      guarded(J("Dist").i("i", a).i("j", b), [&](J& j) { j.i("d", d2(c->getSmallestDistance(a, b))); });
    } else if (l.op == "DistAll") {
      guarded(J("DistAll"), [&](J& j) {
        VVL v;
        int n = c->getLength() * c->getWidth() * c->getHeight();
        for (int a = 0; a < n; ++a) { VL r; for (int b = 0; b < n; ++b) r.push_back(d2(c->getSmallestDistance(a, b))); v.push_back(r); }
        j.aa("all", v);
      });
    } else if (l.op == "Rand") {
      int d = l.n(), k = l.n(), n = l.n(), pairs = l.n();
      Cuboid::Plane pl = d == 1 ? Cuboid::Plane::YZ : d == 2 ? Cuboid::Plane::XZ : Cuboid::Plane::XY;
      guarded(J("Rand").i("d", d).i("k", k).i("n", n), [&](J& j) {
        int t = c->getLength() * c->getWidth() * c->getHeight();
        VL cnt(t, 0);
        VVL pc(pairs ? t : 0, VL(t, 0));
        int prev = -1;
        for (int i = 0; i < n; ++i) {
          int q = c->getRandomSite(pl, k);
          if (q < 0 || q >= t) { prev = -1; continue; }
          ++cnt[q];
          if (pairs && i % 2 && prev >= 0) ++pc[prev][q];
          prev = q;
        }
        j.a("c", cnt).aa("pc", pc);
      });
    } else _exit(8);
  }
  return 0;
}
