#include "common.hpp"
#include "mythical/walker.hpp"
using namespace mythical;
// dwell times are positions in this table
static const double T[] = {0.0, 5e-324, 1e-300, 1e-12, 0.1, 1.0, 1.0000000000000002, 16777217.0, 1e18, 1.7976931348623157e308, -1.0, -2.5};
static long long rank(double t) {
  for (int i = 0; i < 12; ++i) if (T[i] == t) return i;
  return -1;
}
int main() {
  quiet();
  std::vector<Walker> w(5);
  std::string s;
  auto state = [&](J& j) {
    VVL c;
    for (int i = 1; i <= 4; ++i) {
      VL v;
      try { int a = w[i].getIdOfSiteCurrentlyOccupying(); v = {1, a}; } catch (const std::runtime_error&) { v = {0, 0}; }
      try { int a = w[i].getPotentialSite(); v.push_back(1); v.push_back(a); } catch (const std::runtime_error&) { v.push_back(0); v.push_back(0); }
      v.push_back(rank(w[i].getDwellTime()));
      c.push_back(v);
    }
    j.aa("ws", c);
  };
  while (std::getline(std::cin, s)) {
    Line l(s);
    if (l.op == "Reset") {
      guarded(J("Reset"), [&](J& j) { w = std::vector<Walker>(5); state(j); });
    } else if (l.op == "Fresh") {
      int a = l.n();
      guarded(J("Fresh").i("w", a), [&](J& j) { w[a] = Walker(); state(j); });
    } else {
      int a = l.n(), b = l.n();
      guarded(J(l.op).i("w", a).i("s", b), [&](J& j) {
        if (l.op == "Occupy") w[a].occupySite(b);
        else if (l.op == "SetPotential") w[a].setPotentialSite(b);
        else if (l.op == "SetDwell") w[a].setDwellTime(T[b]);
        else if (l.op == "Copy") w[b] = w[a];
        else _exit(8);
        state(j);
      });
    }
  }
  return 0;
}
