#include "common.hpp"
#include "mythical/charge_transport/marcus.hpp"
using mythical::charge_transport::Marcus;
static bool ok(double r) { return r > 0 && std::isfinite(r); }
static long long ln(double r) { return fx(std::log(r), 1e4); }
int main() {
  quiet();
  std::string s;
  while (std::getline(std::cin, s)) {
    Line l(s);
    if (l.op == "Reset") { J("Reset").i("thr", 0).out(); continue; }
    if (l.op == "End") continue;
    if (l.op != "Rate") _exit(8);
    int L = l.n(), j = l.n(), d = l.n(), n = l.n(), off = l.n(), sg = l.n();
    guarded(J("Rate").i("L", L).i("j", j).i("d", d).i("n", n), [&](J& o) {
      const double kB = 8.617333262e-5;  // eV/K
      const double T = 0.010 * std::ldexp(1.0, j) / kB;
      const double h = std::ldexp(sg ? -1.0 : 1.0, -n);
      const double a = 0.25 * off - 0.5, b = a + d * 1e-3;
      Marcus m(L * 1e-3, T);
      double f = m.getRate(a, b, h), r = m.getRate(b, a, h);
      Marcus m2(m);
      double again = m2.getRate(a, b, h), moved = m.getRate(a + 3.5, b + 3.5, h), neg = m.getRate(a, b, -h), z = m.getRate(a, b, 0.0);
      o.i("ok", ok(f) && ok(r) && ok(again) && ok(moved) && ok(neg)).i("ln", ln(f)).i("back", ln(r)).i("again", ln(again)).i("moved", ln(moved));
      o.i("sign", ln(neg)).i("zero", z == 0.0 ? 0 : 1);
    });
  }
  return 0;
}
