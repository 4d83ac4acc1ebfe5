#include "common.hpp"
#include "rate_container.hpp"
#include <memory>
using namespace mythical;
static double cells[4096];
static VVL triples(Rate_Map m) {
  VVL v;
  for (auto& a : m) for (auto& b : a.second) v.push_back({a.first, b.first, (long long)(b.second - cells)});
  return v;
}
int main() {
  quiet();
  std::unique_ptr<Rate_Container> r(new Rate_Container);
  std::string s;
  while (std::getline(std::cin, s)) {
    Line l(s);
    if (l.op == "Reset") { r.reset(new Rate_Container); J("Reset").i("thr", 0).out(); }
    else if (l.op == "Add") {
      int a = l.n(), b = l.n(), c = l.n();
      guarded(J("Add").i("i", a).i("j", b).i("c", c), [&](J&) { r->addRate(a, b, &cells[c]); });
    } else if (l.op == "AddMany") {
      int n = l.n();
      Rate_Map m;
      VVL es;
      for (int i = 0; i < n; ++i) { int a = l.n(), b = l.n(), c = l.n(); m[a][b] = &cells[c]; es.push_back({a, b, c}); }
      guarded(J("AddMany").aa("es", es), [&](J&) { r->addRates(m); });
    } else if (l.op == "Get") {
      int a = l.n(), b = l.n();
      guarded(J("Get").i("i", a).i("j", b), [&](J& j) {
        double* p = r->getRate(a, b);
        j.i("c", p >= cells && p < cells + 4096 ? p - cells : -1);
      });
    } else if (l.op == "Counts") {
      int a = l.n();
      guarded(J("Counts").i("i", a), [&](J& j) { j.i("nin", r->incomingRateCount(a)).i("nout", r->outgoingRateCount(a)); });
    } else if (l.op == "Lists") {
      int a = l.n();
      guarded(J("Lists").i("i", a), [&](J& j) { j.aa("ins", triples(r->getIncomingRates(a))).aa("outs", triples(r->getOutgoingRates(a))); });
    } else if (l.op == "Ends") {
      guarded(J("Ends"), [&](J& j) { j.a("sources", vl(r->getSourceSiteIds())).a("sinks", vl(r->getSinkSiteIds())); });
    } else _exit(8);
  }
  return 0;
}
