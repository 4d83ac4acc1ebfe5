#include "common.hpp"
#include "mythical/queue.hpp"
#include <limits>
using namespace mythical;
// Times are given and logged as positions in this increasing table, so that
// the specification sees their exact order and identity.
static const double T[] = {-std::numeric_limits<double>::infinity(), -1e300, -3.0, -2.5, -1e-300, 0.0, 5e-324, 1e-18, 2e-18,
                           0.1, 0.1 + 1.3877787807814457e-17, 0.5, 0.75, 1.0, 1.0 + 2.220446049250313e-16, 1.5, 2.0, 2.25, 3.0, 1e9, 1e9 + 1e-6,
                           2147483647.0, 2147483648.5, 4294967296.0, 1e18, 1e300, std::numeric_limits<double>::infinity()};
static const int NT = sizeof(T) / sizeof(T[0]);
static long long rank(double t) {
  for (int i = 0; i < NT; ++i)
    if (T[i] == t) return i;
  return -1;
}
int main() {
  quiet();
  Queue* q = nullptr;
  std::string s;
  auto state = [&](J& j) {
    VVL c;
    for (size_t i = 0; i < q->size(); ++i) c.push_back({q->at(i).first, rank(q->at(i).second)});
    j.i("size", q->size()).i("sorted", q->isSorted()).aa("q", c);
  };
  while (std::getline(std::cin, s)) {
    Line l(s);
    if (l.op == "Reset") {
      delete q;
      q = new Queue;
      guarded(J("Reset"), [&](J& j) { state(j); });
    } else if (l.op == "Add" || l.op == "SortedAdd") {
      int id = l.n(), t = l.n();
      guarded(J(l.op).i("id", id).i("t", t), [&](J& j) {
        if (l.op == "Add") q->add({id, T[t]}); else q->sortedAdd({id, T[t]});
        state(j);
      });
    } else if (l.op == "Pop") {
      if (q->size() == 0) continue;
      guarded(J("Pop"), [&](J& j) {
        auto p = q->pop_current();
        j.i("id", p.first).i("t", rank(p.second));
        state(j);
      });
    } else if (l.op == "Sort") {
      guarded(J("Sort"), [&](J& j) { q->sort(); state(j); });
    } else if (l.op == "At") {
      int k = l.n();
      guarded(J("At").i("k", k), [&](J& j) {
        auto p = q->at(k);
        j.i("id", p.first).i("t", rank(p.second));
      });
    } else _exit(8);
  }
  delete q;
  return 0;
}
