// Shared by the drivers: one JSON object per executed operation on stdout.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <algorithm>

struct J {
  std::string s;
  explicit J(const std::string& op) { s = "{\"op\":\"" + op + "\""; }
  J& i(const char* k, long long v) {
    s += ",\"" + std::string(k) + "\":" + std::to_string(v);
    return *this;
  }
  static std::string arr(const std::vector<long long>& v) {
    std::string r = "[";
    for (size_t n = 0; n < v.size(); ++n) r += (n ? "," : "") + std::to_string(v[n]);
    return r + "]";
  }
  J& a(const char* k, const std::vector<long long>& v) {
    s += ",\"" + std::string(k) + "\":" + arr(v);
    return *this;
  }
  J& aa(const char* k, const std::vector<std::vector<long long>>& v) {
    s += ",\"" + std::string(k) + "\":[";
    for (size_t n = 0; n < v.size(); ++n) s += (n ? "," : "") + arr(v[n]);
    s += "]";
    return *this;
  }
  void out() {
    s += "}\n";
    size_t off = 0;
    while (off < s.size()) {
      ssize_t n = write(1, s.data() + off, s.size() - off);
      if (n <= 0) _exit(9);
      off += n;
    }
  }
};
typedef std::vector<long long> VL;
typedef std::vector<VL> VVL;

// A double as a 32-bit integer in units of 1/scale.  Not-a-number, infinite or
// oversized values become a value no specification accepts.
inline long long fx(double v, double scale = 1.0) {
  if (std::isnan(v)) return -2000000001LL;
  double x = v * scale;
  if (!(std::fabs(x) < 1.9e9)) return x > 0 ? 2000000000LL : -2000000000LL;
  return std::llround(x);
}
template <typename T>
VL vl(const T& c) {
  VL r;
  for (auto x : c) r.push_back(x);
  return r;
}
template <typename T>
VL svl(const T& c) {
  VL r = vl(c);
  std::sort(r.begin(), r.end());
  return r;
}
// stdout belongs to the trace; what the library prints goes to stderr
inline void quiet() { std::cout.rdbuf(std::cerr.rdbuf()); }

// Runs one operation; if it throws, the event says so and has no results.
inline void guarded(J j, const std::function<void(J&)>& f) {
  try {
    J r = j;
    f(r);
    r.i("thr", 0);
    r.out();
  } catch (const std::exception&) {
    j.i("thr", 1);
    j.out();
  }
}
struct Line {
  std::istringstream in;
  std::string op;
  explicit Line(const std::string& l) : in(l) { in >> op; }
  long long n() {
    long long v = 0;
    if (!(in >> v)) { fprintf(stderr, "bad script line\n"); _exit(8); }
    return v;
  }
};
#endif
