// Minimal stand-in for the part of the UGLY graph library (an absent git
// submodule of MythiCaL) that MythiCaL uses.  It exists so that the sources of
// /repo that need UGLY (coarsegrainsystem, basin_explorer, graph adapter) can
// be compiled and executed offline.  It is part of the trusted base of the
// checks that use it; it is validated by running MythiCaL's own unit tests for
// those sources against it (see DESIGN.md).
#ifndef VERIF_UGLY_SHIM_HPP
#define VERIF_UGLY_SHIM_HPP
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

namespace ugly {

class Edge {
 public:
  Edge(int v1, int v2) : v1_(v1), v2_(v2) {}
  virtual ~Edge() {}
  int getVertex1() const { return v1_; }
  int getVertex2() const { return v2_; }
  int getOtherVertex(int v) const {
    if (v == v1_) return v2_;
    if (v == v2_) return v1_;
    throw std::invalid_argument("vertex is not part of the edge");
  }
  bool containsVertex(int v) const { return v == v1_ || v == v2_; }
  virtual double getWeight() const { return 1.0; }

 private:
  int v1_, v2_;
};

class EdgeDirectedWeighted : public Edge {
 public:
  EdgeDirectedWeighted(int v1, int v2, double w) : Edge(v1, v2), w_(w) {}
  double getWeight() const override { return w_; }

 private:
  double w_;
};

template <typename... Ts>
class GraphNode {
 public:
  template <typename... Us>
  explicit GraphNode(Us&&...) {}
};

template <typename... Ts>
class Graph {
 public:
  Graph(std::list<std::weak_ptr<Edge>> edges,
        std::unordered_map<int, std::weak_ptr<GraphNode<Ts...>>> nodes)
      : edges_(edges) {
    for (auto& n : nodes) nodes_.insert(n.first);
  }
  const std::list<std::weak_ptr<Edge>>& edges() const { return edges_; }
  const std::set<int>& nodes() const { return nodes_; }

 private:
  std::list<std::weak_ptr<Edge>> edges_;
  std::set<int> nodes_;
};

namespace hash_functions {
struct hash {
  template <typename A, typename B>
  size_t operator()(const std::pair<A, B>& p) const {
    return std::hash<A>()(p.first) * 1000003u ^ std::hash<B>()(p.second);
  }
};
}  // namespace hash_functions

namespace graphalgorithms {
// Shortest directed distance for every ordered pair of graph vertices; edges
// that leave the vertex set are not used; the distance of an unreachable pair
// is infinite.
template <typename... Ts>
std::unordered_map<std::pair<int, int>, double, hash_functions::hash>
maxMinimumDistanceBetweenEveryVertex(Graph<Ts...>& graph) {
  std::map<std::pair<int, int>, double> d;
  for (int v : graph.nodes()) d[{v, v}] = 0.0;
  for (auto& we : graph.edges()) {
    if (auto e = we.lock()) {
      int a = e->getVertex1(), b = e->getVertex2();
      if (!graph.nodes().count(a) || !graph.nodes().count(b)) continue;
      auto it = d.find({a, b});
      if (it == d.end() || e->getWeight() < it->second)
        if (a != b) d[{a, b}] = e->getWeight();
    }
  }
  for (int k : graph.nodes())
    for (int i : graph.nodes())
      for (int j : graph.nodes()) {
        auto ik = d.find({i, k}), kj = d.find({k, j});
        if (ik == d.end() || kj == d.end()) continue;
        double s = ik->second + kj->second;
        auto ij = d.find({i, j});
        if (ij == d.end() || s < ij->second) d[{i, j}] = s;
      }
  std::unordered_map<std::pair<int, int>, double, hash_functions::hash> out;
  for (int i : graph.nodes())
    for (int j : graph.nodes())
      if (i != j) {
        auto ij = d.find({i, j});
        out[{i, j}] = ij == d.end() ? std::numeric_limits<double>::infinity()
                                    : ij->second;
      }
  return out;
}
}  // namespace graphalgorithms

// Explores a graph from a start vertex, the heaviest known frontier edge first
// (Sign=+1) or the lightest first (Sign=-1).
template <int Sign>
class GraphVisitorKnownValue {
 public:
  void setStartingVertex(int v) { add_(v); }

  bool edgeCanBeAdded(std::weak_ptr<Edge> we) const {
    auto e = lock_(we);
    bool k1 = explored_.count(e->getVertex1());
    bool k2 = explored_.count(e->getVertex2());
    if (k1 == k2) return false;  // both known, or not attached to what is known
    for (auto& f : frontier_)
      if (f.lock() == e) return false;
    return true;
  }
  void addEdge(std::weak_ptr<Edge> we) {
    if (!edgeCanBeAdded(we))
      throw std::invalid_argument("edge cannot be added to the visitor");
    frontier_.push_back(we);
  }
  void addEdges(std::vector<std::weak_ptr<Edge>> es) {
    for (auto& e : es) addEdge(e);
  }
  bool allEdgesExplored() const { return frontier_.empty(); }

  template <typename E>
  std::weak_ptr<E> getNextEdge() {
    auto best = frontier_.end();
    for (auto it = frontier_.begin(); it != frontier_.end(); ++it)
      if (best == frontier_.end() ||
          Sign * lock_(*it)->getWeight() > Sign * lock_(*best)->getWeight())
        best = it;
    if (best == frontier_.end())
      throw std::runtime_error("no edge left to explore");
    return std::static_pointer_cast<E>(lock_(*best));
  }
  int chooseTerminalVertex(std::weak_ptr<Edge> we) const {
    auto e = lock_(we);
    if (!explored_.count(e->getVertex2())) return e->getVertex2();
    if (!explored_.count(e->getVertex1())) return e->getVertex1();
    throw std::runtime_error("both vertices have already been explored");
  }
  void exploreEdge(std::weak_ptr<Edge> we) {
    add_(chooseTerminalVertex(we));
    for (auto it = frontier_.begin(); it != frontier_.end();) {
      auto e = lock_(*it);
      if (explored_.count(e->getVertex1()) && explored_.count(e->getVertex2()))
        it = frontier_.erase(it);
      else
        ++it;
    }
  }
  size_t countExploredVertices() const { return order_.size(); }
  std::vector<int> getExploredVertices() const { return order_; }

 private:
  static std::shared_ptr<Edge> lock_(const std::weak_ptr<Edge>& we) {
    auto e = we.lock();
    if (!e) throw std::runtime_error("edge is no longer accessible");
    return e;
  }
  void add_(int v) {
    if (explored_.insert(v).second) order_.push_back(v);
  }
  std::set<int> explored_;
  std::vector<int> order_;
  std::list<std::weak_ptr<Edge>> frontier_;
};

class GraphVisitorLargestKnownValue : public GraphVisitorKnownValue<+1> {};
class GraphVisitorSmallestKnownValue : public GraphVisitorKnownValue<-1> {};

}  // namespace ugly
#endif
