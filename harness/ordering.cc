// C21: orderings, graphs, clusterings, program reduction and reordering against models.
#include <algorithm>
#include <map>
#include <set>

#include "absl/container/btree_set.h"
#include "ceres/block_structure.h"
#include "ceres/canonical_views_clustering.h"
#include "ceres/context_impl.h"
#include "ceres/coordinate_descent_minimizer.h"
#include "ceres/evaluator.h"
#include "ceres/graph.h"
#include "ceres/graph_algorithms.h"
#include "ceres/minimizer.h"
#include "ceres/ordered_groups.h"
#include "ceres/parameter_block.h"
#include "ceres/parameter_block_ordering.h"
#include "ceres/problem_impl.h"
#include "ceres/program.h"
#include "ceres/reorder_program.h"
#include "ceres/residual_block.h"
#include "ceres/single_linkage_clustering.h"
#include "ceres/sparse_matrix.h"
#include "ceres/triplet_sparse_matrix.h"
#include "ceres/visibility.h"
#include "model.h"
#include "options.h"
#include "vh.h"

namespace {
using namespace vh;
using namespace ceres::internal;
using ceres::OrderedGroups;
using ceres::ParameterBlockOrdering;
using ceres::Problem;

// ------------------------------------------------------------------ ordered groups
struct GroupModel {
  std::map<int, int> of;  // element -> group
  std::map<int, std::set<int>> Groups() const {
    std::map<int, std::set<int>> g;
    for (auto& p : of) g[p.second].insert(p.first);
    return g;
  }
};

bool SameGroups(Case& c, const OrderedGroups<int>& o, const GroupModel& m, int range, const std::string& what) {
  const auto g = m.Groups();
  if (!c.expect(o.group_to_elements() == g, "groups", "after %s", what.c_str())) return false;
  if (!c.expect(o.element_to_group().size() == m.of.size(), "group-elements", "after %s", what.c_str())) return false;
  for (auto& p : m.of) {
    auto it = o.element_to_group().find(p.first);
    if (!c.expect(it != o.element_to_group().end() && it->second == p.second, "group-elements", "after %s: element %d", what.c_str(), p.first)) return false;
  }
  if (!c.expect(o.NumElements() == (int)m.of.size() && o.NumGroups() == (int)g.size(), "group-counts", "after %s: %d elements in %d groups, expected %zu in %zu", what.c_str(), o.NumElements(), o.NumGroups(), m.of.size(), g.size())) return false;
  if (!g.empty() && !c.expect(o.MinNonZeroGroup() == g.begin()->first, "min-group", "after %s", what.c_str())) return false;
  for (int e = -1; e <= range; ++e) {
    auto it = m.of.find(e);
    const int want = it == m.of.end() ? -1 : it->second;
    if (!c.expect(o.GroupId(e) == want && o.IsMember(e) == (want >= 0), "group-id", "after %s: element %d in %d, expected %d", what.c_str(), e, o.GroupId(e), want)) return false;
  }
  for (int k : {-1, 0, 1, 2, 3, 7, 1000000}) {
    auto it = g.find(k);
    if (!c.expect(o.GroupSize(k) == (it == g.end() ? 0 : (int)it->second.size()), "group-size", "after %s: group %d", what.c_str(), k)) return false;
  }
  return true;
}

void Groups(Case& c) {
  auto& r = c.rng;
  OrderedGroups<int> o;
  GroupModel m;
  const int range = r.of({2, 5, 12});
  const int steps = r.range(1, 40);
  uint64_t last = 0, prev = 0;
  for (int s = 0; s < steps; ++s) {
    std::string what;
    const int op = r.range(0, 11);
    if (op <= 5) {
      const int e = r.range(0, range), g = r.chance(0.08) ? -r.range(1, 3) : r.chance(0.05) ? 1000000 : r.range(0, 5);
      what = Fmt("add %d to %d", e, g);
      const bool ok = o.AddElementToGroup(e, g);
      if (!c.expect(ok == (g >= 0), "add", "%s returned %d", what.c_str(), ok)) return;
      if (g >= 0) m.of[e] = g;
    } else if (op <= 7) {
      const int e = r.range(-1, range);
      what = Fmt("remove %d", e);
      const bool ok = o.Remove(e);
      if (!c.expect(ok == (m.of.erase(e) > 0), "remove", "%s returned %d", what.c_str(), ok)) return;
    } else if (op == 8) {
      std::vector<int> v(r.range(0, 5));
      for (int& e : v) e = r.range(-1, range);
      int want = 0;
      for (int e : v) want += m.of.erase(e);
      what = "remove several";
      const int got = o.Remove(v);
      if (!c.expect(got == want, "remove", "removed %d, expected %d", got, want)) return;
    } else if (op == 9 || op == 10) {
      what = "reverse";
      // the groups appear in the opposite order; ids are increasing and not negative
      std::vector<std::set<int>> before;
      for (auto& g : m.Groups()) before.push_back(g.second);
      o.Reverse();
      c.count("reversed");
      std::reverse(before.begin(), before.end());
      std::vector<std::set<int>> after;
      m.of.clear();
      for (auto& g : o.group_to_elements()) {
        after.push_back(g.second);
        if (!c.expect(g.first >= 0, "reverse", "negative group")) return;
        for (int e : g.second) m.of[e] = g.first;
      }
      if (!c.expect(after == before, "reverse", "the groups are not reversed")) return;
    } else if (r.chance(0.3)) {
      what = "clear";
      o.Clear();
      m.of.clear();
    } else {
      what = "copy";
      OrderedGroups<int> copy(o);
      OrderedGroups<int> moved(std::move(copy));
      o = moved;
    }
    c.count("group-edits");
    const uint64_t now = op <= 5 ? 1 : op <= 7 ? 2 : op;
    c.sig(Combine(Combine(prev, last), Combine(now, std::min<size_t>(m.of.size(), 4))));
    prev = last, last = now;
    if (!SameGroups(c, o, m, range, what)) return;
  }
}

// ------------------------------------------------------------------ graphs
struct GraphModel {
  std::map<int, double> v;
  std::map<std::pair<int, int>, double> e;  // first <= second
  static std::pair<int, int> Key(int a, int b) { return {std::min(a, b), std::max(a, b)}; }
  std::set<int> Neighbors(int a) const {
    std::set<int> n;
    for (auto& k : e) {
      if (k.first.first == a) n.insert(k.first.second);
      if (k.first.second == a) n.insert(k.first.first);
    }
    return n;
  }
  void Remove(int a) {
    v.erase(a);
    for (auto it = e.begin(); it != e.end();) it = it->first.first == a || it->first.second == a ? e.erase(it) : std::next(it);
  }
  double Weight(int a, int b) const {
    auto it = e.find(Key(a, b));
    return it == e.end() ? 0.0 : it->second;
  }
};

template <typename G>
bool SameGraph(Case& c, const G& g, const GraphModel& m, const char* what) {
  std::set<int> vs(g.vertices().begin(), g.vertices().end()), want;
  for (auto& p : m.v) want.insert(p.first);
  if (!c.expect(vs == want && g.vertices().size() == want.size(), "graph-vertices", "after %s", what)) return false;
  for (int a : want) {
    const auto& n = g.Neighbors(a);
    if (!c.expect(std::set<int>(n.begin(), n.end()) == m.Neighbors(a), "graph-neighbors", "after %s: of %d", what, a)) return false;
  }
  return true;
}
bool SameWeights(Case& c, const WeightedGraph<int>& g, const GraphModel& m, const char* what) {
  for (auto& p : m.v) {
    if (!c.expect(g.VertexWeight(p.first) == p.second, "graph-vertex-weight", "after %s: %d", what, p.first)) return false;
    for (auto& q : m.v)
      if (!c.expect(g.EdgeWeight(p.first, q.first) == m.Weight(p.first, q.first), "graph-edge-weight", "after %s: (%d,%d) %g, expected %g", what, p.first, q.first, g.EdgeWeight(p.first, q.first), m.Weight(p.first, q.first))) return false;
  }
  return true;
}

void Graphs(Case& c) {
  auto& r = c.rng;
  Graph<int> g;
  WeightedGraph<int> w;
  GraphModel m;
  const int range = r.of({2, 5, 9});
  const bool loops = r.chance(0.4);
  const int steps = r.range(1, 40);
  for (int s = 0; s < steps; ++s) {
    const int op = r.range(0, 9);
    const char* what = "";
    if (op <= 2 || m.v.empty()) {
      const int a = r.range(-1, range);
      const double x = r.chance(0.3) ? 1.0 : r.uni(-2, 2);
      what = "add vertex";
      g.AddVertex(a);
      if (x == 1.0) w.AddVertex(a); else w.AddVertex(a, x);
      m.v[a] = x;
    } else if (op <= 7) {
      std::vector<int> vs;
      for (auto& p : m.v) vs.push_back(p.first);
      const int a = r.pick(vs), b = r.pick(vs);
      if (a == b && !loops) continue;
      const double x = r.chance(0.3) ? 1.0 : r.uni(-2, 2);
      what = a == b ? "add loop" : "add edge";
      g.AddEdge(a, b);
      if (x == 1.0) w.AddEdge(a, b); else w.AddEdge(a, b, x);
      m.e[GraphModel::Key(a, b)] = x;
    } else {
      const int a = r.range(-1, range);
      what = "remove vertex";
      const bool want = m.v.count(a) > 0;
      const bool ok = g.RemoveVertex(a), ok2 = w.RemoveVertex(a);
      if (!c.expect(ok == want && ok2 == want, "graph-remove", "%d: %d and %d, expected %d", a, ok, ok2, want)) return;
      if (want && m.e.count({a, a})) c.count("looped-removed");
      m.Remove(a);
    }
    c.count("graph-edits");
    if (!SameGraph(c, g, m, what) || !SameGraph(c, w, m, what) || !SameWeights(c, w, m, what)) return;
  }
  c.sig(Fmt("graph%zu/%zu", m.v.size(), m.e.size()));
}

// Random graphs: sparse, dense, paths, stars, cliques, bipartite, with isolated vertices.
GraphModel RandomGraph(Rng& r, bool loops, std::string* kind) {
  GraphModel m;
  const int n = r.chance(0.1) ? r.range(0, 2) : r.range(2, r.chance(0.1) ? 60 : 14);
  std::vector<int> id(n);
  for (int i = 0; i < n; ++i) id[i] = i * 3 - 5;
  r.shuffle(id);
  const double scale = r.of({1.0, 1.0, 5.0, 200.0});
  const int levels = r.of({0, 0, 2, 5});
  auto weight = [&] { return levels ? scale * r.range(0, levels) / levels : scale * r.uni(); };
  for (int a : id) m.v[a] = r.chance(0.4) ? 1.0 : r.uni(-1, 3);
  const int k = r.range(0, 5);
  static const char* names[] = {"random", "dense", "path", "star", "clique", "bipartite"};
  *kind = names[k];
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j) {
      bool e = false;
      switch (k) {
        case 0: e = r.chance(2.0 / n); break;
        case 1: e = r.chance(0.6); break;
        case 2: e = j == i - 1; break;
        case 3: e = j == 0; break;
        case 4: e = true; break;
        case 5: e = i >= n / 3 && j < n / 3 && r.chance(0.6); break;
      }
      if (e) m.e[GraphModel::Key(id[i], id[j])] = weight();
    }
  if (loops)
    for (int a : id) m.e[{a, a}] = r.chance(0.7) ? 1.0 : weight();
  return m;
}
template <typename G>
std::vector<std::pair<int, int>> Fill(Rng& r, const GraphModel& m, G* g) {
  // in random order, repeated edges, either direction
  std::vector<int> vs;
  for (auto& p : m.v) vs.push_back(p.first);
  r.shuffle(vs);
  std::vector<std::pair<int, int>> es;
  for (auto& p : m.e) es.push_back(p.first);
  r.shuffle(es);
  for (int a : vs) g->AddVertex(a);
  for (auto& e : es) {
    if (r.chance(0.5)) std::swap(e.first, e.second);
    g->AddEdge(e.first, e.second);
    if (r.chance(0.2)) g->AddEdge(e.second, e.first);
  }
  return es;
}
void FillWeighted(Rng& r, const GraphModel& m, WeightedGraph<int>* w) {
  for (auto& e : Fill(r, m, w)) w->AddEdge(e.first, e.second, m.Weight(e.first, e.second));
  for (auto& p : m.v) w->AddVertex(p.first, p.second);
}

// The documented greedy: vertices by increasing degree (ties as in the input), white ones first.
template <typename V>
std::vector<V> Greedy(std::vector<V> order, const std::map<V, std::set<V>>& adj, int* size) {
  std::stable_sort(order.begin(), order.end(), [&](const V& a, const V& b) { return adj.at(a).size() < adj.at(b).size(); });
  std::set<V> in;
  std::vector<V> out;
  for (const V& v : order) {
    bool ok = true;
    for (const V& n : adj.at(v)) ok = ok && !in.count(n);
    if (ok) in.insert(v), out.push_back(v);
  }
  *size = out.size();
  for (const V& v : order)
    if (!in.count(v)) out.push_back(v);
  return out;
}

template <typename V>
bool CheckIndependent(Case& c, const std::vector<V>& out, int size, const std::vector<V>& all, const std::map<V, std::set<V>>& adj, const char* what) {
  std::vector<V> a(out), b(all);
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  if (!c.expect(a == b, "ordering-permutation", "%s: not a permutation (%zu of %zu)", what, out.size(), all.size())) return false;
  if (!c.expect(size >= 0 && size <= (int)out.size() && (size > 0 || out.empty()), "independent-size", "%s: %d of %zu", what, size, out.size())) return false;
  std::set<V> in(out.begin(), out.begin() + size);
  for (const V& v : in)
    for (const V& n : adj.at(v))
      if (!c.expect(!in.count(n), "independent-set", "%s: adjacent members", what)) return false;
  for (size_t i = size; i < out.size(); ++i) {
    bool touches = false;
    for (const V& n : adj.at(out[i])) touches = touches || in.count(n);
    if (!c.expect(touches, "independent-maximal", "%s: a vertex without neighbours in the set is left out", what)) return false;
  }
  for (size_t i = 1; i < out.size(); ++i)
    if ((int)i != size && !c.expect(adj.at(out[i - 1]).size() <= adj.at(out[i]).size(), "degree-order", "%s: position %zu", what, i)) return false;
  return true;
}

void Independent(Case& c) {
  auto& r = c.rng;
  std::string kind;
  const GraphModel m = RandomGraph(r, false, &kind);
  Graph<int> g;
  Fill(r, m, &g);
  std::map<int, std::set<int>> adj;
  std::vector<int> all;
  for (auto& p : m.v) adj[p.first] = m.Neighbors(p.first), all.push_back(p.first);
  c.sig(Fmt("%s/%zu/%zu", kind.c_str(), std::min<size_t>(all.size(), 20), std::min<size_t>(m.e.size(), 60)));
  std::vector<int> out{99, 98};
  int size = IndependentSetOrdering(g, &out);
  c.count("independent-sets");
  if (!CheckIndependent(c, out, size, all, adj, "IndependentSetOrdering")) return;
  int want = 0;
  std::vector<int> ref = Greedy(all, adj, &want);
  if (!c.expect(size == want && out == ref, "independent-greedy", "not the documented greedy order (%d, expected %d)", size, want)) return;
  std::vector<int> order(all);
  r.shuffle(order);
  ref = Greedy(order, adj, &want);
  out = order;
  size = StableIndependentSetOrdering(g, &out);
  c.count("independent-sets");
  if (!CheckIndependent(c, out, size, all, adj, "StableIndependentSetOrdering")) return;
  if (!c.expect(size == want && out == ref, "stable-greedy", "not the documented stable greedy order (%d, expected %d)", size, want)) return;
}

struct Union {
  std::map<int, int> p;
  int Find(int a) { while (p[a] != a) a = p[a]; return a; }
};

void Forest(Case& c) {
  auto& r = c.rng;
  std::string kind;
  GraphModel m = RandomGraph(r, r.chance(0.3), &kind);
  if (r.chance(0.1)) for (auto& e : m.e) e.second = -e.second;
  WeightedGraph<int> w;
  FillWeighted(r, m, &w);
  auto f = Degree2MaximumSpanningForest(w);
  c.count("forests");
  std::set<int> vs(f->vertices().begin(), f->vertices().end());
  if (!c.expect(vs.size() == m.v.size(), "forest-vertices", "%zu of %zu", vs.size(), m.v.size())) return;
  std::map<int, int> degree;
  Union u;
  for (auto& p : m.v) {
    if (!c.expect(vs.count(p.first) && f->VertexWeight(p.first) == p.second, "forest-vertices", "%d", p.first)) return;
    u.p[p.first] = p.first;
  }
  std::vector<std::pair<double, std::pair<int, int>>> edges;
  double total = 0;
  for (auto& p : m.v) {
    const auto& n = f->Neighbors(p.first);
    degree[p.first] = n.size();
    if (!c.expect(n.size() <= 2, "forest-degree", "%d has degree %zu", p.first, n.size())) return;
    for (int b : n) {
      if (!c.expect(b != p.first && m.e.count(GraphModel::Key(p.first, b)), "forest-edge", "(%d,%d) is no edge of the graph", p.first, b)) return;
      if (!c.expect(f->Neighbors(b).count(p.first) == 1, "forest-symmetric", "(%d,%d)", p.first, b)) return;
      if (!c.expect(f->EdgeWeight(p.first, b) == m.Weight(p.first, b), "forest-weight", "(%d,%d)", p.first, b)) return;
      if (p.first < b) {
        edges.push_back({m.Weight(p.first, b), {p.first, b}});
        total += m.Weight(p.first, b);
        const int x = u.Find(p.first), y = u.Find(b);
        if (!c.expect(x != y, "forest-cycle", "edge (%d,%d) closes a cycle", p.first, b)) return;
        u.p[x] = y;
      }
    }
  }
  // Nothing can be added, and every edge left out is blocked by edges at least as heavy.
  for (auto& e : m.e) {
    const int a = e.first.first, b = e.first.second;
    if (a == b || f->Neighbors(a).count(b)) continue;
    std::map<int, int> deg;
    Union h;
    for (auto& p : m.v) h.p[p.first] = p.first;
    for (auto& x : edges)
      if (x.first >= e.second) ++deg[x.second.first], ++deg[x.second.second], h.p[h.Find(x.second.first)] = h.Find(x.second.second);
    if (!c.expect(deg[a] == 2 || deg[b] == 2 || h.Find(a) == h.Find(b), "forest-greedy", "edge (%d,%d) of weight %g is left out although nothing heavier blocks it", a, b, e.second)) return;
  }
  c.sig(Fmt("forest/%s/%zu/%zu", kind.c_str(), std::min<size_t>(m.v.size(), 20), std::min<size_t>(edges.size(), 20)));
}

void Linkage(Case& c) {
  auto& r = c.rng;
  std::string kind;
  GraphModel m = RandomGraph(r, r.chance(0.5), &kind);
  WeightedGraph<int> w;
  FillWeighted(r, m, &w);
  SingleLinkageClusteringOptions o;
  std::vector<double> ws{0.0, 0.5, 0.99, 1.0};
  for (auto& e : m.e) ws.push_back(e.second);  // exactly an edge weight
  o.min_similarity = r.chance(0.3) ? r.uni(0, 1) : r.pick(ws);
  absl::flat_hash_map<int, int> membership;
  membership[12345] = 3;
  const int k = ComputeSingleLinkageClustering(o, w, &membership);
  c.count("linkages");
  Union u;
  for (auto& p : m.v) u.p[p.first] = p.first;
  for (auto& e : m.e)
    if (e.second >= o.min_similarity) u.p[u.Find(e.first.first)] = u.Find(e.first.second);
  std::map<int, std::set<int>> want, got;
  for (auto& p : m.v) want[u.Find(p.first)].insert(p.first);
  for (auto& p : membership) got[p.second].insert(p.first);
  std::set<std::set<int>> ws2, gs;
  for (auto& x : want) ws2.insert(x.second);
  for (auto& x : got) {
    gs.insert(x.second);
    if (!c.expect(x.second.count(x.first), "linkage-representative", "cluster %d does not contain itself", x.first)) return;
  }
  c.expect(gs == ws2, "linkage-partition", "%zu clusters, expected %zu (similarity %g)", gs.size(), ws2.size(), o.min_similarity);
  c.expect(k == (int)ws2.size(), "linkage-count", "%d, expected %zu", k, ws2.size());
  c.sig(Fmt("linkage/%s/%zu/%zu", kind.c_str(), std::min<size_t>(m.v.size(), 20), std::min<size_t>(ws2.size(), 20)));
}

void Canonical(Case& c) {
  auto& r = c.rng;
  std::string kind;
  GraphModel m = RandomGraph(r, r.chance(0.8), &kind);
  std::set<int> invalid;
  WeightedGraph<int> w;
  FillWeighted(r, m, &w);
  if (r.chance(0.2))
    for (auto& p : m.v)
      if (r.chance(0.3)) w.AddVertex(p.first, WeightedGraph<int>::InvalidWeight()), invalid.insert(p.first);
  CanonicalViewsClusteringOptions o;
  o.min_views = r.of({0, 1, 3, 100});
  o.size_penalty_weight = r.of({0.0, 0.5, 5.75});
  o.similarity_penalty_weight = r.of({0.0, 0.1, 100.0});
  o.view_score_weight = r.of({0.0, 1.0});
  std::vector<int> centers{7, 7};
  absl::flat_hash_map<int, int> membership;
  membership[54321] = 9;
  ComputeCanonicalViewsClustering(o, w, &centers, &membership);
  c.count("clusterings");
  if (!invalid.empty()) c.count("invalid-views");
  c.sig(Fmt("views/%s/%zu/%zu/%d", kind.c_str(), std::min<size_t>(m.v.size(), 20), std::min<size_t>(centers.size(), 20), o.min_views));
  std::set<int> cs(centers.begin(), centers.end());
  if (!c.expect(cs.size() == centers.size(), "centers-distinct", "%zu of %zu", cs.size(), centers.size())) return;
  for (int v : centers)
    if (!c.expect(m.v.count(v) && !invalid.count(v), "center-valid", "%d is no valid view", v)) return;
  if (!c.expect(membership.size() == m.v.size(), "membership-size", "%zu of %zu", membership.size(), m.v.size())) return;
  // the greedy quality, step by step
  std::map<int, double> best;
  auto gain = [&](int v, size_t upto, double* tol) {
    double d = o.view_score_weight * (o.view_score_weight == 0 ? 0.0 : m.v.at(v)), mag = std::fabs(d);
    for (int n : m.Neighbors(v)) {
      const double old = best.count(n) ? best[n] : 0.0, now = m.Weight(v, n);
      if (now > old) d += now - old, mag += now + old;
    }
    d -= o.size_penalty_weight;
    mag += o.size_penalty_weight;
    for (size_t i = 0; i < upto; ++i) d -= o.similarity_penalty_weight * m.Weight(centers[i], v), mag += o.similarity_penalty_weight * std::fabs(m.Weight(centers[i], v));
    *tol = 1e-13 * (1 + mag);
    return d;
  };
  for (size_t i = 0; i <= centers.size(); ++i) {
    double top = -1e300, ttol = 0;
    for (auto& p : m.v) {
      if (invalid.count(p.first) || std::find(centers.begin(), centers.begin() + i, p.first) != centers.begin() + i) continue;
      double tol;
      const double g = gain(p.first, i, &tol);
      if (g > top) top = g, ttol = tol;
    }
    if (i == centers.size()) {
      if (top > -1e300) c.expect((int)i >= o.min_views && top <= ttol, "views-stop", "stopped after %zu centers although the best of the rest gains %g (minimum %d)", i, top, o.min_views);
      break;
    }
    double tol;
    const double g = gain(centers[i], i, &tol);
    if (!c.expect(g >= top - tol - ttol, "views-best", "center %zu gains %g, the best %g", i, g, top)) return;
    if (!c.expect((int)i < o.min_views || g > -tol, "views-gain", "center %zu gains %g beyond the minimum %d", i, g, o.min_views)) return;
    for (int n : m.Neighbors(centers[i]))
      if (m.Weight(centers[i], n) > (best.count(n) ? best[n] : 0.0)) best[n] = m.Weight(centers[i], n);
  }
  for (auto& p : m.v) {
    auto it = membership.find(p.first);
    if (!c.expect(it != membership.end() && it->second >= -1 && it->second < (int)centers.size(), "membership", "vertex %d", p.first)) return;
    if (it->second < 0) {
      if (!c.expect(!best.count(p.first), "membership-none", "vertex %d has a similar center but no cluster", p.first)) return;
    } else {
      const double s = m.Weight(p.first, centers[it->second]);
      if (!c.expect(best.count(p.first) && s == best[p.first], "membership-best", "vertex %d is with a center of similarity %g, the best %g", p.first, s, best.count(p.first) ? best[p.first] : 0.0)) return;
    }
  }
}

// ------------------------------------------------------------------ visibility
void Visibility(Case& c) {
  auto& r = c.rng;
  const int ne = r.range(0, 10), nf = r.range(1, 8);
  CompressedRowBlockStructure bs;
  int pos = 0;
  for (int i = 0; i < ne + nf; ++i) {
    const int size = r.range(1, 3);
    bs.cols.emplace_back(size, pos);
    pos += size;
  }
  std::vector<std::set<int>> seen(nf);
  std::vector<int> e_of;
  const int rows = r.range(0, 30);
  for (int i = 0; i < rows; ++i) e_of.push_back(ne && r.chance(0.8) ? r.range(0, ne - 1) : ne);
  if (r.chance(0.7)) std::sort(e_of.begin(), e_of.end());
  pos = 0;
  for (int e : e_of) {
    bs.rows.emplace_back();
    auto& row = bs.rows.back();
    row.block.size = 1;
    row.block.position = pos++;
    if (e < ne) row.cells.emplace_back(e, 0);
    std::set<int> fs;
    for (int k = r.range(e < ne ? 0 : 1, 3); k > 0; --k) fs.insert(r.range(0, nf - 1));
    for (int f : fs) {
      row.cells.emplace_back(ne + f, 0);
      if (e < ne) seen[f].insert(e);
    }
  }
  std::vector<absl::btree_set<int>> vis(3);
  vis[0].insert(5);
  ComputeVisibility(bs, ne, &vis);
  c.count("visibilities");
  if (!c.expect((int)vis.size() == nf, "visibility-size", "%zu, expected %d", vis.size(), nf)) return;
  for (int f = 0; f < nf; ++f)
    if (!c.expect(std::set<int>(vis[f].begin(), vis[f].end()) == seen[f], "visibility", "of %d", f)) return;
  auto g = CreateSchurComplementGraph(vis);
  GraphModel m;
  for (int f = 0; f < nf; ++f) {
    m.v[f] = 1;
    m.e[{f, f}] = 1;
    for (int h = 0; h < f; ++h) {
      int both = 0;
      for (int e : seen[f]) both += seen[h].count(e);
      if (both) m.e[{h, f}] = both / std::sqrt((double)(seen[f].size() * seen[h].size()));
    }
  }
  if (!SameGraph(c, *g, m, "CreateSchurComplementGraph")) return;
  for (auto& e : m.e)
    if (!c.expect(Near(g->EdgeWeight(e.first.first, e.first.second), e.second, 1e-14), "visibility-weight", "(%d,%d) %g, expected %g", e.first.first, e.first.second, g->EdgeWeight(e.first.first, e.first.second), e.second)) return;
  for (auto& p : m.v)
    if (!c.expect(g->VertexWeight(p.first) == 1, "visibility-weight", "vertex %d", p.first)) return;
  c.sig(Fmt("vis%d/%d/%zu", ne, nf, std::min<size_t>(m.e.size(), 30)));
}

// ------------------------------------------------------------------ programs
struct Prog {
  Model m;
  std::unique_ptr<Problem> prob;
  ProblemImpl* impl = nullptr;
  Program* program = nullptr;
  std::map<double*, int> pb_of;
  std::map<ceres::ResidualBlockId, int> rb_of;
  void Build(Rng& r, const ModelOptions& o) {
    m.Init(r, o);
    prob = std::make_unique<Problem>(Model::NoOwn());
    m.AddTo(prob.get());
    impl = prob->mutable_impl();
    program = impl->mutable_program();
    for (size_t i = 0; i < m.pbs.size(); ++i) pb_of[m.pbs[i].x.get()] = i;
    for (size_t i = 0; i < m.rbs.size(); ++i) rb_of[m.rbs[i].id] = i;
  }
  std::vector<int> Pbs(const Program& p) const {
    std::vector<int> v;
    for (auto* b : p.parameter_blocks()) v.push_back(pb_of.at(b->mutable_user_state()));
    return v;
  }
  std::vector<int> Rbs(const Program& p) const {
    std::vector<int> v;
    for (auto* b : p.residual_blocks()) v.push_back(rb_of.at(b));
    return v;
  }
  bool Varies(int rb) const {
    for (int k : m.rbs[rb].pbs)
      if (!m.pbs[k].Fixed()) return true;
    return false;
  }
};

ModelOptions RandomModel(Rng& r) {
  ModelOptions o;
  o.max_pb = r.chance(0.15) ? 30 : 9;
  o.max_rb = r.chance(0.15) ? 60 : 14;
  o.schur = r.chance(0.5);
  o.p_const = r.of({0.0, 0.15, 0.5});
  o.p_isolated = 0.2;
  return o;
}

bool IndexOk(Case& c, const Program& p, const char* what) {
  int so = 0, d = 0;
  const auto& v = p.parameter_blocks();
  for (size_t i = 0; i < v.size(); ++i) {
    if (!c.expect(v[i]->index() == (int)i && v[i]->state_offset() == so && v[i]->delta_offset() == d, "program-index", "%s: block %zu has index %d offsets %d, %d, expected %d, %d", what, i, v[i]->index(), v[i]->state_offset(), v[i]->delta_offset(), so, d)) return false;
    so += v[i]->Size();
    d += v[i]->TangentSize();
  }
  return c.expect(p.NumParameters() == so && p.NumEffectiveParameters() == d, "program-size", "%s", what);
}

// The cost and the gradient of each block, whatever the order.
bool Evaluates(Case& c, const Prog& q, Program* p, long double fixed, ContextImpl* context, const char* what) {
  if (p->NumResidualBlocks() == 0) return true;
  Evaluator::Options eo;
  eo.linear_solver_type = ceres::DENSE_QR;
  eo.num_threads = 1;
  eo.context = context;
  std::string error;
  auto ev = Evaluator::Create(eo, p, &error);
  if (!c.expect(ev != nullptr, "evaluator", "%s", error.c_str())) return false;
  std::vector<double> state(p->NumParameters()), grad(p->NumEffectiveParameters());
  p->ParameterBlocksToStateVector(state.data());
  double cost = -1;
  if (!c.expect(ev->Evaluate(state.data(), &cost, nullptr, grad.data(), nullptr), "evaluate", "%s", what)) return false;
  double mag = 1;
  const double want = q.m.Cost(q.m.Get(), true, &mag);
  c.count("evaluations");
  bool ok = c.expect(Near(cost + (double)fixed, want, 1e-12 * mag), "program-cost", "%s: %.17g + %.17g, expected %.17g", what, cost, (double)fixed, want);
  const auto g = q.m.Gradient(q.m.Get());
  double gm = 1;
  for (auto& x : g) gm = std::max(gm, x.size() ? x.cwiseAbs().maxCoeff() : 0.0);
  for (auto* b : p->parameter_blocks()) {
    const int k = q.pb_of.at(b->mutable_user_state());
    for (int i = 0; i < b->TangentSize() && ok; ++i)
      ok = c.expect(Near(grad[b->delta_offset() + i], g[k][i], 1e-9 * (gm + mag)), "program-gradient", "%s: block %d[%d] %.17g, expected %.17g", what, k, i, grad[b->delta_offset() + i], g[k][i]);
  }
  p->SetParameterBlockStatePtrsToUserStatePtrs();
  return ok;
}

// Reduces; empty if something is wrong or nothing is left.
std::unique_ptr<Program> Reduce(Case& c, Prog& q, long double* fixed_out) {
  std::vector<double*> removed{nullptr};
  double fixed = -7;
  std::string error;
  auto reduced = q.program->CreateReducedProgram(&removed, &fixed, &error);
  if (!c.expect(reduced != nullptr, "reduce-failed", "%s", error.c_str())) return nullptr;
  c.count("reductions");
  std::vector<int> rows, cols, gone;
  std::set<int> used;
  long double want = 0;
  double mag = 1;
  for (size_t i = 0; i < q.m.rbs.size(); ++i)
    if (q.Varies(i)) {
      rows.push_back(i);
      for (int k : q.m.rbs[i].pbs)
        if (!q.m.pbs[k].Fixed()) used.insert(k);
    } else {
      const auto e = q.m.EvalBlock(q.m.rbs[i], q.m.Get());
      want += e.cost;
      mag += std::fabs(e.cost) + e.mag;
      c.count("fixed-residuals");
    }
  for (size_t i = 0; i < q.m.pbs.size(); ++i) (used.count(i) ? cols : gone).push_back(i);
  if (!c.expect(q.Rbs(*reduced) == rows, "reduced-residuals", "%d residual blocks, expected %zu", reduced->NumResidualBlocks(), rows.size())) return nullptr;
  if (!c.expect(q.Pbs(*reduced) == cols, "reduced-parameters", "%d parameter blocks, expected %zu", reduced->NumParameterBlocks(), cols.size())) return nullptr;
  std::vector<int> rem;
  for (double* x : removed) rem.push_back(q.pb_of.at(x));
  std::sort(rem.begin(), rem.end());
  if (!c.expect(rem == gone, "removed-blocks", "%zu removed, expected %zu", rem.size(), gone.size())) return nullptr;
  if (!c.expect(Near(fixed, (double)want, 1e-12 * mag), "fixed-cost", "%.17g, expected %.17g", fixed, (double)want)) return nullptr;
  // the program it was made from still has everything
  if (!c.expect(q.program->NumParameterBlocks() == (int)q.m.pbs.size() && q.program->NumResidualBlocks() == (int)q.m.rbs.size(), "reduce-original", "the original program changed")) return nullptr;
  if (!IndexOk(c, *reduced, "CreateReducedProgram")) return nullptr;
  *fixed_out = want;
  if (rows.empty()) {
    c.count("nothing-left");
    return nullptr;
  }
  return reduced;
}

void Reduction(Case& c) {
  auto& r = c.rng;
  Prog q;
  q.Build(r, RandomModel(r));
  c.note("%s", q.m.Describe().c_str());
  ContextImpl context;
  const Model::State before = q.m.Get();
  if (r.chance(0.3)) {
    // a constant residual that cannot be evaluated
    std::vector<int> cand;
    for (size_t i = 0; i < q.m.rbs.size(); ++i)
      if (!q.Varies(i)) cand.push_back(i);
    if (!cand.empty()) {
      const int k = r.pick(cand);
      q.m.rbs[k].smooth->fail = 1;
      std::vector<double*> removed;
      double fixed = 0;
      std::string error;
      auto p = q.program->CreateReducedProgram(&removed, &fixed, &error);
      c.expect(p == nullptr && error.find(Fmt("residual %d ", k)) != std::string::npos, "reduce-fault", "a failing constant residual %d: '%s'", k, error.c_str());
      c.count("faults");
      q.m.rbs[k].smooth->fail = 0;
      q.program->SetParameterOffsetsAndIndex();
    }
  }
  long double fixed = 0;
  auto reduced = Reduce(c, q, &fixed);
  if (!reduced) return;
  c.sig(Fmt("reduce/%d/%d/%zu", std::min(reduced->NumParameterBlocks(), 12), std::min(reduced->NumResidualBlocks(), 12), std::min<size_t>(q.m.pbs.size(), 12)));
  if (!Evaluates(c, q, reduced.get(), fixed, &context, "reduced")) return;
  c.expect(q.m.Get() == before, "reduce-state", "the user's parameters changed");
  // block sparsity
  const int start = r.chance(0.5) ? 0 : r.range(0, reduced->NumResidualBlocks());
  auto t = reduced->CreateJacobianBlockSparsityTranspose(start);
  std::multiset<std::pair<int, int>> got, want;
  for (int i = 0; i < t->num_nonzeros(); ++i) {
    got.insert({t->rows()[i], t->cols()[i]});
    if (!c.expect(t->values()[i] == 1.0, "sparsity-value", "%g", t->values()[i])) return;
  }
  const auto pbs = q.Pbs(*reduced);
  const auto rbs = q.Rbs(*reduced);
  for (size_t j = start; j < rbs.size(); ++j)
    for (int k : q.m.rbs[rbs[j]].pbs)
      if (!q.m.pbs[k].Fixed()) want.insert({(int)(std::find(pbs.begin(), pbs.end(), k) - pbs.begin()), (int)j - start});
  c.expect(t->num_rows() == (int)pbs.size() && t->num_cols() == (int)rbs.size() - start && got == want, "block-sparsity", "%zu entries, expected %zu", got.size(), want.size());
  c.count("sparsities");
}

// Adjacency of varying blocks, in the program.
std::map<int, std::set<int>> Adj(const Prog& q, const std::vector<int>& rbs, const std::vector<int>& pbs) {
  std::map<int, std::set<int>> a;
  for (int k : pbs)
    if (!q.m.pbs[k].Fixed()) a[k];
  for (int i : rbs)
    for (int x : q.m.rbs[i].pbs)
      for (int y : q.m.rbs[i].pbs)
        if (x != y && !q.m.pbs[x].Fixed() && !q.m.pbs[y].Fixed()) a[x].insert(y);
  return a;
}
std::vector<int> ToInts(const Prog& q, const std::vector<ParameterBlock*>& v) {
  std::vector<int> o;
  for (auto* b : v) o.push_back(q.pb_of.at(b->mutable_user_state()));
  return o;
}
std::vector<int> Sorted(std::vector<int> v) {
  std::sort(v.begin(), v.end());
  return v;
}

// Hessian graph and Schur orderings on whole and reduced programs.
void SchurOrderings(Case& c) {
  auto& r = c.rng;
  Prog q;
  q.Build(r, RandomModel(r));
  c.note("%s", q.m.Describe().c_str());
  std::unique_ptr<Program> reduced;
  Program* p = q.program;
  p->SetParameterOffsetsAndIndex();
  if (r.chance(0.6)) {
    long double fixed;
    reduced = Reduce(c, q, &fixed);
    if (!reduced) return;
    p = reduced.get();
  }
  const auto pbs = q.Pbs(*p), rbs = q.Rbs(*p);
  const auto adj = Adj(q, rbs, pbs);
  auto g = CreateHessianGraph(*p);
  std::map<int, std::set<int>> got;
  for (auto* v : g->vertices()) {
    auto& s = got[q.pb_of.at(v->mutable_user_state())];
    for (auto* n : g->Neighbors(v)) s.insert(q.pb_of.at(n->mutable_user_state()));
  }
  if (!c.expect(got == adj, "hessian-graph", "differs")) return;
  std::vector<int> vary, fixed_last;
  for (int k : pbs) (q.m.pbs[k].Fixed() ? fixed_last : vary).push_back(k);
  std::vector<ParameterBlock*> out;
  int size = ComputeStableSchurOrdering(*p, &out);
  c.count("schur-orderings");
  std::vector<int> o = ToInts(q, out);
  if (!c.expect(Sorted(o) == Sorted(pbs), "schur-permutation", "stable: not a permutation")) return;
  std::vector<int> head(o.begin(), o.begin() + vary.size()), tail(o.begin() + vary.size(), o.end());
  if (!c.expect(tail == fixed_last, "schur-constant", "the constant blocks are not last")) return;
  if (!CheckIndependent(c, head, size, vary, adj, "ComputeStableSchurOrdering")) return;
  int want;
  if (!c.expect(head == Greedy(vary, adj, &want) && size == want, "schur-stable", "not stable")) return;
  size = ComputeSchurOrdering(*p, &out);
  o = ToInts(q, out);
  if (!c.expect(Sorted(o) == Sorted(pbs), "schur-permutation", "not a permutation")) return;
  head.assign(o.begin(), o.begin() + vary.size());
  tail.assign(o.begin() + vary.size(), o.end());
  if (!c.expect(tail == fixed_last, "schur-constant", "the constant blocks are not last")) return;
  if (!CheckIndependent(c, head, size, vary, adj, "ComputeSchurOrdering")) return;
  c.sig(Fmt("schur/%zu/%d/%zu", std::min<size_t>(pbs.size(), 20), std::min(size, 15), fixed_last.size()));
  if (!reduced) return;
  // recursive decomposition and the inner iteration ordering
  ParameterBlockOrdering rec;
  rec.AddElementToGroup(q.m.pbs[0].x.get(), 3);
  ComputeRecursiveIndependentSetOrdering(*p, &rec);
  auto inner = CoordinateDescentMinimizer::CreateOrdering(*p);
  c.count("inner-orderings");
  for (int which = 0; which < 2; ++which) {
    const ParameterBlockOrdering& x = which ? *inner : rec;
    const char* name = which ? "CreateOrdering" : "ComputeRecursiveIndependentSetOrdering";
    if (!c.expect(x.NumElements() == (int)pbs.size(), "recursive-cover", "%s: %d of %zu blocks", name, x.NumElements(), pbs.size())) return;
    std::vector<std::set<int>> gs;
    for (auto& e : x.group_to_elements()) {
      gs.emplace_back();
      for (double* d : e.second) gs.back().insert(q.pb_of.at(d));
    }
    if (which) std::reverse(gs.begin(), gs.end());
    std::set<int> done;
    for (auto& s : gs) {
      for (int a : s)
        for (int b : adj.at(a)) {
          if (!c.expect(!s.count(b), "recursive-independent", "%s: %d and %d share a residual", name, a, b)) return;
        }
      done.insert(s.begin(), s.end());
      // maximal in what was left
      for (int k : pbs) {
        if (done.count(k)) continue;
        bool touches = false;
        for (int b : adj.at(k)) touches = touches || s.count(b);
        if (!c.expect(touches, "recursive-maximal", "%s: block %d could join an earlier group", name, k)) return;
      }
    }
    std::string message;
    if (!c.expect(CoordinateDescentMinimizer::IsOrderingValid(*p, x, &message), "inner-valid", "%s: %s", name, message.c_str())) return;
  }
  // validity of random groupings
  ParameterBlockOrdering any;
  std::map<int, std::vector<int>> groups;
  const int ng = r.range(1, 4);
  for (int k : pbs)
    if (r.chance(0.5)) {
      const int gr = r.range(0, ng);
      any.AddElementToGroup(q.m.pbs[k].x.get(), gr);
      groups[gr].push_back(k);
    }
  bool valid = true;
  for (auto& e : groups) {
    bool ok = true;
    std::set<double*> set;
    for (int a : e.second) {
      set.insert(q.m.pbs[a].x.get());
      for (int b : e.second) ok = ok && !adj.at(a).count(b);
    }
    if (!c.expect(p->IsParameterBlockSetIndependent(set) == ok, "independence", "group of %zu: expected %d", set.size(), ok)) return;
    valid = valid && ok;
  }
  std::string message;
  const bool got_valid = CoordinateDescentMinimizer::IsOrderingValid(*p, any, &message);
  c.count(valid ? "valid-groupings" : "invalid-groupings");
  c.expect(got_valid == valid && (valid || !message.empty()), "grouping-valid", "%d, expected %d: '%s'", got_valid, valid, message.c_str());
  std::vector<int> sizes{1, 2}, want_sizes;
  OrderingToGroupSizes(&any, &sizes);
  for (auto& e : groups) want_sizes.push_back(e.second.size());
  c.expect(sizes == want_sizes, "group-sizes", "%zu groups", sizes.size());
  OrderingToGroupSizes(nullptr, &sizes);
  c.expect(sizes.empty(), "group-sizes", "without an ordering");
}

void Reorder(Case& c) {
  auto& r = c.rng;
  Prog q;
  ModelOptions mo = RandomModel(r);
  q.Build(r, mo);
  c.note("%s", q.m.Describe().c_str());
  ContextImpl context;
  long double fixed = 0;
  auto p = Reduce(c, q, &fixed);
  if (!p) return;
  const auto pbs = q.Pbs(*p), rbs = q.Rbs(*p);
  const auto adj = Adj(q, rbs, pbs);
  const Model::State before = q.m.Get();
  std::string error;
  const auto& map = q.impl->parameter_map();
  const int what = r.range(0, 4);
  static const char* names[] = {"ApplyOrdering", "schur", "cholesky", "partition", "lexicographic"};
  c.count(Fmt("reorder-%s", names[what]).c_str());
  c.sig(Fmt("%s/%zu/%zu", names[what], std::min<size_t>(pbs.size(), 20), std::min<size_t>(rbs.size(), 20)));
  auto after_set = [&](const char* name, bool residuals_same) {
    if (!c.expect(Sorted(q.Pbs(*p)) == Sorted(pbs), "reorder-parameters", "%s: the set of parameter blocks changed", name)) return false;
    if (!c.expect(residuals_same ? q.Rbs(*p) == rbs : Sorted(q.Rbs(*p)) == Sorted(rbs), "reorder-residuals", "%s: the set of residual blocks changed", name)) return false;
    return true;
  };
  // Are the residual blocks with their first e block in its order, the others last?
  auto lexicographic = [&](int num_e, const char* name) {
    const auto now = q.Pbs(*p);
    int last = -1;
    for (int i : q.Rbs(*p)) {
      int pos = num_e;
      for (int k : q.m.rbs[i].pbs) {
        const int at = std::find(now.begin(), now.end(), k) - now.begin();
        if (at < (int)now.size()) pos = std::min(pos, at);
      }
      if (!c.expect(pos >= last, "lexicographic", "%s: block %d after %d", name, pos, last)) return false;
      last = pos;
    }
    return true;
  };
  if (what == 0) {
    ParameterBlockOrdering o;
    std::map<int, std::vector<int>> groups;
    for (int k : pbs) {
      const int g = r.range(0, 3) * 2 + 1;
      groups[g].push_back(k);
      o.AddElementToGroup(q.m.pbs[k].x.get(), g);
    }
    double alien = 0;
    const int bad = r.range(0, 4);
    if (bad == 1) o.Remove(q.m.pbs[pbs[0]].x.get());
    if (bad == 2) o.Remove(q.m.pbs[pbs[0]].x.get()), o.AddElementToGroup(&alien, 2);
    if (bad == 3) o.AddElementToGroup(&alien, 2);
    const bool ok = ApplyOrdering(map, o, p.get(), &error);
    if (!c.expect(ok == (bad == 0 || bad == 4) && (ok || !error.empty()), "apply-ordering", "case %d: %d '%s'", bad, ok, error.c_str())) return;
    if (!ok) {
      c.count("refused");
      c.expect(q.Pbs(*p) == pbs, "apply-refused", "a refused ordering changed the program");
      return;
    }
    std::vector<int> want;
    for (auto& g : groups) want.insert(want.end(), g.second.begin(), g.second.end());
    if (!c.expect(q.Pbs(*p) == want, "apply-order", "groups or the order in them are wrong")) return;
    p->SetParameterOffsetsAndIndex();
    if (!after_set("ApplyOrdering", true)) return;
  } else if (what == 1) {
    ParameterBlockOrdering o;
    const int kind = r.range(0, 4);  // 0 one group, 1-2 good, 3 dependent first group, 4 wrong size
    std::set<int> first;
    if (kind == 0) {
      const int g = r.range(0, 5);
      for (int k : pbs) o.AddElementToGroup(q.m.pbs[k].x.get(), g);
    } else {
      std::vector<int> order(pbs);
      r.shuffle(order);
      for (int k : order) {
        bool ok = r.chance(0.8) || first.empty();
        for (int n : adj.at(k)) ok = ok && !first.count(n);
        if (ok) first.insert(k);
      }
      if (kind == 3)
        for (int k : order)
          if (!first.count(k)) {
            first.insert(k);
            break;
          }
      for (int k : pbs) o.AddElementToGroup(q.m.pbs[k].x.get(), first.count(k) ? 2 : 3 + r.range(0, 2));
      if (kind == 4) o.Remove(q.m.pbs[r.pick(pbs)].x.get());
    }
    bool dependent = false;
    for (int a : first)
      for (int b : adj.at(a)) dependent = dependent || first.count(b);
    const bool one = o.NumGroups() == 1 && o.NumElements() == (int)pbs.size();
    const bool good = one || (o.NumElements() == (int)pbs.size() && !dependent);
    const ceres::LinearSolverType t = r.of({ceres::DENSE_SCHUR, ceres::SPARSE_SCHUR, ceres::ITERATIVE_SCHUR});
    const ceres::LinearSolverOrderingType ot = r.of({ceres::AMD, ceres::NESDIS});
    const ParameterBlockOrdering given = o;
    const bool ok = ReorderProgramForSchurTypeLinearSolver(t, ceres::EIGEN_SPARSE, ot, map, &o, p.get(), &error);
    if (!c.expect(ok == good && (ok || !error.empty()), "schur-reorder", "kind %d: %d '%s'", kind, ok, error.c_str())) return;
    if (!ok) {
      c.count("refused");
      c.expect(q.Pbs(*p) == pbs && q.Rbs(*p) == rbs, "schur-refused", "a refused ordering changed the program");
      return;
    }
    if (!after_set("ReorderProgramForSchurTypeLinearSolver", false)) return;
    const auto now = q.Pbs(*p);
    const int num_e = o.GroupSize(o.MinNonZeroGroup());
    std::set<int> es(now.begin(), now.begin() + num_e), group;
    for (double* x : o.group_to_elements().begin()->second) group.insert(q.pb_of.at(x));
    if (!c.expect(es == group, "schur-first", "the first group is not first")) return;
    if (one) {
      for (int k : pbs) {
        bool touches = es.count(k);
        for (int n : adj.at(k)) {
          touches = touches || es.count(n);
          if (!c.expect(!(es.count(k) && es.count(n)), "schur-first-independent", "blocks %d and %d", k, n)) return;
        }
        if (!c.expect(touches, "schur-first-maximal", "block %d", k)) return;
      }
      if (!c.expect(o.NumElements() == (int)pbs.size() && o.NumGroups() <= 2, "schur-groups", "%d groups", o.NumGroups())) return;
      c.count("automatic");
    } else {
      if (!c.expect(o.group_to_elements() == given.group_to_elements(), "schur-groups", "the user's groups changed")) return;
      if (!c.expect(group == first, "schur-first", "not the user's first group")) return;
      // groups stay in order except where the Schur complement is reordered for fill
      if (t != ceres::SPARSE_SCHUR) {
        int last = -1;
        for (int k : now) {
          const int g = given.GroupId(q.m.pbs[k].x.get());
          if (!c.expect(g >= last, "schur-group-order", "group %d after %d", g, last)) return;
          last = g;
        }
      }
    }
    if (!lexicographic(num_e, "schur")) return;
  } else if (what == 2) {
    ParameterBlockOrdering o;
    for (int k : pbs) o.AddElementToGroup(q.m.pbs[k].x.get(), r.range(0, 3));
    const bool bad = r.chance(0.2);
    if (bad) o.Remove(q.m.pbs[r.pick(pbs)].x.get());
    const int start = r.chance(0.5) ? 0 : r.range(0, (int)rbs.size() - 1);
    const bool ok = ReorderProgramForSparseCholesky(ceres::EIGEN_SPARSE, r.of({ceres::AMD, ceres::NESDIS}), o, start, p.get(), &error);
    if (!c.expect(ok == !bad && (ok || !error.empty()), "cholesky-reorder", "%d '%s'", ok, error.c_str())) return;
    if (!ok) {
      c.count("refused");
      c.expect(q.Pbs(*p) == pbs, "cholesky-refused", "a refused ordering changed the program");
      return;
    }
    if (!after_set("ReorderProgramForSparseCholesky", true)) return;
  } else if (what == 3) {
    std::unordered_set<ceres::ResidualBlockId> bottom;
    std::set<int> bs;
    for (int i : rbs)
      if (r.chance(0.4)) bottom.insert(q.m.rbs[i].id), bs.insert(i);
    const int cut = ReorderResidualBlocksByPartition(bottom, p.get());
    if (!after_set("ReorderResidualBlocksByPartition", false)) return;
    const auto now = q.Rbs(*p);
    if (!c.expect(cut == (int)(rbs.size() - bs.size()), "partition-cut", "%d, expected %zu", cut, rbs.size() - bs.size())) return;
    for (size_t i = 0; i < now.size(); ++i)
      if (!c.expect(bs.count(now[i]) == ((int)i >= cut), "partition", "position %zu", i)) return;
  } else {
    // move an independent set to the front
    std::vector<int> order(pbs);
    r.shuffle(order);
    std::set<int> first;
    for (int k : order) {
      bool ok = r.chance(0.8) || first.empty();
      for (int n : adj.at(k)) ok = ok && !first.count(n);
      if (ok) first.insert(k);
    }
    std::vector<ParameterBlock*> e, f;
    for (auto* b : p->parameter_blocks()) (first.count(q.pb_of.at(b->mutable_user_state())) ? e : f).push_back(b);
    const int num_e = e.size();
    e.insert(e.end(), f.begin(), f.end());
    *p->mutable_parameter_blocks() = e;
    r.shuffle(*p->mutable_residual_blocks());
    p->SetParameterOffsetsAndIndex();
    if (!c.expect(LexicographicallyOrderResidualBlocks(num_e, p.get(), &error), "lexicographic-failed", "%s", error.c_str())) return;
    if (!after_set("LexicographicallyOrderResidualBlocks", false)) return;
    if (!lexicographic(num_e, "LexicographicallyOrderResidualBlocks")) return;
  }
  if (!IndexOk(c, *p, names[what])) return;
  if (!Evaluates(c, q, p.get(), fixed, &context, names[what])) return;
  c.expect(q.m.Get() == before, "reorder-state", "the user's parameters changed");
}

// Coordinate descent over the ordering's blocks: never uphill, only those blocks move.
void Descent(Case& c) {
  auto& r = c.rng;
  Prog q;
  ModelOptions mo = RandomModel(r);
  mo.max_pb = 8;
  mo.max_rb = 14;
  mo.regular = r.chance(0.5);
  q.Build(r, mo);
  c.note("%s", q.m.Describe().c_str());
  long double fixed = 0;
  auto p = Reduce(c, q, &fixed);
  if (!p) return;
  ContextImpl context;
  const int threads = r.of({1, 1, 2, 4});
  context.EnsureMinimumThreads(threads);
  const auto pbs = q.Pbs(*p), rbs = q.Rbs(*p);
  const auto adj = Adj(q, rbs, pbs);
  std::shared_ptr<ParameterBlockOrdering> o;
  if (r.chance(0.4)) {
    o = CoordinateDescentMinimizer::CreateOrdering(*p);
  } else {
    auto full = RandomInnerOrdering(r, q.m);
    o = std::make_shared<ParameterBlockOrdering>();
    if (full)
      for (auto& e : full->element_to_group())
        if (std::count(pbs.begin(), pbs.end(), q.pb_of.at(e.first))) o->AddElementToGroup(e.first, e.second);
  }
  CoordinateDescentMinimizer cd(&context);
  std::string error;
  if (!c.expect(cd.Init(*p, q.impl->parameter_map(), *o, &error), "descent-init", "%s", error.c_str())) return;
  const Model::State before = q.m.Get();
  std::vector<double> x(p->NumParameters());
  p->ParameterBlocksToStateVector(x.data());
  Minimizer::Options opts;
  opts.num_threads = threads;
  ceres::Solver::Summary summary;
  const int reps = r.range(1, 2);
  double mag0 = 1;
  double cost = q.m.Cost(before, true, &mag0);
  for (int rep = 0; rep < reps; ++rep) {
    std::vector<double> start(x);
    cd.Minimize(opts, x.data(), &summary);
    c.count("descents");
    if (!c.expect(q.m.Get() == before, "descent-state", "the user's parameters changed")) return;
    Model::State now = before;
    size_t at = 0;
    bool moved = false;
    for (int k : pbs) {
      const bool in = o->IsMember(q.m.pbs[k].x.get());
      for (int i = 0; i < q.m.pbs[k].size; ++i, ++at) {
        now[k][i] = x[at];
        if (!c.expect(std::isfinite(x[at]), "descent-finite", "block %d", k)) return;
        if (!in && !c.expect(Bits(x[at], start[at]), "descent-held", "block %d is not in the ordering but moved", k)) return;
        moved = moved || x[at] != start[at];
      }
    }
    if (moved) c.count("moved");
    double mag = 1;
    const double next = q.m.Cost(now, true, &mag);
    if (!c.expect(next <= cost + 1e-11 * (mag + mag0), "descent-uphill", "%.17g after %.17g", next, cost)) return;
    // every block varies again and its place in the program is as before
    for (auto* b : p->parameter_blocks())
      if (!c.expect(!b->IsConstant(), "descent-constant", "a block was left constant")) return;
    if (!IndexOk(c, *p, "Minimize")) return;
    // with a regular model the last group ends at a conditional stationary point
    if (mo.regular && o->NumElements() && moved) {
      const auto g = q.m.Gradient(now);
      double gm = 1;
      for (auto& v : q.m.Gradient(before)) gm = std::max(gm, v.size() ? v.cwiseAbs().maxCoeff() : 0.0);
      for (double* d : o->group_to_elements().rbegin()->second) {
        const int k = q.pb_of.at(d);
        const double gk = g[k].size() ? g[k].cwiseAbs().maxCoeff() : 0.0;
        c.count("stationary");
        if (!c.expect(gk <= 0.1 * gm, "descent-stationary", "block %d has gradient %g after inner iterations (%g at the start)", k, gk, gm)) return;
      }
    }
    cost = next;
    mag0 = mag;
  }
  c.sig(Fmt("descent/%d/%zu/%d/%d", threads, pbs.size(), o->NumGroups(), o->NumElements()));
  p->SetParameterBlockStatePtrsToUserStatePtrs();
}

}  // namespace

VH_MAIN({"groups", Groups, 3000}, {"graphs", Graphs, 3000}, {"independent", Independent, 3000}, {"forest", Forest, 3000}, {"linkage", Linkage, 3000},
        {"canonical", Canonical, 3000}, {"visibility", Visibility, 2000}, {"reduction", Reduction, 2000}, {"schur-orderings", SchurOrderings, 2000},
        {"reorder", Reorder, 4000}, {"descent", Descent, 600})
