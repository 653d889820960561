// build: {"libs": ["ir"]}
// C70: graphs, symmetric matrices and disjoint sets behave like their mathematical models.
#include "pbt.hpp"
#include "datastructures/DirectedAcyclicGraph.hpp"
#include "datastructures/DirectedGraph.hpp"
#include "datastructures/DisjointSet.hpp"
#include "datastructures/SymmetricMatrix.hpp"
#include "datastructures/UndirectedGraph.hpp"
#include <map>
#include <set>
using namespace pbt;

namespace {
template <class V> V mk(uint64_t i);
template <> int mk<int>(uint64_t i) { return static_cast<int>(i * 7) - 20; }
template <> std::string mk<std::string>(uint64_t i) { return "v" + std::to_string(i); }
template <> uint32_t mk<uint32_t>(uint64_t i) { return static_cast<uint32_t>(i); }

template <class F> bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }

// the vertices and edges listed by a DOT export
struct Dot { std::map<std::string, std::string> label; std::multiset<std::pair<std::string, std::string>> edges; };
Dot parseDot(const std::string& t, const std::string& arrow) {
  Dot d;
  std::istringstream is(t);
  for (std::string line; std::getline(is, line);) {
    auto l = line.find("[label=\""), a = line.find(arrow);
    if (l != std::string::npos) {
      auto e = line.find("\"]", l);
      auto id = line.substr(2, l - 3);
      require(d.label.emplace(id, line.substr(l + 8, e - l - 8)).second, "vertex listed twice in the DOT export: " + t);
    } else if (a != std::string::npos) d.edges.emplace(line.substr(2, a - 3), line.substr(a + arrow.size() + 1, line.find(';') - a - arrow.size() - 1));
  }
  return d;
}
template <class V> std::string str(const V& v) { std::ostringstream o; o << v; return o.str(); }

struct Model { // vertices in insertion order, directed edges
  std::vector<uint64_t> vs;
  std::set<std::pair<uint64_t, uint64_t>> es;
  bool has(uint64_t v) const { return std::find(vs.begin(), vs.end(), v) != vs.end(); }
  void add(uint64_t v) { if (!has(v)) vs.push_back(v); }
  bool reach(uint64_t u, uint64_t v) const {
    std::set<uint64_t> seen{u};
    std::vector<uint64_t> st{u};
    while (!st.empty()) {
      auto x = st.back(); st.pop_back();
      if (x == v) return true;
      for (auto it = es.lower_bound({x, 0}); it != es.end() && it->first == x; ++it) if (seen.insert(it->second).second) st.push_back(it->second);
    }
    return false;
  }
};
template <class V, class G> void checkDirected(const G& g, const Model& m, uint64_t N, const std::string& d) {
  require(g.getNVertices() == m.vs.size(), "vertex count wrong: " + d);
  require(g.getNEdges() == m.es.size(), "edge count " + std::to_string(g.getNEdges()) + " wrong: " + d);
  auto vs = g.getVertices();
  require(vs.size() == m.vs.size(), "vertex set has the wrong size: " + d);
  for (auto v : m.vs) require(vs.count(mk<V>(v)) == 1, "vertex missing: " + d);
  for (uint64_t u = 0; u < N; ++u) {
    std::size_t in = 0, out = 0;
    for (auto& e : m.es) { in += e.second == u; out += e.first == u; }
    if (m.has(u)) {
      require(g.getInDegree(mk<V>(u)) == in && g.getOutDegree(mk<V>(u)) == out, "degree of vertex " + std::to_string(u) + " wrong: " + d);
    } else require(throws([&] { (void)g.getInDegree(mk<V>(u)); }) && throws([&] { (void)g.getOutDegree(mk<V>(u)); }), "degree of an absent vertex was reported: " + d);
    for (uint64_t v = 0; v < N; ++v) {
      if (m.has(u) && m.has(v)) require(g.isEdge(mk<V>(u), mk<V>(v)) == (m.es.count({u, v}) > 0), "isEdge(" + std::to_string(u) + "," + std::to_string(v) + ") wrong: " + d);
      else require(throws([&] { (void)g.isEdge(mk<V>(u), mk<V>(v)); }), "isEdge on an absent vertex did not throw: " + d);
    }
  }
  std::ostringstream os; os << g;
  require(os.str() == g.toString(), "stream output differs from toString");
  auto dot = parseDot(g.toString(), "->");
  require(dot.label.size() == m.vs.size() && dot.edges.size() == m.es.size(), "DOT export lists the wrong number of vertices or edges: " + d);
  std::map<std::string, uint64_t> back;
  for (auto v : m.vs) back[str(mk<V>(v))] = v;
  for (auto& [a, b] : dot.edges) require(m.es.count({back.at(dot.label.at(a)), back.at(dot.label.at(b))}) > 0, "DOT export lists a wrong edge: " + d);
}
template <class V> void directedT(Src& s, Ctx& c) {
  const uint64_t N = static_cast<uint64_t>(s.range(1, 9));
  qc::DirectedGraph<V> g;
  Model m;
  std::string d;
  const unsigned steps = static_cast<unsigned>(s.sized(1, 30));
  for (unsigned i = 0; i < steps; ++i) {
    auto u = s.below(N), v = s.below(N);
    if (s.chance(1, 4)) {
      d += "+" + std::to_string(u) + " "; c.desc(d);
      require(throws([&] { g.addVertex(mk<V>(u)); }) == m.has(u), "adding a vertex twice must be refused, a new one accepted: " + d);
      m.add(u);
    } else {
      d += std::to_string(u) + ">" + std::to_string(v) + " "; c.desc(d);
      g.addEdge(mk<V>(u), mk<V>(v));
      m.add(u); m.add(v); m.es.insert({u, v});
    }
    if (s.chance(1, 6)) { qc::DirectedGraph<V> h(g); auto w = s.below(N); if (!m.has(w)) h.addVertex(mk<V>(w)); else h.addEdge(mk<V>(w), mk<V>(w)); }
    if (s.chance(1, 4)) checkDirected<V>(g, m, N, d);
  }
  checkDirected<V>(g, m, N, d);
  c.nontrivial = m.es.size() >= 2;
  c.label("edges:" + std::to_string(m.es.size() / 4 * 4) + "+");
}
void directed(Src& s, Ctx& c) { switch (s.below(3)) { case 0: return directedT<int>(s, c); case 1: return directedT<std::string>(s, c); default: return directedT<uint32_t>(s, c); } }

template <class V> void dagT(Src& s, Ctx& c) {
  const uint64_t N = static_cast<uint64_t>(s.range(1, 11));
  qc::DirectedAcyclicGraph<V> g;
  Model m;
  std::string d;
  bool refused = false;
  auto full = [&] {
    checkDirected<V>(g, m, N, d);
    for (uint64_t u = 0; u < N; ++u) for (uint64_t v = 0; v < N; ++v) {
      if (m.has(u) && m.has(v)) require(g.isReachable(mk<V>(u), mk<V>(v)) == m.reach(u, v), "isReachable(" + std::to_string(u) + "," + std::to_string(v) + ") wrong: " + d);
      else require(throws([&] { (void)g.isReachable(mk<V>(u), mk<V>(v)); }), "isReachable on an absent vertex did not throw: " + d);
    }
    auto o = g.orderTopologically();
    require(o.size() == m.vs.size(), "topological order has the wrong length: " + d);
    std::map<V, std::size_t> pos;
    for (std::size_t i = 0; i < o.size(); ++i) require(pos.emplace(o[i], i).second, "topological order repeats a vertex: " + d);
    for (auto v : m.vs) require(pos.count(mk<V>(v)) == 1, "topological order misses a vertex: " + d);
    for (auto& e : m.es) require(pos.at(mk<V>(e.first)) < pos.at(mk<V>(e.second)), "topological order violates edge " + std::to_string(e.first) + ">" + std::to_string(e.second) + ": " + d);
  };
  const unsigned steps = static_cast<unsigned>(s.sized(1, 40));
  std::vector<uint64_t> order(N);
  for (uint64_t i = 0; i < N; ++i) order[i] = i;
  s.shuffle(order);
  for (unsigned i = 0; i < steps; ++i) {
    auto u = s.below(N), v = s.below(N);
    if (s.chance(2, 3) && u != v) { // mostly edges along a hidden order, so that the graph gets dense
      if (u > v) std::swap(u, v);
      u = order[u]; v = order[v];
    }
    if (s.chance(1, 6)) {
      d += "+" + std::to_string(u) + " "; c.desc(d);
      require(throws([&] { g.addVertex(mk<V>(u)); }) == m.has(u), "adding a vertex twice must be refused, a new one accepted: " + d);
      m.add(u);
    } else {
      if (u == v && !m.has(u)) continue; // whether the refused edge leaves its vertex behind is not specified
      d += std::to_string(u) + ">" + std::to_string(v) + " "; c.desc(d);
      const bool cyc = m.has(u) && m.has(v) && m.reach(v, u);
      require(throws([&] { g.addEdge(mk<V>(u), mk<V>(v)); }) == cyc, std::string(cyc ? "an edge closing a cycle was accepted: " : "an edge closing no cycle was refused: ") + d);
      if (!cyc) { m.add(u); m.add(v); m.es.insert({u, v}); } else refused = true;
    }
    if (s.chance(1, 8)) { auto h = g; auto w = s.below(N); if (!m.has(w)) h.addEdge(mk<V>(w), mk<V>((w + 1) % N == w ? N + 1 : (m.has((w + 1) % N) ? N + 2 : (w + 1) % N))); }
    if (s.chance(1, 4)) full();
  }
  full();
  c.nontrivial = m.es.size() >= 3;
  if (refused) c.label("cycle refused");
  c.label("edges:" + std::to_string(m.es.size() / 4 * 4) + "+");
}
void dag(Src& s, Ctx& c) { switch (s.below(3)) { case 0: return dagT<int>(s, c); case 1: return dagT<std::string>(s, c); default: return dagT<uint32_t>(s, c); } }

template <class V> void undirectedT(Src& s, Ctx& c) {
  const uint64_t N = static_cast<uint64_t>(s.range(1, 9));
  qc::UndirectedGraph<V, int> g;
  std::vector<uint64_t> vs;
  std::map<std::pair<uint64_t, uint64_t>, int> es; // u <= v
  std::string d;
  bool loop = false;
  auto has = [&](uint64_t v) { return std::find(vs.begin(), vs.end(), v) != vs.end(); };
  auto add = [&](uint64_t v) { if (!has(v)) vs.push_back(v); };
  auto key = [](uint64_t u, uint64_t v) { return std::pair{std::min(u, v), std::max(u, v)}; };
  auto full = [&] {
    require(g.getNVertices() == vs.size(), "vertex count wrong: " + d);
    require(g.getNEdges() == es.size(), "edge count wrong: " + d);
    auto gv = g.getVertices();
    require(gv.size() == vs.size(), "vertex set wrong: " + d);
    for (auto v : vs) require(gv.count(mk<V>(v)) == 1, "vertex missing: " + d);
    for (uint64_t u = 0; u < N; ++u) {
      if (!has(u)) {
        require(throws([&] { (void)g.getDegree(mk<V>(u)); }) && throws([&] { (void)g.getNeighbours(mk<V>(u)); }) && throws([&] { (void)g.getAdjacentEdges(mk<V>(u)); }), "query on an absent vertex did not throw: " + d);
      } else {
        std::set<V> nb;
        for (auto& [e, w] : es) { if (e.first == u) nb.insert(mk<V>(e.second)); if (e.second == u) nb.insert(mk<V>(e.first)); }
        require(g.getDegree(mk<V>(u)) == nb.size(), "degree of " + std::to_string(u) + " wrong: " + d);
        auto gn = g.getNeighbours(mk<V>(u));
        require(std::set<V>(gn.begin(), gn.end()) == nb, "neighbours of " + std::to_string(u) + " wrong: " + d);
        auto ge = g.getAdjacentEdges(mk<V>(u));
        require(ge.size() == nb.size(), "adjacent edges of " + std::to_string(u) + " wrong: " + d);
        for (auto& e : ge) require(e.first == mk<V>(u) && nb.count(e.second), "adjacent edge of " + std::to_string(u) + " wrong: " + d);
      }
      for (uint64_t v = 0; v < N; ++v) {
        auto it = es.find(key(u, v));
        if (has(u) && has(v)) require(g.isAdjacent(mk<V>(u), mk<V>(v)) == (it != es.end()), "isAdjacent(" + std::to_string(u) + "," + std::to_string(v) + ") wrong: " + d);
        else require(throws([&] { (void)g.isAdjacent(mk<V>(u), mk<V>(v)); }), "isAdjacent on an absent vertex did not throw: " + d);
        if (it != es.end()) require(g.getEdge(mk<V>(u), mk<V>(v)) == it->second, "getEdge(" + std::to_string(u) + "," + std::to_string(v) + ") wrong: " + d);
        else require(throws([&] { (void)g.getEdge(mk<V>(u), mk<V>(v)); }), "getEdge on an absent edge did not throw: " + d);
      }
    }
    std::ostringstream os; os << g;
    require(os.str() == g.toString(), "stream output differs from toString");
    auto dot = parseDot(g.toString(), "--");
    require(dot.label.size() == vs.size() && dot.edges.size() == es.size(), "DOT export lists the wrong number of vertices or edges: " + d + "\n" + g.toString());
    std::map<std::string, uint64_t> back;
    for (auto v : vs) back[str(mk<V>(v))] = v;
    for (auto& [a, b] : dot.edges) require(es.count(key(back.at(dot.label.at(a)), back.at(dot.label.at(b)))) > 0, "DOT export lists a wrong edge: " + d);
  };
  const unsigned steps = static_cast<unsigned>(s.sized(1, 30));
  for (unsigned i = 0; i < steps; ++i) {
    auto u = s.below(N), v = s.below(N);
    if (s.chance(1, 4)) {
      d += "+" + std::to_string(u) + " "; c.desc(d);
      require(throws([&] { g.addVertex(mk<V>(u)); }) == has(u), "adding a vertex twice must be refused, a new one accepted: " + d);
      add(u);
    } else {
      const int w = static_cast<int>(s.below(100));
      d += std::to_string(u) + "-" + std::to_string(v) + "(" + std::to_string(w) + ") "; c.desc(d);
      require(throws([&] { g.addEdge(mk<V>(u), mk<V>(v), w); }) == (es.count(key(u, v)) > 0), "an existing edge must be refused, a new one accepted: " + d);
      add(u); add(v); es.emplace(key(u, v), w); loop |= u == v;
    }
    if (s.chance(1, 4)) full();
  }
  full();
  auto a = s.below(N), b = s.below(N), e = s.below(N), f = s.below(N);
  require(qc::UndirectedGraph<V, int>::isAdjacentEdge({mk<V>(a), mk<V>(b)}, {mk<V>(e), mk<V>(f)}) == (a == e || a == f || b == e || b == f), "isAdjacentEdge wrong");
  c.nontrivial = es.size() >= 2;
  if (loop) c.label("self-loop");
}
void undirected(Src& s, Ctx& c) { switch (s.below(3)) { case 0: return undirectedT<int>(s, c); case 1: return undirectedT<std::string>(s, c); default: return undirectedT<uint32_t>(s, c); } }

void symmetric(Src& s, Ctx& c) {
  const std::size_t n = static_cast<std::size_t>(s.range(0, 9));
  const int init = static_cast<int>(s.below(50));
  const bool def = s.coin();
  qc::SymmetricMatrix<int> m = def ? qc::SymmetricMatrix<int>(n) : qc::SymmetricMatrix<int>(n, init);
  std::vector<std::vector<int>> ref(n, std::vector<int>(n, def ? 0 : init));
  std::string d = "size " + std::to_string(n) + ": ";
  require(m.size() == n, "size wrong: " + d);
  if (n > 0) for (unsigned i = 0, k = static_cast<unsigned>(s.sized(1, 25)); i < k; ++i) {
    auto r = s.below(n), q = s.below(n);
    int v = static_cast<int>(s.below(1000));
    d += "(" + std::to_string(r) + "," + std::to_string(q) + ")=" + std::to_string(v) + " "; c.desc(d);
    m(r, q) = v;
    ref[r][q] = ref[q][r] = v;
    if (s.chance(1, 5)) { auto cp = m; cp(q, r) = -1; }
  }
  const auto& cm = m;
  require(qc::SymmetricMatrix<int>().size() == 0, "default matrix is not empty");
  for (std::size_t r = 0; r < n; ++r) for (std::size_t q = 0; q < n; ++q) require(m(r, q) == ref[r][q] && cm(r, q) == ref[r][q], "entry (" + std::to_string(r) + "," + std::to_string(q) + ") wrong: " + d);
  c.desc(d);
  c.nontrivial = n >= 2;
}
void disjoint(Src& s, Ctx& c) {
  const uint64_t N = static_cast<uint64_t>(s.range(1, 16));
  std::vector<uint32_t> el;
  for (uint64_t i = 0; i < N; ++i) el.push_back(mk<uint32_t>(i * 3));
  s.shuffle(el);
  qc::DisjointSet<uint32_t> ds(el.begin(), el.end());
  std::map<uint32_t, int> cls;
  for (std::size_t i = 0; i < el.size(); ++i) cls[el[i]] = static_cast<int>(i);
  std::string d = std::to_string(N) + " elements: ";
  auto full = [&] {
    std::map<int, uint32_t> rep;
    for (auto e : el) {
      auto r = ds.findSet(e);
      require(cls.count(r) == 1 && cls[r] == cls[e], "representative of " + std::to_string(e) + " lies in another class: " + d);
      require(rep.emplace(cls[e], r).first->second == r, "two representatives in one class: " + d);
      require(ds.findSet(r) == r, "representative does not represent itself: " + d);
    }
  };
  unsigned merged = 0;
  for (unsigned i = 0, k = static_cast<unsigned>(s.sized(1, 25)); i < k; ++i) {
    auto a = s.pick(el), b = s.pick(el);
    d += std::to_string(a) + "~" + std::to_string(b) + " "; c.desc(d);
    ds.unionSet(a, b);
    int x = cls[a], y = cls[b];
    merged += x != y;
    for (auto& [e, k2] : cls) if (k2 == x) k2 = y;
    if (s.chance(1, 4)) full(); else if (s.coin()) { auto e = s.pick(el); require(cls[ds.findSet(e)] == cls[e], "representative lies in another class: " + d); }
  }
  full();
  c.nontrivial = merged >= 2;
}
} // namespace

int main(int argc, char** argv) {
  Suite su;
  su.property = "C70";
  su.rule = "one case = one history of insertions (vertices, edges incl. duplicates, self-loops and cycle-closing ones; writes; unions) with all queries compared with an explicit model at random points and at the end; non-trivial = at least two edges/merges (three for acyclic graphs); distinct by printed history";
  su.assumptions = {"vertex types int, std::string and unsigned", "up to 11 vertices and 40 steps", "whether a refused self-loop on a new vertex leaves that vertex behind is left open"};
  su.props = {{"directed", directed, 20000, 1000000}, {"acyclic", dag, 30000, 1500000}, {"undirected", undirected, 20000, 1000000}, {"symmetric", symmetric, 10000, 300000}, {"disjoint", disjoint, 10000, 500000}};
  return mainImpl(su, argc, argv);
}
