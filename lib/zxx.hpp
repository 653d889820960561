// Dense interpretation of ZX-diagrams by variable elimination, independent of the library's rewriting.
#pragma once
#include "qasmcmp.hpp"
#include "symspec.hpp"

#include "zx/FunctionalityConstruction.hpp"
#include "zx/Simplify.hpp"
#include "zx/ZXDiagram.hpp"

namespace zxx {
using C = ref::C;
struct Factor { std::vector<std::size_t> vars; std::vector<C> t; };
inline Factor combine(const std::vector<Factor>& fs, std::size_t drop) {
  std::set<std::size_t> all;
  for (auto& f : fs) all.insert(f.vars.begin(), f.vars.end());
  Factor r;
  for (auto v : all) if (v != drop) r.vars.push_back(v);
  const bool sum = all.count(drop) > 0;
  if (r.vars.size() > 17) throw pbt::Discard{};
  r.t.assign(std::size_t{1} << r.vars.size(), C{});
  std::vector<std::vector<std::size_t>> pos(fs.size());
  for (std::size_t k = 0; k < fs.size(); ++k) for (auto v : fs[k].vars) pos[k].push_back(v == drop ? r.vars.size() : static_cast<std::size_t>(std::lower_bound(r.vars.begin(), r.vars.end(), v) - r.vars.begin()));
  for (std::size_t i = 0; i < r.t.size(); ++i) for (std::size_t x = 0; x < (sum ? 2U : 1U); ++x) {
    const std::size_t full = i | (x << r.vars.size());
    C p = 1;
    for (std::size_t k = 0; k < fs.size(); ++k) { std::size_t idx = 0; for (std::size_t j = 0; j < pos[k].size(); ++j) idx |= ((full >> pos[k][j]) & 1U) << j; p *= fs[k].t[idx]; }
    r.t[i] += p;
  }
  // scalars do not matter: keep the entries in range
  double top = 0;
  for (auto& x : r.t) top = std::max(top, std::abs(x));
  if (top > 1e-10) for (auto& x : r.t) x /= top; else for (auto& x : r.t) x = 0;
  return r;
}
using Assign = std::map<std::string, double>;
inline double angle(const zx::PiExpression& e, const Assign& a) {
  double r = e.getConst().toDouble() * 1.0;
  for (auto it = e.begin(); it != e.end(); ++it) { auto k = a.find(it->getVar().getName()); r += it->getCoeff() * (k == a.end() ? 0.0 : k->second); }
  return r;
}
inline std::string str(const zx::ZXDiagram& d) {
  std::ostringstream o;
  o << "in:"; for (auto v : d.getInputs()) o << " " << v;
  o << " out:"; for (auto v : d.getOutputs()) o << " " << v;
  for (auto& [v, data] : d.getVertices()) {
    o << "; " << v << ":" << (data.type == zx::VertexType::Z ? "Z" : data.type == zx::VertexType::X ? "X" : "B");
    if (!data.phase.isZero()) o << "(" << data.phase << ")";
    for (auto& e : d.incidentEdges(v)) if (e.to > v) o << (e.type == zx::EdgeType::Simple ? " -" : " =") << e.to;
  }
  return o.str();
}
// structure: symmetric edges without dangling ends, right counts, boundaries intact
inline void wellFormed(const zx::ZXDiagram& d, const std::string& what) {
  std::size_t nv = 0, half = 0;
  std::set<std::size_t> alive;
  for (auto& [v, data] : d.getVertices()) { ++nv; alive.insert(v); }
  pbt::require(nv == d.getNVertices(), what + ": the number of vertices is wrong: " + std::to_string(d.getNVertices()) + " for " + str(d));
  for (auto v : alive) {
    std::map<std::pair<std::size_t, int>, int> mine;
    for (auto& e : d.incidentEdges(v)) {
      ++half;
      pbt::require(alive.count(e.to) > 0, what + ": an edge leads to a removed vertex: " + str(d));
      ++mine[{e.to, static_cast<int>(e.type)}];
    }
    for (auto& [k, n] : mine) {
      int other = 0;
      for (auto& e : d.incidentEdges(k.first)) other += e.to == v && static_cast<int>(e.type) == k.second;
      pbt::require(other == n, what + ": the edges between " + std::to_string(v) + " and " + std::to_string(k.first) + " are not symmetric: " + str(d));
    }
  }
  pbt::require(half == 2 * d.getNEdges(), what + ": the number of edges is wrong: " + std::to_string(d.getNEdges()) + " for " + str(d));
  std::set<std::size_t> io;
  for (auto* l : {&d.getInputs(), &d.getOutputs()}) for (auto v : *l) {
    pbt::require(alive.count(v) > 0, what + ": an input or output was removed: " + str(d));
    pbt::require(d.type(v) == zx::VertexType::Boundary && d.degree(v) == 1, what + ": an input or output is no boundary with a single edge: " + str(d));
    pbt::require(io.insert(v).second, what + ": an input or output occurs twice: " + str(d));
  }
  for (auto v : alive) if (d.type(v) == zx::VertexType::Boundary) pbt::require(io.count(v) > 0, what + ": a boundary vertex is neither input nor output: " + str(d));
  pbt::require(d.getEdges().size() == d.getNEdges(), what + ": getEdges lists " + std::to_string(d.getEdges().size()) + " of " + std::to_string(d.getNEdges()) + " edges: " + str(d));
}
// entries t[out * 2^inputs + in]
inline std::vector<C> tensor(const zx::ZXDiagram& d, const Assign& a = {}) {
  std::vector<Factor> fs;
  std::map<std::size_t, std::size_t> id;
  std::size_t next = 0;
  for (auto v : d.getInputs()) id[v] = next++;
  for (auto v : d.getOutputs()) id[v] = next++;
  const auto nIO = next;
  for (auto& [v, data] : d.getVertices()) if (!id.count(v)) id[v] = next++;
  const double h = 1 / std::sqrt(2.0);
  for (auto& [v, data] : d.getVertices()) {
    if (data.type != zx::VertexType::Boundary) fs.push_back({{id[v]}, {1.0, ref::ei(angle(data.phase, a))}});
    for (auto& e : d.incidentEdges(v)) {
      if (e.to < v) continue;
      if (e.to == v) throw pbt::Discard{};
      bool had = e.type == zx::EdgeType::Hadamard;
      if (data.type == zx::VertexType::X) had = !had;
      if (d.type(e.to) == zx::VertexType::X) had = !had;
      auto x = id[v], y = id[e.to];
      Factor f; f.vars = {std::min(x, y), std::max(x, y)};
      if (had) f.t = {h, h, h, -h}; else f.t = {1.0, 0.0, 0.0, 1.0};
      fs.push_back(f);
    }
  }
  std::set<std::size_t> todo;
  for (std::size_t v = nIO; v < next; ++v) todo.insert(v);
  while (!todo.empty()) {
    std::size_t best = 0, cost = SIZE_MAX;
    for (auto v : todo) { std::set<std::size_t> u; for (auto& f : fs) if (std::binary_search(f.vars.begin(), f.vars.end(), v)) u.insert(f.vars.begin(), f.vars.end()); if (u.size() < cost) { cost = u.size(); best = v; } }
    todo.erase(best);
    std::vector<Factor> mine, rest;
    for (auto& f : fs) (std::binary_search(f.vars.begin(), f.vars.end(), best) ? mine : rest).push_back(std::move(f));
    if (mine.empty()) { rest.push_back({{}, {2.0}}); fs = std::move(rest); continue; }
    rest.push_back(combine(mine, best));
    fs = std::move(rest);
  }
  // make sure every boundary occurs
  for (std::size_t v = 0; v < nIO; ++v) fs.push_back({{v}, {1.0, 1.0}});
  if (fs.empty()) return {1.0};
  return combine(fs, SIZE_MAX).t;
}
inline double normOf(const std::vector<C>& t) { double s = 0; for (auto& x : t) s += std::norm(x); return std::sqrt(s); }
// distance of two tensors up to a non-zero scalar (2 if exactly one of them vanishes)
inline double distScalar(const std::vector<C>& x, const std::vector<C>& y) {
  if (x.size() != y.size()) return 2;
  const double a = normOf(x), b = normOf(y);
  if (a < 1e-9 || b < 1e-9) return 2;
  C ip = 0;
  for (std::size_t i = 0; i < x.size(); ++i) ip += std::conj(x[i]) * y[i];
  if (std::abs(ip) < 1e-12) return 2;
  ip /= std::abs(ip);
  double s = 0;
  for (std::size_t i = 0; i < x.size(); ++i) s += std::norm(x[i] / a * ip - y[i] / b);
  return std::sqrt(s);
}
} // namespace zxx
