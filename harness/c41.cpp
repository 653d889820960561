// build: {"libs":["ir","zx","circuit_optimizer"]}
// C41: rewriting ZX-diagrams preserves their meaning and their structure.
#include "zxx.hpp"
#include "optx.hpp"

#include "zx/Rules.hpp"
#include "zx/Utils.hpp"
using namespace spec;
using zx::EdgeType;
using zx::PiExpression;
using zx::PiRational;
using zx::Vertex;
using zx::VertexType;
using zx::ZXDiagram;
using zxx::C;

namespace {
const zxx::Assign& values() { static const zxx::Assign a{{"x", 0.731}, {"y", -1.193}, {"z", 2.377}}; return a; }
PiExpression genPhase(pbt::Src& s, bool symbolic) {
  auto frac = [&]() -> PiRational {
    switch (s.below(6)) {
    case 0: case 1: return PiRational(static_cast<int>(s.below(2)), 1);
    case 2: return PiRational(s.coin() ? 1 : -1, 2);
    case 3: return PiRational(static_cast<int>(s.range(-3, 4)), 4);
    case 4: return PiRational(static_cast<int>(s.range(-7, 8)), s.range(1, 9));
    default: return PiRational(static_cast<int>(s.below(2)), 1);
    }
  };
  PiExpression e{frac()};
  if (symbolic && s.chance(1, 4)) for (int k = s.range(1, 2); k > 0; --k) e += PiExpression(sym::Term<double>(sym::Variable(s.pick({"x", "y", "z"})), s.pick({1.0, -1.0, 2.0, 0.5})));
  return e;
}
struct Gen { ZXDiagram d; std::string how; };
// no self-loops and no parallel edges; inputs and outputs are boundaries with one edge
ZXDiagram genGraph(pbt::Src& s, bool graphLike, std::string& how) {
  const bool symbolic = s.chance(1, 3);
  const auto nq = static_cast<std::size_t>(s.range(0, 3));
  ZXDiagram d(nq);
  std::vector<Vertex> sp;
  for (std::size_t i = 0; i < nq; ++i) d.removeEdge(d.getInput(i), d.getOutput(i));
  const int n = s.sized(nq > 0 ? 1 : 0, 9);
  auto colour = [&] { return !graphLike && s.chance(2, 5) ? VertexType::X : VertexType::Z; };
  const bool gaps = s.chance(1, 3);
  for (int i = 0; i < n; ++i) {
    sp.push_back(d.addVertex(static_cast<zx::Qubit>(i), i, genPhase(s, symbolic), colour()));
    if (gaps && s.chance(1, 3)) { // leave a hole in the numbering, to be reused later
      const auto hole = d.addVertex(0, 0, PiExpression(), VertexType::Z);
      sp.push_back(hole);
      const auto k = s.below(sp.size());
      d.removeVertex(sp[k]);
      sp.erase(sp.begin() + static_cast<std::ptrdiff_t>(k));
    }
  }
  auto type = [&] { return s.coin() ? EdgeType::Hadamard : EdgeType::Simple; };
  auto inner = [&] { return graphLike || s.chance(3, 5) ? EdgeType::Hadamard : EdgeType::Simple; };
  const auto density = s.range(1, 5);
  for (std::size_t i = 0; i < sp.size(); ++i) for (std::size_t j = i + 1; j < sp.size(); ++j) if (s.chance(static_cast<unsigned>(density), 7)) { if (s.coin()) d.addEdge(sp[i], sp[j], inner()); else d.addEdge(sp[j], sp[i], inner()); }
  // phase gadgets, often on the same spiders
  if (s.coin() && sp.size() >= 2) {
    const auto base = sp;
    std::vector<std::size_t> on;
    for (int g = s.range(1, 3); g > 0; --g) {
      if (on.empty() || s.chance(1, 3)) { on.clear(); for (std::size_t i = 0; i < base.size(); ++i) if (s.chance(1, 3)) on.push_back(i); if (on.empty()) on.push_back(s.below(base.size())); }
      auto mine = on;
      if (mine.size() > 1 && s.chance(1, 4)) mine.pop_back();
      const auto hub = d.addVertex(0, 0, PiExpression(PiRational(static_cast<int>(s.below(2)), 1)), VertexType::Z);
      for (int l = s.chance(1, 5) ? 2 : 1; l > 0; --l) { const auto leaf = d.addVertex(0, 0, genPhase(s, symbolic), VertexType::Z); d.addEdge(leaf, hub, EdgeType::Hadamard); sp.push_back(leaf); }
      for (auto i : mine) d.addEdge(hub, base[i], EdgeType::Hadamard);
      sp.push_back(hub);
    }
    how += "gadgets ";
  }
  // boundaries
  std::vector<Vertex> free;
  for (std::size_t i = 0; i < nq; ++i) { free.push_back(d.getInput(i)); free.push_back(d.getOutput(i)); }
  free = s.coin() ? free : std::vector<Vertex>(free.rbegin(), free.rend());
  while (!free.empty()) {
    const auto b = free.back(); free.pop_back();
    if (!free.empty() && (sp.empty() || s.chance(1, 10))) { const auto k = s.below(free.size()); d.addEdge(b, free[k], type()); free.erase(free.begin() + static_cast<std::ptrdiff_t>(k)); continue; }
    d.addEdge(b, sp.at(s.below(sp.size())), type());
  }
  how += zxx::str(d);
  return d;
}
ZXDiagram genCircuit(pbt::Src& s, std::string& how, bool ancillas = true) {
  GenCfg g; g.maxControls = 0;
  g.gates = {"z", "rz", "p", "x", "rx", "y", "ry", "t", "tdg", "s", "sdg", "swap", "h", "h", "sx", "rzz", "rxx", "ecr", "t", "iswap"};
  Circ t; t.nq = static_cast<unsigned>(s.sized(1, 4));
  for (int k = s.sized(0, 14); k > 0; --k) {
    Op o;
    if (t.nq > 1 && s.coin()) { auto q = distinctQubits(s, t.nq, t.nq > 2 && s.chance(1, 3) ? 3 : 2); o.g = s.pick({"x", "z"}); o.ts = {q[0]}; for (std::size_t i = 1; i < q.size(); ++i) o.cs.push_back({q[i], true}); std::sort(o.cs.begin(), o.cs.end()); }
    else o = genGate(s, t.nq, g);
    t.ops.push_back(o);
  }
  how += show(t);
  const auto q = build(t);
  const auto e = extract(q);
  if (anyOp(e.ops, [](auto& o) { return o.kind == Op::U && (o.g == "v" || o.g == "vdg" || o.g == "sxdg" || o.g == "iswapdg"); })) throw pbt::Discard{};
  auto d = zx::FunctionalityConstruction::buildFunctionality(&q);
  if (ancillas && t.nq > 1 && s.chance(1, 4)) { const auto i = static_cast<zx::Qubit>(s.below(t.nq)), o = static_cast<zx::Qubit>(s.below(t.nq)); d.makeAncilla(i, o); how += "ancilla " + std::to_string(i) + "," + std::to_string(o); }
  if (s.chance(1, 4)) { d.concat(d.adjoint()); how += "with its adjoint"; }
  return d;
}
std::vector<C> meaning(const ZXDiagram& d) {
  auto t = zxx::tensor(d, values());
  if (zxx::normOf(t) < 1e-6) throw pbt::Discard{}; // the zero map: scalars are not tracked
  return t;
}
void same(const std::vector<C>& before, const ZXDiagram& d, const std::string& what, double tol = 1e-6) {
  zxx::wellFormed(d, what);
  const double e = zxx::distScalar(before, zxx::tensor(d, values()));
  pbt::require(e < tol, what + " changes the meaning (distance " + num(e) + "): " + zxx::str(d));
}
bool identityMap(const ZXDiagram& d, const std::vector<C>& t) {
  const std::size_t n = std::size_t{1} << d.getInputs().size();
  std::vector<C> id(n * n);
  for (std::size_t i = 0; i < n; ++i) id[i * n + i] = 1;
  return zxx::distScalar(id, t) < 1e-6;
}
struct Rule { const char* name; bool edge, graphLike; std::function<bool(const ZXDiagram&, Vertex, Vertex)> check; std::function<bool(ZXDiagram&, Vertex, Vertex)> apply; };
const std::vector<Rule>& theRules() {
  static const std::vector<Rule> r{
      {"removeId", false, false, [](auto& d, auto v, auto) { return zx::checkIdSimp(d, v); }, [](auto& d, auto v, auto) { zx::removeId(d, v); return true; }},
      {"fuseSpiders", true, false, [](auto& d, auto v, auto w) { return zx::checkSpiderFusion(d, v, w); }, [](auto& d, auto v, auto w) { zx::fuseSpiders(d, v, w); return true; }},
      {"localComp", false, false, [](auto& d, auto v, auto) { return zx::checkLocalComp(d, v); }, [](auto& d, auto v, auto) { zx::localComp(d, v); return true; }},
      {"pivotPauli", true, false, [](auto& d, auto v, auto w) { return zx::checkPivotPauli(d, v, w); }, [](auto& d, auto v, auto w) { zx::pivotPauli(d, v, w); return true; }},
      {"pivot", true, false, [](auto& d, auto v, auto w) { return zx::checkPivot(d, v, w); }, [](auto& d, auto v, auto w) { zx::pivot(d, v, w); return true; }},
      {"pivotGadget", true, true, [](auto& d, auto v, auto w) { return zx::checkPivotGadget(d, v, w); }, [](auto& d, auto v, auto w) { zx::pivotGadget(d, v, w); return true; }},
      {"fuseGadget", false, true, [](auto&, auto, auto) { return true; }, [](auto& d, auto v, auto) { return zx::checkAndFuseGadget(d, v); }}};
  return r;
}
// every rule at every place where it applies
void rules(pbt::Src& s, pbt::Ctx& c) {
  const bool gl = s.coin();
  std::string how;
  const auto d = genGraph(s, gl, how);
  c.desc(how);
  zxx::wellFormed(d, "generated diagram");
  const auto m = meaning(d);
  const auto before = zxx::str(d);
  std::size_t applied = 0;
  for (auto& r : theRules()) {
    if (r.graphLike && !gl) continue;
    std::vector<std::pair<Vertex, Vertex>> places;
    if (r.edge) { for (auto& [v, w] : d.getEdges()) { places.emplace_back(v, w); places.emplace_back(w, v); } }
    else for (auto& [v, x] : d.getVertices()) places.emplace_back(v, v);
    for (auto& [v, w] : places) {
      if (!r.check(d, v, w)) continue;
      auto e = d;
      const auto where = std::string(r.name) + "(" + std::to_string(v) + (r.edge ? "," + std::to_string(w) : "") + ")";
      if (!r.apply(e, v, w)) { pbt::require(zxx::str(e) == before, where + " does not apply but changes the diagram"); continue; }
      ++applied;
      c.label(std::string("rule:") + r.name);
      same(m, e, where);
    }
  }
  pbt::require(zxx::str(d) == before, "a check changes the diagram");
  c.nontrivial = applied > 0;
}
// repeated application of random rules
void sequences(pbt::Src& s, pbt::Ctx& c) {
  const bool gl = s.coin();
  std::string how;
  auto d = s.chance(1, 3) ? genCircuit(s, how) : genGraph(s, gl, how);
  if (gl) d.toGraphlike();
  c.desc(how);
  const auto m = meaning(d);
  std::size_t applied = 0;
  for (int k = s.sized(1, 12); k > 0; --k) {
    const auto& r = theRules()[s.below(theRules().size())];
    if (r.graphLike) continue;
    std::vector<std::pair<Vertex, Vertex>> places;
    if (r.edge) { for (auto& [v, w] : d.getEdges()) if (r.check(d, v, w)) places.emplace_back(v, w); }
    else for (auto& [v, x] : d.getVertices()) if (r.check(d, v, v)) places.emplace_back(v, v);
    if (places.empty()) continue;
    const auto [v, w] = places[s.below(places.size())];
    how += std::string(" ") + r.name + "(" + std::to_string(v) + (r.edge ? "," + std::to_string(w) : "") + ")";
    c.desc(how);
    r.apply(d, v, w);
    ++applied;
    same(m, d, r.name);
  }
  c.nontrivial = applied > 1;
}
bool anyVertex(const ZXDiagram& d, bool (*check)(const ZXDiagram&, Vertex)) { for (auto& [v, x] : d.getVertices()) if (check(d, v)) return true; return false; }
bool anyEdge(const ZXDiagram& d, bool (*check)(const ZXDiagram&, Vertex, Vertex)) { for (auto& [v, w] : d.getEdges()) if (check(d, v, w)) return true; return false; }
void exhausted(const ZXDiagram& d, const std::string& what, bool interior, bool pivots, bool gadgets) {
  if (interior) {
    pbt::require(!anyVertex(d, zx::checkIdSimp), what + " leaves an identity spider: " + zxx::str(d));
    pbt::require(!anyEdge(d, zx::checkSpiderFusion), what + " leaves spiders to be fused: " + zxx::str(d));
    pbt::require(!anyVertex(d, zx::checkLocalComp), what + " leaves a local complementation: " + zxx::str(d));
    pbt::require(!anyEdge(d, zx::checkPivotPauli), what + " leaves a Pauli pivot: " + zxx::str(d));
  }
  if (pivots) pbt::require(!anyEdge(d, zx::checkPivot), what + " leaves a pivot: " + zxx::str(d));
  if (gadgets) pbt::require(!anyEdge(d, zx::checkPivotGadget), what + " leaves a gadget pivot: " + zxx::str(d));
}
void procedures(pbt::Src& s, pbt::Ctx& c) {
  const bool gl = s.coin();
  std::string how;
  auto d = s.chance(1, 3) ? genCircuit(s, how) : genGraph(s, gl, how);
  c.desc(how);
  zxx::wellFormed(d, "generated diagram");
  const auto m = meaning(d);
  std::size_t effective = 0;
  bool graphLike = false;
  for (int k = s.range(1, 4); k > 0; --k) {
    auto which = s.below(12);
    if ((which == 8 || which == 9) && !graphLike) { d.toGraphlike(); zx::spiderSimp(d); graphLike = true; how += " graphlike"; same(m, d, "toGraphlike and spiderSimp"); }
    const auto before = zxx::str(d);
    std::size_t n = 0;
    std::string name;
    switch (which) {
    case 0: name = "idSimp"; n = zx::idSimp(d); if (n > 0) graphLike = false; break;
    case 1: name = "spiderSimp"; n = zx::spiderSimp(d); break;
    case 2: name = "localCompSimp"; n = zx::localCompSimp(d); break;
    case 3: name = "pivotPauliSimp"; n = zx::pivotPauliSimp(d); break;
    case 4: name = "pivotSimp"; n = zx::pivotSimp(d); break;
    case 5: name = "interiorCliffordSimp"; n = zx::interiorCliffordSimp(d); break;
    case 6: name = "cliffordSimp"; n = zx::cliffordSimp(d); break;
    case 7: name = "toGraphlike"; d.toGraphlike(); break;
    case 8: name = "gadgetSimp"; n = zx::gadgetSimp(d); break;
    case 9: name = "pivotgadgetSimp"; n = zx::pivotgadgetSimp(d); break;
    case 10: name = "removeDisconnectedSpiders"; d.removeDisconnectedSpiders(); break;
    default: name = "fullReduce"; zx::fullReduce(d); graphLike = true; break;
    }
    how += " " + name;
    c.desc(how);
    const auto after = zxx::str(d);
    effective += before != after;
    if (before != after) c.label("changed:" + name);
    same(m, d, name);
    if (which <= 4 || which == 8 || which == 9) pbt::require((n == 0) == (before == after), name + " reports " + std::to_string(n) + " simplifications but " + (before == after ? "changes nothing" : "changes the diagram"));
    if (which == 0) pbt::require(!anyVertex(d, zx::checkIdSimp), name + " leaves an identity spider: " + after);
    if (which == 1) pbt::require(!anyEdge(d, zx::checkSpiderFusion), name + " leaves spiders to be fused: " + after);
    if (which == 2) pbt::require(!anyVertex(d, zx::checkLocalComp), name + " leaves a local complementation: " + after);
    if (which == 3) pbt::require(!anyEdge(d, zx::checkPivotPauli), name + " leaves a Pauli pivot: " + after);
    if (which == 4) pbt::require(!anyEdge(d, zx::checkPivot), name + " leaves a pivot: " + after);
    if (which == 5 || which == 6 || which == 11) exhausted(d, name, true, which != 5, which == 11);
    if (which == 7 || which == 11) for (auto& [v, data] : d.getVertices()) pbt::require(data.type != VertexType::X, name + " leaves an X spider: " + after);
    if (which == 10 || which == 11) { // only what is connected to a boundary is left
      std::set<Vertex> seen;
      std::vector<Vertex> todo(d.getInputs());
      todo.insert(todo.end(), d.getOutputs().begin(), d.getOutputs().end());
      while (!todo.empty()) { const auto v = todo.back(); todo.pop_back(); if (seen.insert(v).second) for (auto& e : d.incidentEdges(v)) todo.push_back(e.to); }
      pbt::require(seen.size() == d.getNVertices(), name + " leaves a component without boundary: " + after);
    }
    if (d.isIdentity()) pbt::require(identityMap(d, m), name + ": the diagram is reported as identity but is not: " + after);
  }
  c.nontrivial = effective > 0;
}
// rounding phases: only phases within the tolerance change, and they become multiples of pi/2
void rounding(pbt::Src& s, pbt::Ctx& c) {
  const double tol = s.pick({1e-10, 1e-6, 1e-3, 1e-2, 0.1});
  PiExpression e;
  const bool near = s.coin();
  if (near) e = PiExpression(PiRational((s.range(-2, 2) / 2.0 + tol * (s.unit() * 4 - 2)) * M_PI)); else e = genPhase(s, true);
  const auto before = e;
  std::ostringstream o; o << "round " << e << " with tolerance " << tol;
  c.desc(o.str());
  zx::roundToClifford(e, tol);
  if (!before.isConstant()) { pbt::require(e == before, "a symbolic phase is rounded"); return; }
  const double x = before.getConst().toDoubleDivPi(), y = e.getConst().toDoubleDivPi();
  const double gap = std::abs(x - std::round(2 * x) / 2);
  c.nontrivial = near;
  if (gap < tol * 0.999) {
    pbt::require(zx::isClifford(e), "a phase within the tolerance is not rounded");
    double diff = std::abs(x - y); diff = std::min(diff, 2 - diff);
    pbt::require(diff <= gap + 1e-12, "a phase is not rounded to the nearest multiple of pi/2");
  } else if (gap > tol * 1.001) pbt::require(e == before, "a phase outside the tolerance is rounded");
}
void approximate(pbt::Src& s, pbt::Ctx& c) {
  std::string how;
  auto d = genCircuit(s, how, false);
  const double tol = s.pick({1e-9, 1e-6, 1e-4});
  std::size_t noisy = 0;
  for (auto& [v, data] : d.getVertices()) if (data.type != VertexType::Boundary && s.chance(1, 4)) { const double e = tol * (s.unit() * 1.8 - 0.9) * M_PI; d.addPhase(v, PiExpression(PiRational(e))); ++noisy; how += " noise " + num(e) + " on " + std::to_string(v); }
  c.desc(how + " tolerance " + num(tol));
  const auto m = meaning(d);
  auto e = d;
  e.approximateCliffords(tol);
  const double bound = 20 * tol * static_cast<double>(d.getNVertices() + 1) + 1e-6;
  same(m, e, "approximateCliffords", bound);
  zx::fullReduceApproximate(d, tol);
  c.nontrivial = noisy > 0;
  same(m, d, "fullReduceApproximate", 5 * bound);
  exhausted(d, "fullReduceApproximate", true, true, true);
}
} // namespace

int main(int argc, char** argv) {
  pbt::Suite su;
  su.property = "C41";
  su.rule = "a case is non-trivial if at least one rule applies (two in sequences), a procedure changes the diagram, a phase is close to a multiple of pi/2, or phases are perturbed";
  su.assumptions = {"diagrams with up to 3 inputs and outputs and about 15 spiders, without self-loops and parallel edges; circuits with up to 4 qubits and 14 gates", "diagrams denoting the zero map are excluded (scalars are not tracked); gadget rules only on graph-like diagrams; maps compared up to a non-zero scalar with tolerance 1e-6", "symbolic phases are compared under one generic assignment"};
  su.props = {{"rules", rules, 15000, 700000}, {"sequences", sequences, 10000, 400000}, {"procedures", procedures, 12000, 500000, 30}, {"rounding", rounding, 3000, 100000}, {"approximate", approximate, 1500, 60000, 30}};
  return pbt::mainImpl(su, argc, argv);
}
