// build: {"libs": ["ir", "datastructures"]}
// C71: the executable layer of a circuit respects all its dependencies.
#include "pbt.hpp"
#include "spec.hpp"
#include "datastructures/Layer.hpp"
#include "ir/operations/StandardOperation.hpp"
#include <map>
#include <set>
using namespace pbt;
using ref::Vec;

namespace {
// one circuit element: the operation and the elementary gates it stands for
struct El { spec::Op one; std::vector<unsigned> on; bool multi = false; }; // multi: the single-qubit gate on every qubit of `on`
std::string show(const El& e) {
  if (!e.multi) return spec::show(e.one);
  std::string r = spec::show(e.one) + "@{";
  for (auto q : e.on) r += std::to_string(q) + ",";
  return r + "}";
}
void apply(Vec& v, const El& e) {
  if (!e.multi) { spec::applyUnitary(v, e.one); return; }
  for (auto q : e.on) { auto o = e.one; o.ts = {q}; spec::applyUnitary(v, o); }
}
std::unique_ptr<qc::Operation> make(const El& e) {
  if (!e.multi) return spec::makeOp(e.one);
  qc::Targets t(e.on.begin(), e.on.end());
  return std::make_unique<qc::StandardOperation>(t, spec::opType(e.one.g), e.one.p);
}
// the same gate with inverse effect, for the gates used in pairs
bool invertible(const std::string& g) { static const std::set<std::string> s{"x", "y", "z", "h", "rx", "ry", "rz", "p", "s", "sdg", "t", "tdg", "swap", "rxx", "rzz", "i"}; return s.count(g) > 0; }
void invert(spec::Op& o) {
  static const std::map<std::string, std::string> sw{{"s", "sdg"}, {"sdg", "s"}, {"t", "tdg"}, {"tdg", "t"}};
  if (auto it = sw.find(o.g); it != sw.end()) o.g = it->second;
  for (auto& x : o.p) x = -x;
}
std::vector<unsigned> used(const El& e) {
  if (e.multi) return e.on;
  auto u = spec::makeOp(e.one)->getUsedQubits();
  return {u.begin(), u.end()};
}
std::vector<El> genCirc(Src& s, unsigned n, int flavour, int maxLen) {
  spec::GenCfg g;
  g.maxControls = 2; g.barriers = flavour == 3; g.compounds = flavour == 3; g.gphaseOps = flavour == 3;
  if (flavour == 0) g.gates = {"z", "rz", "p", "x", "h", "s", "cz", "rzz"};
  if (flavour == 0) g.gates = {"z", "rz", "p", "x", "h", "s", "rzz", "z", "x"};
  if (flavour == 1) g.gates = {"rx", "ry", "rz", "z", "x", "rxx", "swap"};
  std::vector<El> els;
  const unsigned len = static_cast<unsigned>(s.sized(1, maxLen));
  for (unsigned i = 0; i < len; ++i) {
    El e;
    const auto m = s.below(10);
    if (m < 3 && !els.empty()) { // the inverse, or a copy, of an earlier element
      e = els[els.size() - 1 - s.below(std::min<std::size_t>(els.size(), 5))];
      if (e.one.kind != spec::Op::U || !invertible(e.one.g)) { if (s.coin()) continue; } else if (s.chance(3, 4)) invert(e.one);
    } else if (m < 5) {
      e.one.kind = spec::Op::U;
      e.one.g = s.pick<std::string>({"ry", "rz", "rx", "x", "h", "s"});
      if (e.one.g[0] == 'r') e.one.p = {s.pick<double>({M_PI_2, M_PI_4, -M_PI_2, 0.3})};
      e.multi = true;
      for (unsigned q = 0; q < n; ++q) if (flavour == 2 || s.chance(3, 4)) e.on.push_back(q);
      if (e.on.empty()) e.on.push_back(static_cast<unsigned>(s.below(n)));
      e.one.ts = {e.on[0]};
    } else e.one = spec::genOp(s, n, 0, g);
    els.push_back(e);
  }
  return els;
}
void run(Src& s, Ctx& c, unsigned n, const std::vector<El>& els) {
  const bool comm = s.chance(3, 4);
  std::string d = std::to_string(n) + "q" + (comm ? "" : " non-commutable") + ": ";
  qc::QuantumComputation q(n);
  for (auto& e : els) { q.emplace_back(make(e)); d += show(e) + "; "; }
  c.desc(d);
  std::map<const qc::Operation*, std::size_t> idx;
  for (std::size_t i = 0; i < q.size(); ++i) idx[q.at(i).get()] = i;
  require(idx.size() == els.size(), "harness: operations not distinct");
  qc::Layer layer;
  switch (s.below(3)) { // however the layer came into being
  case 0: layer = qc::Layer(q, comm); break;
  case 1: { auto other = qc::Layer(q, comm); qc::Layer third(std::move(other)); layer = std::move(third); break; }
  default: { auto keep = std::make_unique<qc::Layer>(q, comm); layer = *keep; break; }
  }
  const auto how = s.below(5); // order of choice: random, circuit order, reverse, newest first, oldest type
  std::vector<std::size_t> order;
  std::set<std::size_t> done;
  std::vector<std::shared_ptr<qc::Layer::DAGVertex>> past;
  std::string od = " order:";
  unsigned choices = 0;
  while (done.size() < els.size()) {
    std::map<std::size_t, std::shared_ptr<qc::Layer::DAGVertex>> ready;
    for (auto& v : layer.getExecutableSet()) {
      require(idx.count(v->getOperation()) == 1, "an operation that is not in the circuit is reported as executable: " + d);
      const auto i = idx.at(v->getOperation());
      require(v->isExecutable() && !v->isExecuted() && done.count(i) == 0, "operation " + std::to_string(i) + " is reported as executable but is not: " + d + od);
      require(ready.emplace(i, v).second, "operation reported twice: " + d + od);
    }
    require(!ready.empty(), "no operation is executable although " + std::to_string(els.size() - done.size()) + " are left: " + d + od);
    choices += ready.size() > 1;
    // reported executables of a kind
    if (s.chance(1, 4)) {
      auto& some = std::next(ready.begin(), static_cast<long>(s.below(ready.size())))->second;
      auto ty = s.chance(1, 4) ? qc::OpType::Z : some->getOperation()->getType();
      auto nc = s.chance(1, 4) ? std::size_t{1} : some->getOperation()->getNcontrols();
      std::set<std::size_t> want, got;
      for (auto& [i, v] : ready) if (v->getOperation()->getType() == ty && v->getOperation()->getNcontrols() == nc) want.insert(i);
      for (auto& v : layer.getExecutablesOfType(ty, nc)) require(got.insert(idx.at(v->getOperation())).second, "getExecutablesOfType repeats an operation: " + d + od);
      require(want == got, "getExecutablesOfType reports the wrong operations: " + d + od);
      // interaction graph: one edge per executable two-qubit operation of the kind
      const bool ok = nc == 1 && !qc::isTwoQubitGate(ty) && ty != qc::GPhase && ty != qc::Barrier && ty != qc::Compound;
      std::map<std::pair<qc::Qubit, qc::Qubit>, std::size_t> pairs;
      bool dup = false, multi = false;
      for (auto i : want) { auto u = q.at(i)->getUsedQubits(); if (u.size() != 2) { multi = true; continue; } dup |= !pairs.emplace(std::pair(*u.begin(), *u.rbegin()), i).second; }
      bool threw = false;
      try {
        auto g = layer.constructInteractionGraph(ty, nc);
        require(g.getNEdges() == pairs.size(), "interaction graph has " + std::to_string(g.getNEdges()) + " edges, " + std::to_string(pairs.size()) + " expected: " + d + od);
        for (auto& [p, i] : pairs) { require(g.isAdjacent(p.first, p.second), "interaction graph misses an edge: " + d + od); require(g.getEdge(p.first, p.second) == ready.at(i), "interaction graph labels an edge with the wrong operation: " + d + od); }
        if (!pairs.empty()) c.label("interaction graph");
      } catch (const std::invalid_argument&) { threw = true; }
      require(!(threw && ok && !dup && !multi), "interaction graph refused for executable two-qubit operations: " + d + od);
      require(!(!threw && (!ok || dup || multi)), "interaction graph accepted for operations it cannot represent: " + d + od);
    }
    // executing something again must be refused
    if (!past.empty() && s.chance(1, 4)) { bool t = false; try { s.pick(past)->execute(); } catch (const std::logic_error&) { t = true; } require(t, "an executed operation could be executed again: " + d + od); }
    auto it = ready.begin();
    switch (how) {
    case 1: break;
    case 2: it = std::prev(ready.end()); break;
    default: it = std::next(ready.begin(), static_cast<long>(s.below(ready.size())));
    }
    if (how == 1) { std::size_t first = 0; while (done.count(first)) ++first; require(it->first == first, "operation " + std::to_string(first) + " is not executable although everything before it has been executed: " + d + od); }
    auto v = it->second;
    const auto i = it->first;
    od += " " + std::to_string(i);
    c.desc(d + od);
    v->execute();
    require(v->isExecuted() && !v->isExecutable(), "an executed operation does not say so: " + d + od);
    require(layer.getExecutableSet().count(v) == 0, "an executed operation stays executable: " + d + od);
    done.insert(i);
    order.push_back(i);
    past.push_back(v);
  }
  require(layer.getExecutableSet().empty(), "operations stay executable after all were executed: " + d + od);
  const bool moved = !std::is_sorted(order.begin(), order.end());
  if (moved) {
    double worst = 0;
    for (std::size_t k = 0; k < (std::size_t{1} << n); ++k) {
      auto a = spec::basis(n, k), b = a;
      for (auto& e : els) apply(a, e);
      for (auto i : order) apply(b, els[i]);
      worst = std::max(worst, ref::dist(a, b));
    }
    require(worst < 1e-8, "the order of execution implements another unitary (difference " + spec::num(worst) + "): " + d + od);
    c.label("reordered");
  }
  c.nontrivial = moved || choices > 0;
  if (how == 1) c.label("in circuit order");
  for (auto& e : els) if (e.multi) { c.label("multi-target operation"); break; }
}
void diagonal(Src& s, Ctx& c) { auto n = static_cast<unsigned>(s.range(2, 5)); run(s, c, n, genCirc(s, n, 0, 14)); }
void rotations(Src& s, Ctx& c) { auto n = static_cast<unsigned>(s.range(2, 5)); run(s, c, n, genCirc(s, n, 1, 14)); }
void global(Src& s, Ctx& c) { auto n = static_cast<unsigned>(s.range(2, 5)); run(s, c, n, genCirc(s, n, 2, 14)); }
void anything(Src& s, Ctx& c) { auto n = static_cast<unsigned>(s.range(1, 5)); run(s, c, n, genCirc(s, n, 3, 12)); }
} // namespace

int main(int argc, char** argv) {
  Suite su;
  su.property = "C71";
  su.rule = "one case = a circuit of unitary operations (including inverse pairs, copies, multi-target and global rotations, compounds, barriers) executed through the layer in a generated order (random, circuit order, last first) until nothing is left; the order's unitary is compared with the circuit's on all basis states, reported sets and interaction graphs with a recount; non-trivial = at least one real choice; distinct by circuit and order";
  su.assumptions = {"circuits of unitary operations and barriers, up to 5 qubits and 14 operations", "two executable operations of the requested kind on the same pair of qubits may be refused by the interaction graph"};
  su.props = {{"diagonal", diagonal, 20000, 600000}, {"rotations", rotations, 20000, 600000}, {"global", global, 20000, 600000}, {"anything", anything, 20000, 600000}};
  return mainImpl(su, argc, argv);
}
