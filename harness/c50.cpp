// build: {"libs":["ir","circuit_optimizer"]}
// C50: optimisations of (mostly) unitary circuits preserve the computation and achieve their effect.
#include "optx.hpp"
#include "symspec.hpp"
using namespace optx;

namespace {
GenCfg profile(pbt::Src& s, pbt::Ctx& c, int which) {
  GenCfg g;
  g.maxControls = 2;
  switch (which < 0 ? static_cast<int>(s.below(5)) : which) {
  case 0: g.gates = {"x", "x", "x", "x", "swap", "swap", "z", "h"}; g.maxControls = 1; g.neg = s.chance(1, 3); c.label("profile CNOT/SWAP"); break;
  case 1: g.gates = {"i", "x", "y", "z", "h", "s", "sdg", "t", "tdg", "sx", "sxdg", "rx", "p", "u", "v", "vdg", "x", "h"}; g.maxControls = s.chance(1, 2) ? 0 : 1; c.label("profile one-qubit"); break;
  case 2: c.label("profile all gates"); break;
  case 3: g.gates = {"x", "z", "i", "swap", "rx", "p"}; g.maxControls = 3; c.label("profile controls"); break;
  default: g.gates = {"x", "swap", "swap", "swap", "cx", "iswap", "dcx", "h", "rzz", "ecr"}; g.gates[4] = "x"; g.ctrlTwo = s.coin(); c.label("profile SWAP"); break;
  }
  g.barriers = s.chance(1, 3);
  g.compounds = s.coin();
  g.gphaseOps = s.chance(1, 4);
  if (s.chance(1, 3)) { g.measures = g.resets = g.ifs = true; g.multiMeasure = s.coin(); g.compoundNonUnitary = s.coin(); g.ifCompound = s.coin(); c.label("dynamic"); }
  return g;
}
LC genCircuit(pbt::Src& s, pbt::Ctx& c, int which) {
  LC l;
  const auto g = profile(s, c, which);
  l.c.nq = static_cast<unsigned>(s.sized(1, 4));
  l.c.nc = g.measures ? static_cast<unsigned>(s.range(1, 3)) : 0;
  l.c.ops = genOps(s, l.c.nq, l.c.nc, g, g.measures ? 9 : 16);
  // bias: adjacent gates on the same qubits, also reversed
  if (s.coin()) for (std::size_t i = 0; i + 1 < l.c.ops.size(); ++i) if (s.chance(1, 3)) {
    auto& a = l.c.ops[i]; auto& b = l.c.ops[i + 1];
    if (b.kind != Op::U || a.kind != Op::U || a.g == "gphase") continue;
    b = a;
    if (b.g == "x" && b.cs.size() == 1 && b.cs[0].pos && s.coin()) std::swap(b.ts[0], b.cs[0].q);
    else if (b.g == "x" && b.cs.size() == 1 && s.coin() && b.cs[0].pos) { b.g = "swap"; b.ts = {a.ts[0], a.cs[0].q}; b.cs.clear(); }
  }
  // bias: runs of CNOTs (both directions, sometimes a negative control) and SWAPs on one pair of qubits
  if (l.c.nq > 1 && s.chance(1, 4)) {
    const auto p = s.range(0, static_cast<int>(l.c.nq) - 2);
    const unsigned a = static_cast<unsigned>(p), b = static_cast<unsigned>(s.range(p + 1, static_cast<int>(l.c.nq) - 1));
    std::vector<Op> run;
    const int n = s.range(2, 6);
    bool dir = s.coin();
    for (int i = 0; i < n; ++i) {
      Op o; o.kind = Op::U;
      if (s.chance(1, 6)) { o.g = "swap"; o.ts = {a, b}; if (s.coin()) std::swap(o.ts[0], o.ts[1]); }
      else { o.g = "x"; o.ts = {dir ? a : b}; o.cs = {{dir ? b : a, !s.chance(1, 5)}}; }
      if (!s.chance(1, 5)) dir = !dir;
      run.push_back(std::move(o));
    }
    const auto at = s.below(l.c.ops.size() + 1);
    l.c.ops.insert(l.c.ops.begin() + static_cast<std::ptrdiff_t>(at), run.begin(), run.end());
    c.label("run of CNOTs");
  }
  if (s.chance(1, 3)) l.c.gphase = genAngle(s);
  for (unsigned i = 0; i < l.c.nq; ++i) l.in[i] = l.out[i] = i;
  if (s.chance(1, 2)) { l.in = genPerm(s, l.c.nq); l.out = genPerm(s, l.c.nq); c.label("layouts"); }
  if (s.chance(1, 4) && l.c.nq > 1) { for (unsigned i = static_cast<unsigned>(s.range(1, static_cast<int>(l.c.nq) - 1)); i > 0; --i) l.out.erase(static_cast<unsigned>(s.below(l.c.nq))); c.label("garbage"); }
  c.nontrivial = flat(l.c.ops).size() >= 3;
  return l;
}
bool isCX(const Op& o) { return o.kind == Op::U && o.g == "x" && !o.cs.empty(); }
bool isSwap(const Op& o) { return o.kind == Op::U && o.g == "swap" && o.cs.empty(); }
bool isId(const Op& o) { return o.kind == Op::U && o.g == "i"; }

std::set<unsigned> qubitsOf(const std::vector<Op>& ops) {
  std::set<unsigned> r;
  for (auto& o : flat(ops)) { for (auto q : o.ts) r.insert(q); for (auto& k : o.cs) r.insert(k.q); auto b = qubitsOf(o.body); r.insert(b.begin(), b.end()); }
  return r;
}
// the operations on each qubit outside of those a pass may touch stay the same
void noNewQubits(const LC& a, const LC& b, const std::string& what) {
  const auto x = qubitsOf(a.c.ops), y = qubitsOf(b.c.ops);
  pbt::require(std::includes(x.begin(), x.end(), y.begin(), y.end()), what + ": the result touches qubits the circuit did not use: " + show(b));
}
void layoutsKept(const LC& a, const LC& b, const std::string& what) {
  pbt::require(a.in == b.in && a.out == b.out, what + ": the layouts changed: " + show(b));
}
std::vector<Op> withoutKind(const std::vector<Op>& ops, const std::function<bool(const Op&)>& f) {
  std::vector<Op> r;
  for (auto& o : flat(ops)) if (!f(o)) r.push_back(o);
  return r;
}
std::size_t nQubits(const Op& o) { return o.ts.size() + o.cs.size(); }
std::vector<Op> multiset(std::vector<Op> v) { std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return spec::show(a) < spec::show(b); }); return v; }

// applies pass k to q and judges the result
std::string apply(pbt::Src& s, int k, qc::QuantumComputation& q, pbt::Ctx& c) {
  const LC a = capture(q);
  std::string name;
  bool layouts = true;
  LC b;
  switch (k) {
  case 0: name = "swapReconstruction"; CO::swapReconstruction(q); b = capture(q); break;
  case 1: name = "singleQubitGateFusion"; CO::singleQubitGateFusion(q); b = capture(q);
    pbt::require(!anyTop(b.c.ops, isId), name + ": an identity is left: " + show(b)); break;
  case 2: name = "cancelCNOTs"; CO::cancelCNOTs(q); b = capture(q); break;
  case 3: case 4: {
    name = k == 3 ? "decomposeSWAP" : "decomposeSWAP directed";
    CO::decomposeSWAP(q, k == 4); b = capture(q);
    pbt::require(!anyTop(b.c.ops, isSwap), name + ": a SWAP is left: " + show(b));
    if (k == 4) { // every CNOT of a decomposition has the direction of the SWAP's targets
      std::set<std::pair<unsigned, unsigned>> ok;
      for (auto& o : flat(a.c.ops)) { if (isSwap(o)) ok.insert({o.ts[0], o.ts[1]}); if (isCX(o) && o.cs.size() == 1) ok.insert({o.cs[0].q, o.ts[0]}); }
      for (auto& o : flat(b.c.ops)) if (isCX(o) && o.cs.size() == 1) pbt::require(ok.count({o.cs[0].q, o.ts[0]}) > 0, name + ": a CNOT against the direction: " + show(b));
    }
    break; }
  case 5: name = "replaceMCXWithMCZ"; CO::replaceMCXWithMCZ(q); b = capture(q);
    pbt::require(!anyTop(b.c.ops, isCX), name + ": a controlled X is left: " + show(b)); break;
  case 6: {
    name = "removeIdentities"; CO::removeIdentities(q); b = capture(q);
    pbt::require(same(flat(b.c.ops), withoutKind(a.c.ops, isId)), name + ": other operations than identities changed: " + show(b)); break; }
  case 7: case 8: {
    name = "flattenOperations"; CO::flattenOperations(q, false); b = capture(q);
    pbt::require(same(b.c.ops, flat(a.c.ops)), name + ": not the flat sequence of operations: " + show(b)); break; }
  case 9: {
    name = "reorderOperations"; q.reorderOperations(); b = capture(q);
    pbt::require(same(multiset(a.c.ops), multiset(b.c.ops)), name + ": not a reordering: " + show(b)); break; }
  case 10: {
    name = "elidePermutations"; layouts = false; CO::elidePermutations(q); b = capture(q);
    pbt::require(!anyTop(b.c.ops, isSwap), name + ": a SWAP is left: " + show(b));
    pbt::require(b.in.size() == a.in.size() && b.out.size() == a.out.size(), name + ": the layouts lost entries: " + show(b));
    if (!a.c.ops.empty()) for (auto& [p, l] : b.in) pbt::require(p == l, name + ": the initial layout is not the identity: " + show(b));
    break; }
  default: {
    name = "backpropagateOutputPermutation"; CO::backpropagateOutputPermutation(q); b = capture(q);
    pbt::require(same(a.c.ops, b.c.ops) && a.out == b.out, name + ": the operations or the output permutation changed: " + show(b));
    // following the SWAPs from the new initial layout leads to the output permutation
    std::set<unsigned> ls;
    auto at = b.in;
    for (auto& [p, l] : at) { pbt::require(p < a.c.nq && l < a.c.nq && ls.insert(l).second, name + ": not a permutation: " + show(b)); }
    pbt::require(at.size() == a.c.nq, name + ": incomplete initial layout: " + show(b));
    for (auto& o : flat(b.c.ops)) if (isSwap(o)) std::swap(at[o.ts[0]], at[o.ts[1]]);
    for (auto& [p, l] : b.out) pbt::require(at[p] == l, name + ": the SWAPs do not lead from the initial layout to the output permutation: " + show(b));
    c.label(name);
    return name; }
  }
  if (k != 10) noNewQubits(a, b, name);
  if (layouts) layoutsKept(a, b, name);
  if (k != 10) sameEffect(a, b, name);
  else if (!a.c.ops.empty()) {
    // the elided circuit lives on the logical qubits
    sameEffect(a, b, name);
  }
  if (spec::show(a.c.ops) != spec::show(b.c.ops)) c.label(name + " changed the circuit");
  c.label(name);
  return name;
}
void single(pbt::Src& s, pbt::Ctx& c) {
  static const int WHICH[] = {0, 1, 0, 4, 4, 3, -1, -1, -1, -1, 4, 4};
  const int k = static_cast<int>(s.below(12));
  auto l = genCircuit(s, c, s.chance(3, 4) ? WHICH[k] : -1);
  c.desc("pass " + std::to_string(k) + " on " + show(l));
  auto q = make(l);
  apply(s, k, q, c);
}
void sequences(pbt::Src& s, pbt::Ctx& c) {
  auto l = genCircuit(s, c, -1);
  std::string d = show(l) + " passes:";
  auto q = make(l);
  bool effect = true;
  const int n = s.range(2, 6);
  for (int i = 0; i < n; ++i) {
    const int k = static_cast<int>(s.below(11));
    d += " " + std::to_string(k);
    c.desc(d);
    apply(s, k, q, c);
    (void)effect;
  }
  sameEffect(l, capture(q), "the whole sequence");
}
// selected gates of a selected size, everything else stays
void removal(pbt::Src& s, pbt::Ctx& c) {
  auto l = genCircuit(s, c, static_cast<int>(s.pick({0, 1, 3, 4})));
  std::unordered_set<qc::OpType> types;
  std::set<std::string> names;
  const int n = s.range(1, 3);
  for (int i = 0; i < n; ++i) { auto g = s.pick<std::string>({"x", "h", "swap", "z", "i", "s", "p", "barrier", "gphase"}); names.insert(g); types.insert(g == "barrier" ? qc::Barrier : g == "gphase" ? qc::GPhase : opType(g)); }
  const std::size_t size = s.below(4);
  std::string d = show(l) + " remove";
  for (auto& x : names) d += " " + x;
  c.desc(d + " of size " + std::to_string(size));
  auto q = make(l);
  l = capture(q);
  CO::removeOperation(q, types, size);
  const auto b = capture(q);
  auto want = withoutKind(l.c.ops, [&](const Op& o) { return ((o.kind == Op::U && names.count(o.g)) || (o.kind == Op::Barrier && names.count("barrier"))) && (size == 0 || nQubits(o) == size); });
  pbt::require(same(flat(b.c.ops), want), "removeOperation left " + show(b));
  pbt::require(l.in == b.in && l.out == b.out && l.c.gphase == b.c.gphase, "removeOperation changed the layouts or the phase: " + show(b));
  pbt::require(!anyTop(b.c.ops, [](const Op& o) { return o.kind == Op::Compound && o.body.empty(); }), "removeOperation left an empty compound operation: " + show(b));
  if (want.size() < flat(l.c.ops).size()) c.label("removed something");
}
// only custom gates are flattened
void customOnly(pbt::Src& s, pbt::Ctx& c) {
  auto l = genCircuit(s, c, 2);
  std::vector<Op> want;
  auto q = frame(l.c);
  std::string d = "customs:";
  for (auto& o : l.c.ops) {
    if (o.kind == Op::Compound && s.coin()) {
      std::vector<std::unique_ptr<qc::Operation>> v;
      for (auto& b : o.body) { v.push_back(makeOp(b, &q)); want.push_back(extract(*v.back())); }
      q.emplace_back<qc::CompoundOperation>(std::move(v), true);
      d += " {" + spec::show(o.body) + "}";
      c.label("custom gates");
    } else { q.emplace_back(makeOp(o, &q)); want.push_back(extract(*q.back())); }
  }
  c.desc(show(l) + d);
  CO::flattenOperations(q, true);
  const auto b = capture(q);
  pbt::require(same(b.c.ops, want), "flattenOperations(customGatesOnly) left " + show(b));
}
// gates with symbolic parameters keep their parameters and their place
void symbolic(pbt::Src& s, pbt::Ctx& c) {
  const auto nq = static_cast<unsigned>(s.sized(1, 4));
  const auto g = [&] { auto x = profile(s, c, static_cast<int>(s.pick({0, 1, 3, 4}))); x.measures = x.resets = x.ifs = x.compoundNonUnitary = false; return x; }();
  qc::QuantumComputation q(nq);
  std::string d;
  unsigned sym = 0;
  auto one = [&]() -> std::unique_ptr<qc::Operation> {
    if (s.chance(1, 3)) { auto o = symspec::gen(s, nq); d += symspec::show(o) + "; "; ++sym; return symspec::make(o); }
    auto o = genGate(s, nq, g); d += spec::show(o) + "; "; return makeOp(o);
  };
  const int n = s.sized(1, 12);
  for (int i = 0; i < n; ++i) {
    if (s.chance(1, 5)) {
      std::vector<std::unique_ptr<qc::Operation>> v;
      d += "{";
      for (int k = s.range(1, 4); k > 0; --k) v.push_back(one());
      d += "} ";
      q.emplace_back<qc::CompoundOperation>(std::move(v));
    } else q.emplace_back(one());
  }
  symspec::Assign a;
  double val = 0.3;
  for (auto& v : symspec::vars()) a[v] = val *= -1.7;
  const int k = static_cast<int>(s.below(9));
  c.desc("pass " + std::to_string(k) + " on " + d);
  c.nontrivial = sym > 0 && n >= 3;
  auto circ = [&] { LC l; l.c.nq = nq; l.c.gphase = q.getGlobalPhase(); l.c.ops = symspec::extract(q, a); for (unsigned i = 0; i < nq; ++i) l.in[i] = l.out[i] = i; return l; };
  const auto before = circ();
  switch (k) {
  case 0: CO::swapReconstruction(q); break;
  case 1: CO::singleQubitGateFusion(q); break;
  case 2: CO::cancelCNOTs(q); break;
  case 3: CO::decomposeSWAP(q, false); break;
  case 4: CO::decomposeSWAP(q, true); break;
  case 5: CO::replaceMCXWithMCZ(q); break;
  case 6: CO::removeIdentities(q); break;
  case 7: CO::flattenOperations(q); break;
  default: q.reorderOperations(); break;
  }
  sameEffect(before, circ(), "pass on a symbolic circuit");
}
} // namespace

int main(int argc, char** argv) {
  pbt::Suite su;
  su.property = "C50";
  su.rule = "a case is non-trivial if the circuit has at least three elementary operations";
  su.assumptions = {"up to 4 qubits, 3 bits and 16 operations; compound nesting up to depth 2", "bodies of classically controlled operations are not rewritten by the passes"};
  su.props = {{"single", single, 30000, 1500000}, {"sequences", sequences, 10000, 500000}, {"removal", removal, 8000, 300000}, {"customOnly", customOnly, 3000, 100000}, {"symbolic", symbolic, 8000, 400000}};
  return pbt::mainImpl(su, argc, argv);
}
