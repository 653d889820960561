// build: {"libs":["ir","circuit_optimizer"]}
// C52: block collection keeps the operations and the effect and respects the block size.
#include "optx.hpp"
using namespace optx;

namespace {
bool isId(const Op& o) { return o.kind == Op::U && o.g == "i"; }
std::set<unsigned> qubitsOf(const std::vector<Op>& ops) {
  std::set<unsigned> r;
  for (auto& o : ops) { r.insert(o.ts.begin(), o.ts.end()); for (auto& k : o.cs) r.insert(k.q); auto b = qubitsOf(o.body); r.insert(b.begin(), b.end()); }
  return r;
}
std::vector<std::string> multiset(const std::vector<Op>& ops) { std::vector<std::string> r; for (auto& o : flat(ops)) if (!isId(o)) r.push_back(show(o)); std::sort(r.begin(), r.end()); return r; }
bool disturbs(const Op& o, unsigned q) {
  static const std::set<std::string> diag{"i", "z", "s", "sdg", "t", "tdg", "p", "rz", "rzz", "gphase"};
  if (o.kind == Op::U) return !diag.count(o.g) && std::count(o.ts.begin(), o.ts.end(), q);
  if (o.kind == Op::Reset) return std::count(o.ts.begin(), o.ts.end(), q);
  return std::any_of(o.body.begin(), o.body.end(), [&](auto& b) { return disturbs(b, q); });
}
void blockShape(const std::vector<Op>& before, const LC& b, std::size_t maxSize) {
  for (auto& o : b.c.ops) if (o.kind == Op::Compound) {
    if (qubitsOf({o}).size() <= maxSize) continue;
    // identities inside of kept operations may have been removed
    bool kept = false;
    for (auto& p : before) if (p.kind == Op::Compound && multiset({p}) == multiset({o})) kept = true;
    pbt::require(kept, "a block acts on more than " + std::to_string(maxSize) + " qubits: " + show(o));
  }
}
void unitaryBlocks(pbt::Src& s, pbt::Ctx& c) {
  GenCfg g;
  g.maxControls = static_cast<unsigned>(s.below(4));
  switch (s.below(4)) {
  case 0: break;
  case 1: g.gates = {"x", "x", "h"}; g.maxControls = 1; break;
  case 2: g.gates = {"h", "t", "x", "x", "swap", "rzz"}; break;
  default: g.gates = {"x", "x", "ry", "i"}; break;
  }
  g.compounds = s.chance(1, 3); g.barriers = s.chance(1, 3); g.gphaseOps = s.chance(1, 5);
  LC l;
  l.c.nq = static_cast<unsigned>(s.sized(1, 6));
  l.c.ops = genOps(s, l.c.nq, 0, g, 18);
  if (s.chance(1, 4)) l.c.gphase = genAngle(s);
  for (unsigned i = 0; i < l.c.nq; ++i) l.in[i] = l.out[i] = i;
  if (s.chance(1, 3)) { l.in = genPerm(s, l.c.nq); l.out = genPerm(s, l.c.nq); c.label("layouts"); }
  const auto maxSize = static_cast<std::size_t>(s.range(0, static_cast<int>(l.c.nq) + 1));
  c.desc("max block size " + std::to_string(maxSize) + " on " + show(l));
  auto q = make(l);
  const auto a = capture(q);
  CO::collectBlocks(q, maxSize);
  const auto b = capture(q);
  std::size_t blocks = 0;
  for (auto& o : b.c.ops) blocks += o.kind == Op::Compound;
  c.nontrivial = blocks > 0 && b.c.ops.size() > 1;
  pbt::require(a.in == b.in && a.out == b.out, "collectBlocks changed the layouts");
  pbt::require(multiset(a.c.ops) == multiset(b.c.ops), "collectBlocks does not keep every operation exactly once: " + show(b));
  blockShape(a.c.ops, b, maxSize);
  sameEffect(a, b, "collectBlocks");
  CO::collectBlocks(q, maxSize);
  sameEffect(a, capture(q), "collectBlocks, twice");
}
void dynamicBlocks(pbt::Src& s, pbt::Ctx& c) {
  GenCfg g;
  g.maxControls = static_cast<unsigned>(s.below(3));
  if (s.coin()) g.gates = {"h", "x", "x", "t", "swap"};
  g.resets = s.chance(2, 3); g.measures = s.coin(); g.ifs = s.coin(); g.barriers = s.chance(1, 4); g.compounds = s.chance(1, 3); g.compoundNonUnitary = s.coin();
  Circ t;
  t.nq = static_cast<unsigned>(s.sized(1, 5)); t.nc = static_cast<unsigned>(s.range(1, 3));
  t.ops = genOps(s, t.nq, t.nc, g, 14);
  { // measured qubits are not disturbed afterwards (C51-defer-past-gate)
    std::vector<Op> r; std::set<unsigned> done;
    for (auto& o : t.ops) {
      if (std::any_of(done.begin(), done.end(), [&](auto q) { return disturbs(o, q); })) continue;
      for (auto& x : flat({o})) if (x.kind == Op::Measure) done.insert(x.ts.begin(), x.ts.end());
      r.push_back(o);
    }
    t.ops = r;
  }
  for (int k = s.range(0, 2); k > 0; --k) { Op m; m.kind = Op::Measure; m.ts = {static_cast<unsigned>(s.below(t.nq))}; m.bits = {static_cast<unsigned>(s.below(t.nc))}; t.ops.push_back(m); }
  const auto maxSize = static_cast<std::size_t>(s.range(0, static_cast<int>(t.nq) + 1));
  c.desc("max block size " + std::to_string(maxSize) + " on " + show(t));
  LC l; l.c = t;
  for (unsigned i = 0; i < t.nq; ++i) l.in[i] = l.out[i] = i;
  auto q = make(l);
  const auto start = capture(q);
  bool refused = false;
  try { CO::collectBlocks(q, maxSize); } catch (const std::runtime_error&) { refused = true; c.label("refused"); }
  const auto b = capture(q);
  c.nontrivial = !refused && !qcmp::isUnitary(t.ops) && std::any_of(b.c.ops.begin(), b.c.ops.end(), [](auto& o) { return o.kind == Op::Compound; });
  const bool dyn = std::any_of(t.ops.begin(), t.ops.end(), [](auto& o) { return o.kind == Op::Measure || o.kind == Op::If; }) || anyTop(t.ops, [](auto& o) { return o.kind == Op::Measure || o.kind == Op::If; });
  pbt::require(!refused || dyn, "collectBlocks refuses a circuit without measurements and conditions");
  pbt::require(b.c.nq == t.nq && b.c.nc == t.nc, "collectBlocks changed the number of qubits or bits");
  if (!refused) blockShape(start.c.ops, b, maxSize);
  if (!dyn) pbt::require(multiset(start.c.ops) == multiset(b.c.ops), "collectBlocks does not keep every operation exactly once: " + show(b));
  std::set<unsigned> measured;
  for (auto& o : flat(t.ops)) if (o.kind == Op::Measure) measured.insert(o.ts.begin(), o.ts.end());
  Perm keep;
  for (unsigned i = 0; i < t.nq; ++i) if (!measured.count(i)) keep[i] = i;
  const auto v = qcmp::randomState(t.nq);
  const double d = qcmp::distRho(outputs(runAll(t.ops, t.nq, t.nc, v), keep, t.nq), outputs(runAll(b.c.ops, t.nq, t.nc, v), keep, t.nq));
  pbt::require(d < 1e-7, std::string(refused ? "collectBlocks throws but changes" : "collectBlocks changes") + " the effect (distance " + num(d) + "): " + show(b));
}
} // namespace

int main(int argc, char** argv) {
  pbt::Suite su;
  su.property = "C52";
  su.rule = "a case is non-trivial if at least one block is formed and more than one operation remains (unitary), or a block is formed in a circuit with measurements, resets or conditions (dynamic)";
  su.assumptions = {"up to 6 qubits and 18 operations (5 qubits, 3 bits and 16 operations with measurements, resets or conditions)"};
  su.props = {{"unitary", unitaryBlocks, 25000, 1200000}, {"dynamic", dynamicBlocks, 15000, 700000}};
  return pbt::mainImpl(su, argc, argv);
}
