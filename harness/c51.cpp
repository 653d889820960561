// build: {"libs":["ir","circuit_optimizer"]}
// C51: passes around measurements and resets preserve the distribution of the classical bits.
#include "optx.hpp"
using namespace optx;

namespace {
bool diagonal(const std::string& g) { static const std::set<std::string> d{"i", "z", "s", "sdg", "t", "tdg", "p", "rz", "rzz", "gphase"}; return d.count(g) > 0; }
// whether the operation may change the outcome of measuring q
bool disturbs(const Op& o, unsigned q) {
  switch (o.kind) {
  case Op::U: return !diagonal(o.g) && std::find(o.ts.begin(), o.ts.end(), q) != o.ts.end();
  case Op::Reset: return std::find(o.ts.begin(), o.ts.end(), q) != o.ts.end();
  case Op::Compound: case Op::If: return std::any_of(o.body.begin(), o.body.end(), [&](auto& b) { return disturbs(b, q); });
  default: return false;
  }
}
void qubits(const Op& o, std::set<unsigned>& r) { r.insert(o.ts.begin(), o.ts.end()); for (auto& k : o.cs) r.insert(k.q); for (auto& b : o.body) qubits(b, r); }
std::set<unsigned> condBits(const Op& o) { std::set<unsigned> r; for (unsigned i = 0; i < (o.condReg ? o.condSize : 1); ++i) r.insert(o.condStart + i); return r; }

GenCfg dynamicCfg(pbt::Src& s) {
  GenCfg g;
  g.maxControls = static_cast<unsigned>(s.below(3));
  g.measures = true;
  g.ifs = s.chance(4, 5);
  g.barriers = s.chance(1, 3);
  g.cmpKinds = s.coin();
  switch (s.below(4)) {
  case 0: break;
  case 1: g.gates = {"h", "x", "z", "s", "t", "p", "rz", "rzz", "swap", "ry"}; break;
  case 2: g.gates = {"z", "s", "p", "rz", "rzz", "t", "z", "h"}; break;
  default: g.gates = {"h", "x", "x", "u", "rx"}; break;
  }
  return g;
}
// conditions on single bits as well as on ranges of bits
void varyConditions(pbt::Src& s, std::vector<Op>& ops, unsigned nc, bool single) {
  for (auto& o : ops) {
    if (o.kind == Op::If) {
      if (single || s.coin()) { o.condReg = s.coin(); o.condStart = static_cast<unsigned>(s.below(nc)); o.condSize = 1; o.val = o.condReg && s.chance(1, 12) ? 2 : s.below(2); o.cmp = s.chance(1, 3) ? s.range(0, o.condReg ? 5 : 1) : 0; }
      else { o.condReg = true; o.condStart = static_cast<unsigned>(s.below(nc)); o.condSize = static_cast<unsigned>(s.range(1, static_cast<int>(nc - o.condStart))); o.val = s.below(1ULL << o.condSize); }
    }
    if (o.kind == Op::Compound) varyConditions(s, o.body, nc, single);
  }
}
// conditions on the outcomes of earlier measurements
void addConditions(pbt::Src& s, std::vector<Op>& ops, unsigned nq, const GenCfg& g) {
  for (std::size_t i = 0; i < ops.size(); ++i) if (ops[i].kind == Op::Measure && s.chance(2, 3)) {
    Op o; o.kind = Op::If; o.body = {genGate(s, nq, g)}; o.condReg = s.coin(); o.condStart = s.pick(ops[i].bits); o.val = s.below(2); o.cmp = s.chance(1, 4) ? s.range(0, o.condReg ? 5 : 1) : 0;
    ops.insert(ops.begin() + static_cast<long>(i) + s.range(1, static_cast<int>(ops.size() - i)), o);
  }
}
LC withLayout(Circ c) { LC l; l.c = std::move(c); for (unsigned i = 0; i < l.c.nq; ++i) l.in[i] = l.out[i] = i; return l; }
// joint state of some classical bits and some qubits
Rho joint(const Circ& c, const Vec& init, const std::set<unsigned>& hideBits, const std::set<unsigned>& hideQubits) {
  auto bs = runAll(c.ops, c.nq, c.nc, init);
  for (auto& b : bs) for (auto k : hideBits) b.bits.at(k) = 0;
  Perm p;
  for (unsigned i = 0; i < c.nq; ++i) if (!hideQubits.count(i)) p[i] = i;
  return outputs(bs, p, c.nq);
}
unsigned countOps(const std::vector<Op>& ops, Op::Kind k) { unsigned r = 0; for (auto& o : flat(ops)) r += o.kind == k; return r; }

void deferMeasurements(pbt::Src& s, pbt::Ctx& c) {
  auto g = dynamicCfg(s);
  const bool plain = s.chance(2, 3);
  Circ t;
  t.nq = static_cast<unsigned>(s.sized(1, 4));
  t.nc = static_cast<unsigned>(s.range(1, 3));
  if (!plain) { g.resets = s.coin(); g.compounds = true; g.compoundNonUnitary = s.coin(); g.multiMeasure = s.chance(1, 4); g.ifCompound = s.coin(); }
  t.ops = genOps(s, t.nq, t.nc, g, 10);
  varyConditions(s, t.ops, t.nc, s.chance(3, 4));
  for (int k = s.range(0, 3); k > 0; --k) { Op m; m.kind = Op::Measure; m.ts = {static_cast<unsigned>(s.below(t.nq))}; m.bits = {static_cast<unsigned>(s.below(t.nc))}; t.ops.insert(t.ops.begin() + static_cast<long>(s.below(t.ops.size() + 1)), m); }
  if (s.chance(3, 4)) addConditions(s, t.ops, t.nq, g);
  if (plain && s.chance(3, 4)) { // keep only what leaves earlier outcomes alone
    std::vector<Op> r; std::set<unsigned> done;
    for (auto& o : t.ops) {
      if (std::any_of(done.begin(), done.end(), [&](auto q) { return disturbs(o, q); })) continue;
      if (o.kind == Op::Measure) done.insert(o.ts.begin(), o.ts.end());
      r.push_back(o);
    }
    t.ops = r;
  }
  const auto f = flat(t.ops);
  std::set<unsigned> disturbedBits, measured;
  for (std::size_t i = 0; i < f.size(); ++i) if (f[i].kind == Op::Measure) for (std::size_t k = 0; k < f[i].ts.size(); ++k) {
    measured.insert(f[i].ts[k]);
    for (std::size_t j = i + 1; j < f.size(); ++j) if (disturbs(f[j], f[i].ts[k])) disturbedBits.insert(f[i].bits[k]);
  }
  const bool multi = anyOp(t.ops, [](auto& o) { return (o.kind == Op::Measure && o.ts.size() != 1) || (o.kind == Op::If && ((o.condReg && o.condSize != 1) || o.body[0].kind == Op::Compound)); });
  const bool dynInside = std::any_of(t.ops.begin(), t.ops.end(), [](auto& o) { return o.kind == Op::Compound && anyTop(o.body, [](auto& x) { return x.kind == Op::Measure || x.kind == Op::Reset || x.kind == Op::If; }); });
  bool ownTarget = false; // a condition on an outcome acts on a measured qubit
  { std::set<unsigned> done; for (auto& o : f) { if (o.kind == Op::Measure) done.insert(o.ts.begin(), o.ts.end()); if (o.kind == Op::If) for (auto q : o.body[0].ts) ownTarget |= done.count(q) > 0; } }
  const bool supported = !ownTarget && disturbedBits.empty() && !multi && !dynInside && countOps(t.ops, Op::Reset) == 0;
  bool used = false; // a condition that depends on a measured bit
  std::set<unsigned> written;
  for (auto& o : f) { if (o.kind == Op::Measure) written.insert(o.bits.begin(), o.bits.end()); if (o.kind == Op::If) for (auto b : condBits(o)) used |= written.count(b) > 0; }
  c.desc(show(t));
  auto q = make(withLayout(t));
  const auto before = capture(q);
  try { CO::deferMeasurements(q); } catch (const std::exception& e) {
    c.label("refused");
    c.nontrivial = used;
    const auto after = capture(q);
    pbt::require(show(after) == show(before), "deferMeasurements throws but alters the circuit: " + show(after));
    pbt::require(!supported, std::string("deferMeasurements refuses a circuit it applies to: ") + e.what());
    return;
  }
  const auto b = capture(q);
  c.label(disturbedBits.empty() ? "applied" : "applied, outcome disturbed later");
  if (used) c.label("condition on an outcome");
  c.nontrivial = used;
  pbt::require(b.c.nq == t.nq && b.c.nc == t.nc, "deferMeasurements changed the number of qubits or bits");
  const auto v = qcmp::randomState(t.nq);
  const double d = !disturbedBits.empty() && c.isKnown("C51-defer-past-gate") ? 0 : qcmp::distRho(joint(t, v, {}, measured), joint(b.c, v, {}, measured));
  pbt::require(d < 1e-7, "deferMeasurements changes the outcome distribution (distance " + num(d) + "): " + show(b));
  if (!multi && !dynInside && !(f.size() == 1)) {
    bool seen = false;
    for (auto& o : flat(b.c.ops)) {
      if (o.kind == Op::Measure) seen = true;
      else pbt::require(!seen, "deferMeasurements leaves an operation after a measurement: " + show(b));
    }
  }
}

void eliminateResets(pbt::Src& s, pbt::Ctx& c) {
  auto g = dynamicCfg(s);
  g.resets = true; g.compounds = s.coin(); g.compoundNonUnitary = s.coin(); g.multiMeasure = s.coin(); g.ifCompound = s.coin(); g.ifs = s.coin();
  Circ t;
  t.nq = static_cast<unsigned>(s.sized(1, 3));
  t.nc = static_cast<unsigned>(s.range(1, 3)) + t.nq;
  t.ops = genOps(s, t.nq, t.nc - t.nq, g, 12);
  varyConditions(s, t.ops, t.nc - t.nq, false);
  // make the final state observable: rotate and measure all qubits
  for (unsigned i = 0; i < t.nq; ++i) if (s.chance(3, 4)) {
    Op u; u.g = s.pick({"h", "i", "sx"}); u.ts = {i}; t.ops.push_back(u);
    Op m; m.kind = Op::Measure; m.ts = {i}; m.bits = {t.nc - t.nq + i}; t.ops.push_back(m);
  }
  unsigned resets = 0;
  for (auto& o : flat(t.ops)) if (o.kind == Op::Reset) resets += static_cast<unsigned>(o.ts.size());
  if (resets > 6) throw pbt::Discard{};
  c.desc(show(t));
  c.nontrivial = resets > 0;
  auto q = make(withLayout(t));
  CO::eliminateResets(q);
  const auto b = capture(q);
  pbt::require(countOps(b.c.ops, Op::Reset) == 0, "eliminateResets leaves a reset: " + show(b));
  pbt::require(b.c.nq <= t.nq + resets && b.c.nq >= t.nq, "eliminateResets adds more qubits than there are resets: " + show(b));
  pbt::require(b.c.nc == t.nc, "eliminateResets changed the number of bits");
  pbt::require(b.in.size() == b.c.nq, "eliminateResets leaves qubits without a layout entry");
  const auto v = qcmp::randomState(t.nq);
  Vec w(std::size_t{1} << b.c.nq);
  std::copy(v.begin(), v.end(), w.begin());
  const auto x = distribution(runAll(t.ops, t.nq, t.nc, v)), y = distribution(runAll(b.c.ops, b.c.nq, b.c.nc, w));
  const double d = distDist(x, y);
  pbt::require(d < 1e-7, "eliminateResets changes the outcome distribution: " + show(x) + " becomes " + show(y) + " by " + show(b));
}

LC genFinal(pbt::Src& s, pbt::Ctx& c) {
  auto g = dynamicCfg(s);
  g.resets = s.chance(1, 4); g.compounds = s.coin(); g.compoundNonUnitary = s.coin(); g.multiMeasure = s.coin(); g.ifCompound = s.coin(); g.ifs = s.coin(); g.gphaseOps = s.chance(1, 6);
  LC l;
  l.c.nq = static_cast<unsigned>(s.sized(1, 4));
  l.c.nc = static_cast<unsigned>(s.range(1, 4));
  l.c.ops = genOps(s, l.c.nq, l.c.nc, g, 8);
  varyConditions(s, l.c.ops, l.c.nc, false);
  // more measurements at the end
  for (int k = s.range(0, 4); k > 0; --k) {
    Op o;
    o.kind = s.chance(1, 5) ? Op::Barrier : Op::Measure;
    const auto n = o.kind == Op::Barrier ? s.range(1, static_cast<int>(l.c.nq)) : s.chance(2, 3) ? 1 : s.range(1, static_cast<int>(std::min(l.c.nq, l.c.nc)));
    o.ts = distinctQubits(s, l.c.nq, static_cast<unsigned>(n));
    if (o.kind == Op::Measure) o.bits = distinctQubits(s, l.c.nc, static_cast<unsigned>(n));
    if (s.chance(1, 6) && !l.c.ops.empty()) { Op p; p.kind = Op::Compound; p.body = {l.c.ops.back(), o}; l.c.ops.back() = p; } else l.c.ops.push_back(o);
  }
  for (unsigned i = 0; i < l.c.nq; ++i) l.in[i] = l.out[i] = i;
  if (s.chance(1, 4)) { l.in = genPerm(s, l.c.nq); l.out = genPerm(s, l.c.nq); c.label("layouts"); }
  c.desc(show(l));
  return l;
}
void removeDiagonal(pbt::Src& s, pbt::Ctx& c) {
  auto a = genFinal(s, c);
  if (s.chance(2, 3)) for (auto& o : a.c.ops) if (o.kind == Op::U && s.coin()) { // more diagonal gates
    auto q = distinctQubits(s, a.c.nq, static_cast<unsigned>(s.range(1, static_cast<int>(std::min(a.c.nq, 3U)))));
    o = Op{}; o.g = q.size() > 1 && s.coin() ? "rzz" : s.pick({"z", "p", "rz", "t"});
    o.ts = {q[0]}; std::size_t i = 1;
    if (o.g == "rzz") { o.ts.push_back(q[1]); i = 2; }
    for (; i < q.size(); ++i) o.cs.push_back({q[i], s.chance(2, 3)});
    std::sort(o.cs.begin(), o.cs.end());
    for (std::size_t k = 0; k < ref::numParams(o.g); ++k) o.p.push_back(0.7);
  }
  c.desc(show(a));
  auto q = make(a);
  CO::removeDiagonalGatesBeforeMeasure(q);
  const auto b = capture(q);
  const auto x = flat(a.c.ops), y = flat(b.c.ops);
  c.nontrivial = y.size() < x.size();
  pbt::require(a.in == b.in && a.out == b.out, "removeDiagonalGatesBeforeMeasure changed the layouts");
  const auto v = qcmp::randomState(a.c.nq);
  const double d = qcmp::distRho(joint(a.c, v, {}, {}), joint(b.c, v, {}, {}));
  pbt::require(d < 1e-7, "removeDiagonalGatesBeforeMeasure changes the outcome (distance " + num(d) + "): " + show(b));
}
void removeFinal(pbt::Src& s, pbt::Ctx& c) {
  const auto a = genFinal(s, c);
  auto q = make(a);
  const auto before = capture(q);
  CO::removeFinalMeasurements(q);
  const auto b = capture(q);
  std::vector<Op> x, y = flat(b.c.ops);
  // identities are removed along the way
  const auto orig = flat(before.c.ops);
  for (auto& o : orig) if (!(o.kind == Op::U && o.g == "i")) x.push_back(o);
  pbt::require(a.in == b.in && a.out == b.out, "removeFinalMeasurements changed the layouts");
  std::vector<Op> removed;
  std::size_t j = 0;
  for (auto& o : x) if (j < y.size() && show(o) == show(y[j])) ++j; else removed.push_back(o);
  pbt::require(j == y.size(), "removeFinalMeasurements adds or reorders operations: " + show(b));
  std::set<unsigned> bits;
  for (auto& o : removed) {
    pbt::require(o.kind == Op::Measure || o.kind == Op::Barrier, "removeFinalMeasurements removes " + show(o) + ": " + show(b));
    bits.insert(o.bits.begin(), o.bits.end());
  }
  pbt::require(orig.empty() || orig.back().kind != Op::Measure || (!removed.empty() && show(removed.back()) == show(orig.back())), "removeFinalMeasurements leaves a measurement at the end: " + show(b));
  c.nontrivial = !bits.empty();
  Circ r = b.c;
  for (auto& o : removed) r.ops.push_back(o);
  const auto v = qcmp::randomState(a.c.nq);
  const double d = qcmp::distRho(joint(a.c, v, bits, {}), joint(r, v, bits, {}));
  pbt::require(d < 1e-7, "removeFinalMeasurements removes a measurement that is not final (distance " + num(d) + "): " + show(b));
}
// resets eliminated, then measurements deferred: every dynamic circuit becomes a static one
void pipeline(pbt::Src& s, pbt::Ctx& c) {
  Circ t;
  t.nq = static_cast<unsigned>(s.sized(1, 3)); t.nc = static_cast<unsigned>(s.range(1, 4));
  auto g = dynamicCfg(s);
  g.ifs = false; g.measures = false;
  // rounds of gates, measurement, reset and conditions
  std::vector<bool> dirty(t.nq, false);
  unsigned resets = 0;
  for (int k = s.sized(1, 6); k > 0; --k) {
    for (int m = s.range(0, 3); m > 0; --m) { auto o = genGate(s, t.nq, g); bool bad = false; for (unsigned q = 0; q < t.nq; ++q) bad |= dirty[q] && disturbs(o, q); if (!bad) t.ops.push_back(o); }
    const auto q = static_cast<unsigned>(s.below(t.nq));
    Op m; m.kind = Op::Measure; m.ts = {q}; m.bits = {static_cast<unsigned>(s.below(t.nc))};
    t.ops.push_back(m);
    dirty[q] = true;
    if (resets < 5 && s.chance(3, 4)) { Op r; r.kind = Op::Reset; r.ts = {q}; t.ops.push_back(r); dirty[q] = false; ++resets; }
    if (s.coin()) {
      Op i; i.kind = Op::If; i.condReg = false; i.condStart = static_cast<unsigned>(s.below(t.nc)); i.val = s.chance(2, 3) ? 1 : 0;
      auto o = genGate(s, t.nq, g);
      bool bad = false; for (unsigned k2 = 0; k2 < t.nq; ++k2) bad |= dirty[k2] && (disturbs(o, k2) || std::count(o.ts.begin(), o.ts.end(), k2) > 0);
      if (!bad) { i.body = {o}; t.ops.push_back(i); }
    }
  }
  c.desc(show(t));
  c.nontrivial = resets > 0;
  auto q = make(withLayout(t));
  CO::eliminateResets(q);
  CO::deferMeasurements(q);
  const auto b = capture(q);
  bool seen = false;
  for (auto& o : b.c.ops) {
    pbt::require(o.kind != Op::Reset, "a reset is left: " + show(b));
    if (o.kind == Op::Measure) seen = true; else pbt::require(!seen, "an operation follows a measurement: " + show(b));
  }
  const auto v = qcmp::randomState(t.nq);
  Vec w(std::size_t{1} << b.c.nq);
  std::copy(v.begin(), v.end(), w.begin());
  const auto x = distribution(runAll(t.ops, t.nq, t.nc, v)), y = distribution(runAll(b.c.ops, b.c.nq, b.c.nc, w));
  pbt::require(distDist(x, y) < 1e-7, "the static circuit has another outcome distribution: " + show(x) + " becomes " + show(y) + " by " + show(b));
}
void probeDefer() {
  Circ t; t.nq = t.nc = 1;
  Op x; x.g = "x"; x.ts = {0};
  Op m; m.kind = Op::Measure; m.ts = {0}; m.bits = {0};
  t.ops = {m, x};
  auto q = make(withLayout(t));
  CO::deferMeasurements(q);
  const auto b = capture(q);
  const auto d = distribution(runAll(b.c.ops, 1, 1, basis(1, 0)));
  pbt::require(d.count("0") && std::abs(d.at("0") - 1) < 1e-9, "measure q0 -> c0; x q0 becomes " + show(b) + " with outcome " + show(d));
}
} // namespace

int main(int argc, char** argv) {
  pbt::Suite su;
  su.property = "C51";
  su.rule = "a case is non-trivial if a condition depends on an outcome (deferMeasurements), there is a reset (eliminateResets), or an operation is removed (the others)";
  su.assumptions = {"up to 4 qubits, 4 bits and 12 operations, up to 6 resets"};
  su.props = {{"deferMeasurements", deferMeasurements, 20000, 1000000}, {"eliminateResets", eliminateResets, 6000, 300000}, {"removeDiagonalGatesBeforeMeasure", removeDiagonal, 15000, 700000}, {"removeFinalMeasurements", removeFinal, 15000, 700000}, {"pipeline", pipeline, 5000, 200000}};
  su.probes = {{"C51-defer-past-gate", probeDefer}};
  return pbt::mainImpl(su, argc, argv);
}
