// build: {"libs":["ir","zx","circuit_optimizer"]}
// C40: the ZX-diagram of a circuit denotes the circuit; operations on diagrams denote operations on maps.
#include "zxx.hpp"
#include "optx.hpp"
using namespace spec;
using zxx::C;

namespace {
const std::vector<std::string>& plainGates() { static const std::vector<std::string> v{"z", "rz", "p", "x", "rx", "y", "ry", "t", "tdg", "s", "sdg", "u2", "u", "swap", "iswap", "h", "i", "sx", "sxdg", "rzz", "rxx", "rzx", "ryy", "dcx", "ecr", "xx_plus_yy", "xx_minus_yy"}; return v; }
const std::vector<std::string>& oneControl() { static const std::vector<std::string> v{"x", "x", "z", "i", "p", "t", "s", "tdg", "sdg"}; return v; }
bool supported(const std::string& g, std::size_t nc) {
  if (g == "gphase") return nc == 0;
  auto has = [&](const std::vector<std::string>& v) { return std::find(v.begin(), v.end(), g) != v.end(); };
  return nc == 0 ? has(plainGates()) : nc == 1 ? has(oneControl()) : nc == 2 && (g == "x" || g == "z");
}
// gates may be normalised when built, e.g. to V gates, which are not supported
bool norm(const Circ& t) { const auto q = build(t); const auto e = extract(q); return !anyOp(e.ops, [](auto& o) { return o.kind == Op::U && !supported(o.g, o.cs.size()); }); }
Op genSupported(pbt::Src& s, unsigned nq) {
  GenCfg g; g.maxControls = 0;
  const auto k = nq >= 3 ? s.below(4) : nq == 2 ? s.below(3) : 0;
  if (k <= 1) { g.gates = plainGates(); return genGate(s, nq, g); }
  Op o;
  o.g = k == 2 ? s.pick(oneControl()) : s.pick({"x", "z"});
  auto q = distinctQubits(s, nq, static_cast<unsigned>(k));
  o.ts = {q[0]};
  for (std::size_t i = 1; i < q.size(); ++i) o.cs.push_back({q[i], !s.chance(1, 5)});
  std::sort(o.cs.begin(), o.cs.end());
  for (std::size_t i = 0; i < ref::numParams(o.g); ++i) o.p.push_back(genAngle(s));
  return o;
}
std::vector<Op> genBody(pbt::Src& s, unsigned nq, int len, bool extras) {
  std::vector<Op> r;
  for (int k = s.sized(0, len); k > 0; --k) {
    Op o;
    switch (extras ? s.below(10) : 9) {
    case 0: o.kind = Op::Barrier; o.ts = distinctQubits(s, nq, static_cast<unsigned>(s.range(1, static_cast<int>(nq)))); break;
    case 1: o.g = "gphase"; o.p = {genAngle(s)}; break;
    case 2: o.kind = Op::Compound; for (int j = s.range(1, 4); j > 0; --j) o.body.push_back(genSupported(s, nq)); break;
    case 3: if (nq > 1) { // CNOTs that may look like a SWAP
      auto q = distinctQubits(s, nq, 2);
      for (int j = 0; j < 3; ++j) { Op x; x.g = s.chance(1, 8) ? "z" : "x"; const bool flip = (j == 1) != s.chance(1, 6); x.ts = {q[flip ? 0 : 1]}; x.cs = {{q[flip ? 1 : 0], !s.chance(1, 10)}}; if (j < 2) r.push_back(x); else o = x; }
      break;
    } [[fallthrough]];
    default: o = genSupported(s, nq);
    }
    r.push_back(o);
  }
  return r;
}
std::vector<C> tensorOf(const ref::Mat& m) { std::vector<C> t(m.n * m.n); for (std::size_t o = 0; o < m.n; ++o) for (std::size_t i = 0; i < m.n; ++i) t[o * m.n + i] = m(o, i); return t; }
std::string showT(const std::vector<C>& t) { std::ostringstream o; o.precision(4); for (auto& c : t) o << c << " "; return o.str(); }
void equalsMap(const zx::ZXDiagram& d, const ref::Mat& m, const std::string& what, double tol = 1e-6, const zxx::Assign& a = {}) {
  zxx::wellFormed(d, what);
  const auto t = zxx::tensor(d, a);
  const double e = zxx::distScalar(tensorOf(m), t);
  pbt::require(e < tol, what + ": the diagram denotes another map (distance " + num(e) + "): " + zxx::str(d) + (t.size() <= 16 ? " denotes " + showT(t) : ""));
}
// known finding: XXminusYY(theta, beta) is translated as XXminusYY(-theta, beta)
const char* minusId = "C40-xx-minus-yy-sign";
bool minusFlips() {
  static const bool flips = [] {
    Circ t; t.nq = 2; Op o; o.g = "xx_minus_yy"; o.p = {0.5, 0.3}; o.ts = {0, 1}; t.ops = {o};
    const auto q = build(t);
    const auto d = zxx::tensor(zx::FunctionalityConstruction::buildFunctionality(&q));
    t.ops[0].p[0] = -0.5;
    return zxx::distScalar(tensorOf(unitary(t.ops, 2)), d) < 1e-6;
  }();
  return flips;
}
std::vector<Op> meant(pbt::Ctx& c, std::vector<Op> ops) {
  if (!c.isKnown(minusId) || !minusFlips()) return ops;
  for (auto& o : ops) { if (o.kind == Op::U && o.g == "xx_minus_yy") o.p[0] = -o.p[0]; o.body = meant(c, o.body); }
  return ops;
}
// operations act on the logical qubits their physical qubits are mapped to
std::vector<Op> rename(std::vector<Op> ops, const optx::Perm& p) {
  for (auto& o : ops) { for (auto& q : o.ts) q = p.at(q); for (auto& k : o.cs) k.q = p.at(k.q); o.body = rename(o.body, p); }
  return ops;
}
void circuits(pbt::Src& s, pbt::Ctx& c) {
  optx::LC l;
  l.c.nq = static_cast<unsigned>(s.sized(1, 4));
  l.c.ops = genBody(s, l.c.nq, 12, true);
  if (s.chance(1, 4)) l.c.gphase = genAngle(s);
  for (unsigned i = 0; i < l.c.nq; ++i) l.in[i] = l.out[i] = i;
  if (s.coin()) { l.in = optx::genPerm(s, l.c.nq); l.out = l.in; c.label("layout"); }
  c.desc(show(l));
  c.nontrivial = optx::flat(l.c.ops).size() >= 2;
  const auto q = optx::make(l);
  const auto eff = optx::capture(q); // gates may be normalised when built
  if (anyOp(eff.c.ops, [](auto& o) { return o.kind == Op::U && !supported(o.g, o.cs.size()); })) throw pbt::Discard{};
  pbt::require(zx::FunctionalityConstruction::transformableToZX(&q), "a circuit over the supported gates is not reported as translatable");
  const auto before = show(eff);
  const auto d = zx::FunctionalityConstruction::buildFunctionality(&q);
  pbt::require(show(optx::capture(q)) == before, "translating changes the circuit");
  pbt::require(d.getNQubits() == l.c.nq && d.getInputs().size() == l.c.nq && d.getOutputs().size() == l.c.nq, "the diagram has the wrong number of inputs or outputs: " + zxx::str(d));
  equalsMap(d, unitary(meant(c, rename(l.c.ops, l.in)), l.c.nq), "translation");
}
// any circuit is either reported as translatable and translated, or refused by both functions
void translatable(pbt::Src& s, pbt::Ctx& c) {
  GenCfg g;
  g.maxControls = 3; g.gphaseOps = true; g.barriers = true; g.compounds = true; g.compoundNonUnitary = s.coin();
  if (s.chance(1, 3)) { g.resets = g.ifs = true; }
  if (s.chance(1, 2)) { g.gates = oneControl(); g.gates.push_back("swap"); g.gates.push_back("gphase"); g.gates.push_back("y"); }
  Circ t;
  t.nq = static_cast<unsigned>(s.sized(1, 4)); t.nc = 2;
  t.ops = genOps(s, t.nq, t.nc, g, 4);
  for (auto& o : t.ops) if (o.kind == Op::U && o.g == "gphase") { o.ts.clear(); if (o.p.empty()) o.p = {0.5}; if (s.coin()) o.cs = {{static_cast<unsigned>(s.below(t.nq)), true}}; }
  c.desc(show(t));
  optx::LC l; l.c = t;
  for (unsigned i = 0; i < t.nq; ++i) l.in[i] = l.out[i] = i;
  const auto q = optx::make(l);
  const auto eff = optx::capture(q); // gates may be normalised when built
  const bool can = zx::FunctionalityConstruction::transformableToZX(&q);
  zx::ZXDiagram d;
  bool threw = false;
  try { d = zx::FunctionalityConstruction::buildFunctionality(&q); } catch (const zx::ZXException&) { threw = true; }
  c.label(can ? "translatable" : "refused");
  c.nontrivial = !can;
  pbt::require(can == !threw, std::string("the circuit is reported as ") + (can ? "" : "not ") + "translatable but building its diagram " + (threw ? "fails" : "succeeds"));
  const bool want = !anyOp(eff.c.ops, [](auto& o) { return o.kind == Op::Reset || o.kind == Op::If || (o.kind == Op::U && !supported(o.g, o.cs.size())); });
  pbt::require(can == want, std::string("the circuit is ") + (can ? "" : "not ") + "reported as translatable");
  if (can) equalsMap(d, unitary(meant(c, eff.c.ops), t.nq), "translation");
}
void symbolic(pbt::Src& s, pbt::Ctx& c) {
  const auto nq = static_cast<unsigned>(s.sized(1, 4));
  qc::QuantumComputation q(nq);
  std::vector<symspec::SymOp> ops;
  for (int k = s.sized(1, 6); k > 0; --k) {
    if (s.chance(1, 3)) { ops.push_back(symspec::fromOp(genSupported(s, nq))); continue; }
    auto o = symspec::gen(s, nq);
    o.cs.clear();
    if (o.g == "p" && nq > 1 && s.coin()) o.cs = {{(o.ts[0] + 1 + static_cast<unsigned>(s.below(nq - 1))) % nq, !s.chance(1, 4)}};
    ops.push_back(o);
  }
  std::string d;
  std::size_t sym = 0;
  for (auto& o : ops) {
    d += symspec::show(o) + "; ";
    const bool isSym = std::any_of(o.p.begin(), o.p.end(), [](auto& e) { return e.sym; });
    sym += isSym;
    if (!isSym) { Circ t; t.nq = nq; t.ops = {symspec::eval(o, {})}; if (!norm(t)) throw pbt::Discard{}; }
    if (isSym) q.emplace_back(symspec::make(o)); else q.emplace_back(makeOp(symspec::eval(o, {})));
  }
  c.desc(d);
  c.nontrivial = sym > 0;
  zxx::Assign a;
  double val = 0.3;
  for (auto& v : symspec::vars()) a[v] = val *= -1.7;
  pbt::require(zx::FunctionalityConstruction::transformableToZX(&q), "a symbolic circuit over the supported gates is not reported as translatable");
  const auto g = zx::FunctionalityConstruction::buildFunctionality(&q);
  std::vector<Op> num;
  for (auto& o : ops) num.push_back(symspec::eval(o, a));
  equalsMap(g, unitary(meant(c, num), nq), "translation of a symbolic circuit", 1e-6, a);
}
ref::Mat project(const ref::Mat& m, unsigned in, unsigned out) { // <0| on output out and |0> on input in
  auto ins = [](std::size_t i, unsigned q) { return (i & ((std::size_t{1} << q) - 1)) | ((i >> q) << (q + 1)); };
  ref::Mat r(m.n / 2);
  for (std::size_t i = 0; i < r.n; ++i) for (std::size_t j = 0; j < r.n; ++j) r(i, j) = m(ins(i, out), ins(j, in));
  return r;
}
double frob(const ref::Mat& m) { double s = 0; for (auto& x : m.a) s += std::norm(x); return std::sqrt(s); }
struct DM { zx::ZXDiagram d; ref::Mat m; };
DM genDiagram(pbt::Src& s, pbt::Ctx& c, unsigned nq, std::string& desc) {
  const auto ops = genBody(s, nq, 5, false);
  Circ t; t.nq = nq; t.ops = ops;
  desc += "[" + show(ops) + "] ";
  if (!norm(t)) throw pbt::Discard{};
  const auto q = build(t);
  return {zx::FunctionalityConstruction::buildFunctionality(&q), unitary(meant(c, ops), nq)};
}
void algebra(pbt::Src& s, pbt::Ctx& c) {
  std::string d;
  auto nq = static_cast<unsigned>(s.range(1, 3));
  DM x = genDiagram(s, c, nq, d);
  int applied = 0;
  // a second diagram with the same number of qubits, maybe obtained by fixing qubits of a larger one
  auto partner = [&](unsigned n) {
    const unsigned extra = n < 3 && s.chance(1, 3) ? 1 : 0;
    DM y = genDiagram(s, c, n + extra, d);
    if (extra > 0) {
      const auto i = static_cast<unsigned>(s.below(n + 1)), o = static_cast<unsigned>(s.below(n + 1));
      d += "with ancilla " + std::to_string(i) + "," + std::to_string(o) + " ";
      const auto m = project(y.m, i, o);
      if (frob(m) < 1e-3) throw pbt::Discard{};
      y.m = m;
      y.d.makeAncilla(static_cast<zx::Qubit>(i), static_cast<zx::Qubit>(o));
    }
    if (s.chance(1, 4)) { d += "reduced "; zx::fullReduce(y.d); }
    return y;
  };
  for (int k = s.sized(1, 6); k > 0; --k) {
    std::string what;
    switch (s.below(7)) {
    case 0: case 1: { d += "concat "; what = "concat"; auto y = partner(nq); if (s.coin()) x.d.concat(y.d); else x.d += y.d; x.m = mul(y.m, x.m); if (frob(x.m) < 1e-3) throw pbt::Discard{}; break; }
    case 2: d += "invert "; what = "invert"; x.d.invert(); x.m = ref::adj(x.m); break;
    case 3: { d += "adjoint "; what = "adjoint"; const auto before = zxx::str(x.d); auto y = x.d.adjoint(); pbt::require(zxx::str(x.d) == before, "adjoint changes the diagram"); x.d = y; x.m = ref::adj(x.m); break; }
    case 4: {
      if (nq < 2) continue;
      const auto i = static_cast<unsigned>(s.below(nq)), o = s.coin() ? i : static_cast<unsigned>(s.below(nq));
      const auto m = project(x.m, i, o);
      if (frob(m) < 1e-3) continue;
      d += "ancilla " + std::to_string(i) + "," + std::to_string(o) + " "; what = "makeAncilla";
      if (i == o) x.d.makeAncilla(static_cast<zx::Qubit>(i)); else x.d.makeAncilla(static_cast<zx::Qubit>(i), static_cast<zx::Qubit>(o));
      x.m = m; --nq;
      break; }
    case 5: d += "reduce "; what = "fullReduce"; zx::fullReduce(x.d); break;
    default: d += "graphlike "; what = "toGraphlike"; x.d.toGraphlike(); break;
    }
    ++applied;
    c.desc(d);
    pbt::require(x.d.getNQubits() == nq, what + ": wrong number of qubits");
    equalsMap(x.d, x.m, what);
  }
  c.desc(d);
  c.nontrivial = applied >= 2;
  if (x.d.isIdentity()) pbt::require(zxx::distScalar(tensorOf(ref::Mat::id(x.m.n)), tensorOf(x.m)) < 1e-6, "a diagram is reported as identity but is not: " + zxx::str(x.d));
  // a diagram followed by its adjoint is reported as identity only if it is one
  auto y = x.d; y.concat(x.d.adjoint()); zx::fullReduce(y);
  const auto m = mul(ref::adj(x.m), x.m);
  equalsMap(y, m, "diagram and its adjoint");
  if (y.isIdentity()) pbt::require(zxx::distScalar(tensorOf(ref::Mat::id(m.n)), tensorOf(m)) < 1e-6, "a diagram with its adjoint is reported as identity but is not");
}
void mismatch(pbt::Src& s, pbt::Ctx& c) {
  const auto a = static_cast<unsigned>(s.range(0, 4)), b = static_cast<unsigned>(s.range(0, 4));
  c.desc("concat of diagrams with " + std::to_string(a) + " and " + std::to_string(b) + " qubits");
  c.nontrivial = a != b;
  zx::ZXDiagram x(a), y(b);
  bool threw = false;
  try { x.concat(y); } catch (const zx::ZXException&) { threw = true; }
  pbt::require(threw == (a != b), "concatenation of diagrams with different numbers of qubits is not refused, or a valid one is");
  zxx::wellFormed(x, "concat");
  pbt::require(x.getNQubits() == a && x.isIdentity(), "identity diagrams do not compose to the identity: " + zxx::str(x));
}
void probeMinus() { pbt::require(!minusFlips(), "xx_minus_yy(0.5, 0.3) is translated as xx_minus_yy(-0.5, 0.3)"); }
} // namespace

int main(int argc, char** argv) {
  pbt::Suite su;
  su.property = "C40";
  su.rule = "a case is non-trivial if the circuit has at least two gates, is refused, contains a symbolic gate, or at least two diagram operations were applied";
  su.assumptions = {"up to 4 qubits and about 12 gates; maps compared up to a non-zero scalar with tolerance 1e-6; diagrams denoting the zero map excluded (scalars are not tracked)"};
  su.props = {{"circuits", circuits, 8000, 400000}, {"translatable", translatable, 4000, 200000}, {"symbolic", symbolic, 3000, 150000}, {"algebra", algebra, 5000, 250000}, {"mismatch", mismatch, 100, 1000}};
  su.probes = {{minusId, probeMinus}};
  return pbt::mainImpl(su, argc, argv);
}
