// build: {"libs": ["ir"]}
// C02: inverting.
#include "spec.hpp"
#include "symspec.hpp"
using namespace pbt;
using spec::Op;

namespace {
constexpr double TOL = 1e-8;
struct GOp { bool sym = false; Op o; symspec::SymOp so; std::vector<GOp> body; };
std::unique_ptr<qc::Operation> make(const GOp& g) {
  if (!g.body.empty()) { std::vector<std::unique_ptr<qc::Operation>> v; for (auto& b : g.body) v.push_back(make(b)); return std::make_unique<qc::CompoundOperation>(std::move(v)); }
  return g.sym ? symspec::make(g.so) : spec::makeOp(g.o);
}
std::string show(const GOp& g) {
  if (!g.body.empty()) { std::string s = "{"; for (auto& b : g.body) s += show(b) + "; "; return s + "}"; }
  return g.sym ? symspec::show(g.so) : spec::show(g.o);
}
spec::GenCfg cfg() { spec::GenCfg g; g.gphaseOps = g.barriers = g.compounds = true; return g; }
GOp genG(Src& s, unsigned nq, int depth = 0) {
  GOp g;
  if (depth < 2 && s.chance(1, 8)) { int n = s.range(1, 3); for (int i = 0; i < n; ++i) g.body.push_back(genG(s, nq, depth + 1)); return g; }
  if (s.chance(1, 5)) { g.sym = true; g.so = symspec::gen(s, nq); return g; }
  g.o = spec::genOp(s, nq, 0, cfg(), 2);
  return g;
}
symspec::Assign assign(Src& s) { symspec::Assign a; for (auto& v : symspec::vars()) a[v] = s.real(-4, 4); return a; }
void checkNames(const qc::Operation& op) {
  if (auto* co = dynamic_cast<const qc::CompoundOperation*>(&op)) { for (auto& x : *co) checkNames(*x); return; }
  if (auto* cc = dynamic_cast<const qc::ClassicControlledOperation*>(&op)) { require(op.getName() == "c_" + qc::shortName(cc->getOperation()->getType()), "conditional operation named " + op.getName() + " holds a " + qc::toString(cc->getOperation()->getType())); checkNames(*cc->getOperation()); return; }
  require(op.getName() == qc::toString(op.getType()), "operation of type " + qc::toString(op.getType()) + " is named " + op.getName());
}
ref::Mat U(const std::vector<Op>& ops, unsigned nq, double gp) { return spec::unitary(ops, nq, gp); }
double offIdentity(const ref::Mat& m) { ref::Mat id(m.n); for (std::size_t i = 0; i < m.n; ++i) id(i, i) = 1; return ref::dist(m, id); }

void circuits(Src& s, Ctx& c) {
  unsigned nq = static_cast<unsigned>(s.range(1, 4));
  qc::QuantumComputation q(nq);
  std::string d;
  int n = s.sized(0, 10);
  for (int i = 0; i < n; ++i) {
    auto g = genG(s, nq); d += show(g) + "; ";
    if (g.body.empty() && s.coin()) { if (g.sym) symspec::append(q, g.so); else spec::appendViaApi(q, g.o); } else q.emplace_back(make(g));
  }
  if (s.coin()) { double gp = s.pick({0.3, -1.0, M_PI, 5.0, 100.0}); q.gphase(gp); d += "gphase " + spec::num(gp); }
  auto permute = [&](qc::Permutation& p) { std::vector<unsigned> v(nq); for (unsigned i = 0; i < nq; ++i) v[i] = i; s.shuffle(v); for (unsigned i = 0; i < nq; ++i) p[i] = v[i]; };
  if (s.coin()) permute(q.initialLayout);
  if (s.coin()) permute(q.outputPermutation);
  c.desc(std::to_string(nq) + "q " + d);
  c.nontrivial = q.size() >= 2;
  const auto orig = q;
  auto inv = q;
  inv.invert();
  require(q == orig, "inverting a copy changed the original");
  require(inv.size() == q.size(), "inverting changed the number of operations");
  for (auto& op : inv) checkNames(*op);
  require(inv.initialLayout == q.outputPermutation && inv.outputPermutation == q.initialLayout, "layouts of the inverse are not exchanged");
  require(inv.getNqubits() == q.getNqubits() && inv.getNcbits() == q.getNcbits() && inv.getVariables() == q.getVariables(), "registers or variables of the inverse differ");
  for (int k = 0; k < 2; ++k) {
    auto a = assign(s);
    auto u = U(symspec::extract(q, a), nq, q.getGlobalPhase()), v = U(symspec::extract(inv, a), nq, inv.getGlobalPhase());
    double e = offIdentity(ref::mul(v, u));
    require(e < TOL, "circuit times inverse is not the identity (off by " + spec::num(e) + ")");
    auto back = inv; back.invert();
    require(back.initialLayout == q.initialLayout && back.outputPermutation == q.outputPermutation, "inverting twice does not restore the layouts");
    auto w = U(symspec::extract(back, a), nq, back.getGlobalPhase());
    require(ref::dist(w, u) < TOL, "inverting twice does not restore the unitary");
  }
}
// circuits with conditional gates: the conditions stay, the gates are inverted
void conditional(Src& s, Ctx& c) {
  unsigned nq = static_cast<unsigned>(s.range(1, 3)), nc = static_cast<unsigned>(s.range(1, 3));
  auto g = cfg(); g.ifs = true; g.ifCompound = true; g.cmpKinds = true;
  spec::Circ f; f.nq = nq; f.nc = nc; f.ops = spec::genOps(s, nq, nc, g, 8);
  auto q = spec::build(f, s.coin());
  auto inv = q; inv.invert();
  for (auto& op : inv) checkNames(*op);
  auto ops = spec::extract(q).ops, iops = spec::extract(inv).ops;
  for (unsigned v = 0; v < (1U << nc); ++v) {
    std::vector<char> bits; for (unsigned i = 0; i < nc; ++i) bits.push_back(static_cast<char>((v >> i) & 1U));
    ref::Vec st(std::size_t{1} << nq);
    for (auto& x : st) x = {s.real(-1, 1), s.real(-1, 1)};
    std::vector<spec::Branch> b{{st, bits}};
    for (auto& o : ops) spec::run(b, o);
    for (auto& o : iops) spec::run(b, o);
    require(b.size() == 1, "harness: branches");
    require(ref::dist(b[0].v, st) < TOL, "conditional circuit followed by its inverse is not the identity for bits " + std::to_string(v));
  }
  c.desc(spec::show(f)); c.nontrivial = f.ops.size() >= 2;
}
// what cannot be inverted is refused and left alone
void refused(Src& s, Ctx& c) {
  unsigned nq = static_cast<unsigned>(s.range(1, 3)), nc = 2;
  auto g = cfg(); g.measures = g.resets = true; g.compoundNonUnitary = true; g.ifs = true;
  spec::Circ f; f.nq = nq; f.nc = nc; f.ops = spec::genOps(s, nq, nc, g, 8);
  auto q = spec::build(f);
  bool bad = spec::anyOp(f.ops, [](const Op& o) { return o.kind == Op::Measure || o.kind == Op::Reset; });
  const auto before = q;
  bool threw = false;
  try { q.invert(); } catch (const std::exception&) { threw = true; }
  require(threw == bad, bad ? "circuit with measurement or reset was inverted" : "invertible circuit refused");
  if (bad) require(q == before && spec::same(spec::extract(q).ops, spec::extract(before).ops), "refused inversion altered the circuit: " + spec::show(spec::extract(q).ops));
  for (auto& op : before) {
    auto x = spec::extract(*op);
    bool b = spec::anyOp({x}, [](const Op& o) { return o.kind == Op::Measure || o.kind == Op::Reset; });
    bool t = false;
    auto cl = op->clone();
    try { cl->invert(); } catch (const std::exception&) { t = true; }
    require(t == b, b ? "non-unitary operation was inverted" : "unitary operation refused");
    if (b) require(spec::same(spec::extract(*cl), x), "refused inversion altered the operation");
  }
  c.desc(spec::show(f)); c.nontrivial = bad && f.ops.size() >= 2;
}
// reported inverses
void reported(Src& s, Ctx& c) {
  unsigned nq = static_cast<unsigned>(s.range(1, 4));
  GOp a;
  if (s.chance(1, 3)) { int n = s.range(1, 4); for (int i = 0; i < n; ++i) a.body.push_back(genG(s, nq, 1)); } else a = genG(s, nq);
  auto op = make(a);
  auto oth = op->clone();
  std::string how = "inverse";
  oth->invert();
  auto tweak = [&](qc::Operation& x) {
    if (auto* co = dynamic_cast<qc::CompoundOperation*>(&x)) {
      if (s.coin() && co->size() > 1) { how += ", exchanged"; auto i = s.below(co->size() - 1); std::swap(co->getOps()[i], co->getOps()[i + 1]); return; }
      auto i = s.below(co->size());
      GOp r = genG(s, nq, 2); r.sym = false; if (r.o.g.empty()) r.o.g = "x", r.o.ts = {0}; how += ", replaced " + show(r); co->getOps()[i] = make(r);
      return;
    }
    auto& cs = x.getControls(); auto& ts = x.getTargets();
    switch (s.below(4)) {
    case 0: if (!cs.empty() && !ts.empty()) { how += ", control and target exchanged"; auto k = *cs.begin(); auto t = ts[0]; x.clearControls(); ts[0] = k.qubit; qc::Controls n; x.addControl(qc::Control{t, k.type}); } break;
    case 1: if (ts.size() > 1) { how += ", targets exchanged"; std::swap(ts[0], ts[1]); } break;
    case 2: if (!cs.empty()) { how += ", polarity"; auto k = *cs.begin(); x.removeControl(k); k.type = k.type == qc::Control::Type::Pos ? qc::Control::Type::Neg : qc::Control::Type::Pos; x.addControl(k); } break;
    default: if (!ts.empty() && x.getType() != qc::Barrier) { for (unsigned i = 0; i < nq; ++i) if (!x.actsOn(i)) { how += ", control added"; x.addControl(qc::Control{i}); break; } } break;
    }
  };
  if (s.coin()) tweak(*oth);
  if (s.chance(1, 4)) { oth = make(genG(s, nq)); how = "unrelated"; }
  auto as = assign(s);
  auto x = symspec::extract(*op, as), y = symspec::extract(*oth, as);
  c.desc(show(a) + "  vs  " + spec::show(y) + " (" + how + ")");
  for (int dir = 0; dir < 2; ++dir) {
    bool r = dir ? oth->isInverseOf(*op) : op->isInverseOf(*oth);
    if (!r) continue;
    c.label("reported inverse: " + std::string(how == "inverse" ? "exact" : "changed"));
    c.nontrivial = true;
    for (int k = 0; k < 2; ++k) {
      auto b = assign(s);
      auto u = U({symspec::extract(*op, b), symspec::extract(*oth, b)}, nq, 0);
      double e = offIdentity(u);
      require(e < TOL, "operations reported inverse multiply to something else than the identity (off by " + spec::num(e) + ")");
    }
  }
  require(spec::same(symspec::extract(*op, as), x) && spec::same(symspec::extract(*oth, as), y), "asking for the inverse relation changed an operation");
}
} // namespace

int main(int argc, char** argv) {
  Suite su;
  su.property = "C02";
  su.rule = "circuits/conditional: at least two operations; refused: contains a measurement or reset among several operations; reported: the library reported an inverse pair; distinct by printed case";
  su.assumptions = {"dense comparison on up to 4 qubits with tolerance 1e-8"};
  su.props = {{"circuits", circuits, 16000, 800000}, {"conditional", conditional, 10000, 300000}, {"refused", refused, 10000, 200000}, {"reported", reported, 50000, 2000000}};
  return mainImpl(su, argc, argv);
}
