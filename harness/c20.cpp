// build: {"libs": ["ir", "dd"]}
// C20: every operation's decision diagram is that operation's matrix.
#include "ddx.hpp"
using namespace pbt;
using spec::Op;

namespace {
constexpr double TOL = 1e-9;

spec::GenCfg cfg(unsigned maxControls) { spec::GenCfg g; g.maxControls = maxControls; return g; }

void checkOp(Src& s, Ctx& c, unsigned n, const Op& o, bool api) {
  auto p = ddx::mkPackage(n, s.pick<std::size_t>({256, 16, 2048}));
  std::unique_ptr<qc::Operation> op;
  qc::QuantumComputation circ(n);
  if (api) { spec::appendViaApi(circ, o); op = circ.at(0)->clone(); } else op = spec::makeOp(o);
  auto want = spec::unitary({o}, n);
  auto got = ddx::toMat(dd::getDD(*op, *p), n);
  require(ref::dist(got, want) < TOL, "getDD differs from the gate's matrix by " + spec::num(ref::dist(got, want)) + " for " + spec::show(o));
  auto inv = ddx::toMat(dd::getInverseDD(*op, *p), n);
  require(ref::dist(inv, ref::adj(want)) < TOL, "getInverseDD differs from the adjoint for " + spec::show(o));
  auto inv2 = ddx::toMat(dd::getDD(*op, *p, {}, true), n);
  require(ref::dist(inv2, ref::adj(want)) < TOL, "getDD(inverse) differs from the adjoint for " + spec::show(o));
  // relabelled
  std::vector<unsigned> perm(n);
  for (unsigned i = 0; i < n; ++i) perm[i] = i;
  s.shuffle(perm);
  qc::Permutation qp;
  for (unsigned i = 0; i < n; ++i) qp[i] = perm[i];
  std::function<Op(Op)> relabel = [&](Op x) { for (auto& t : x.ts) t = perm[t]; for (auto& k : x.cs) k.q = perm[k.q]; for (auto& b : x.body) b = relabel(b); return x; };
  auto pwant = spec::unitary({relabel(o)}, n);
  auto pgot = ddx::toMat(dd::getDD(*op, *p, qp), n);
  require(ref::dist(pgot, pwant) < TOL, "getDD under a permutation differs for " + spec::show(o));
  auto pinv = ddx::toMat(dd::getInverseDD(*op, *p, qp), n);
  require(ref::dist(pinv, ref::adj(pwant)) < TOL, "getInverseDD under a permutation differs for " + spec::show(o));
  if (o.kind == Op::U && !op->isSymbolicOperation() && o.g != "gphase") {
    auto st = ddx::toMat(dd::getStandardOperationDD(*p, op->getType(), op->getParameter(), op->getControls(), op->getTargets()), n);
    require(ref::dist(st, want) < TOL, "getStandardOperationDD differs for " + spec::show(o));
    c.label("gate:" + o.g);
    c.label("controls:" + std::to_string(o.cs.size()));
    bool neg = false; for (auto& k : o.cs) neg |= !k.pos;
    if (neg) c.label("negative controls");
    if (op->getType() != spec::opType(o.g)) c.label("canonicalised to another type");
  }
  c.desc(std::to_string(n) + "q " + spec::show(o));
  c.nontrivial = o.kind != Op::U || !o.cs.empty() || !o.p.empty() || o.ts.size() > 1;
}

void singleGate(Src& s, Ctx& c) {
  unsigned n = static_cast<unsigned>(s.range(1, 6));
  auto g = cfg(n);
  if (s.coin()) { g.gates = spec::twoTarget(); if (n < 2) n = 2; }
  Op o = spec::genGate(s, n, g);
  checkOp(s, c, n, o, s.coin());
}
// parameters at and around the values at which gates are canonicalised
void specialAngles(Src& s, Ctx& c) {
  unsigned n = static_cast<unsigned>(s.range(1, 3));
  Op o;
  o.g = s.pick<std::string>({"u", "u", "u2", "p", "rx", "ry", "rz"});
  for (std::size_t i = 0; i < ref::numParams(o.g); ++i) {
    double a = s.pick({0.0, M_PI_2, -M_PI_2, M_PI, -M_PI, M_PI_4, -M_PI_4, 2 * M_PI, -2 * M_PI, 3 * M_PI_2, -3 * M_PI_2, 4 * M_PI, -4 * M_PI, 3 * M_PI, 3 * M_PI_4, 5 * M_PI_2, 1.0});
    switch (s.below(6)) { case 0: a += 1e-14; break; case 1: a -= 3e-14; break; case 2: a += 1e-6; break; default: break; }
    o.p.push_back(a);
  }
  auto q = spec::distinctQubits(s, n, static_cast<unsigned>(s.range(1, static_cast<int>(n))));
  o.ts = {q[0]};
  for (std::size_t i = 1; i < q.size(); ++i) o.cs.push_back({q[i], s.coin()});
  std::sort(o.cs.begin(), o.cs.end());
  checkOp(s, c, n, o, s.coin());
  c.label("special angles");
}
void compound(Src& s, Ctx& c) {
  unsigned n = static_cast<unsigned>(s.range(1, 4));
  auto g = cfg(2);
  g.compounds = true; g.barriers = true;
  Op o; o.kind = Op::Compound;
  int k = s.range(1, 5);
  for (int i = 0; i < k; ++i) o.body.push_back(spec::genOp(s, n, 0, g, 1));
  checkOp(s, c, n, o, false);
  c.label("compound");
}
// many qubits: compare on random basis columns against the reference state vector
void wide(Src& s, Ctx& c) {
  unsigned n = static_cast<unsigned>(s.range(7, 11));
  auto g = cfg(n);
  if (s.coin()) g.gates = spec::twoTarget();
  Op o = spec::genGate(s, n, g);
  if (s.coin()) { // many controls
    auto q = spec::distinctQubits(s, n, n);
    std::size_t nt = o.ts.size();
    o.ts.assign(q.begin(), q.begin() + static_cast<long>(nt));
    o.cs.clear();
    auto k = nt + s.below(n - nt + 1);
    for (std::size_t i = nt; i < k; ++i) o.cs.push_back({q[i], !s.chance(1, 3)});
    std::sort(o.cs.begin(), o.cs.end());
  }
  auto p = ddx::mkPackage(n);
  auto op = spec::makeOp(o);
  auto e = dd::getDD(*op, *p);
  for (int k = 0; k < 8; ++k) {
    std::size_t col = s.below(std::size_t{1} << n);
    // steer towards columns that satisfy the controls
    if (s.coin()) for (auto& x : o.cs) { if (x.pos) col |= std::size_t{1} << x.q; else col &= ~(std::size_t{1} << x.q); }
    auto v = spec::basis(n, col);
    spec::applyUnitary(v, o);
    // column of the DD
    ref::Vec got(v.size());
    std::function<void(const dd::mEdge&, ref::C, std::size_t, int)> walk = [&](const dd::mEdge& x, ref::C f, std::size_t row, int lvl) {
      if (f == ref::C{}) return;
      if (lvl < 0) { got[row] += f; return; }
      std::size_t b = std::size_t{1} << lvl, bit = (col >> lvl) & 1U;
      if (x.isTerminal() || static_cast<int>(x.p->v) < lvl) { walk(x, f, bit ? row | b : row, lvl - 1); return; }
      for (std::size_t r = 0; r < 2; ++r) { const auto& y = x.p->e[2 * r + bit]; walk(y, f * ddx::val(y.w), r ? row | b : row, lvl - 1); }
    };
    walk(e, ddx::val(e.w), 0, static_cast<int>(n) - 1);
    require(ref::dist(got, v) < TOL, "column " + std::to_string(col) + " of getDD differs for " + spec::show(o));
  }
  c.desc(std::to_string(n) + "q " + spec::show(o));
  c.nontrivial = true;
  c.label("wide");
}
// the raw constructors used by callers directly
void rawMatrices(Src& s, Ctx& c) {
  unsigned n = static_cast<unsigned>(s.range(1, 5));
  auto p = ddx::mkPackage(n);
  bool two = n >= 2 && s.coin();
  std::size_t dim = two ? 4 : 2;
  ref::Mat m(dim);
  for (auto& x : m.a) x = ddx::genAmp(s);
  auto q = spec::distinctQubits(s, n, two ? 2 : 1);
  std::vector<unsigned> rest;
  for (unsigned i = 0; i < n; ++i) if (std::find(q.begin(), q.end(), i) == q.end()) rest.push_back(i);
  s.shuffle(rest);
  std::vector<ref::Ctrl> cs;
  std::size_t k = s.below(rest.size() + 1);
  for (std::size_t i = 0; i < k; ++i) cs.push_back({rest[i], s.coin()});
  std::sort(cs.begin(), cs.end());
  std::size_t N = std::size_t{1} << n;
  ref::Mat want(N);
  for (std::size_t col = 0; col < N; ++col) {
    if (!ref::ctrlOk(col, cs)) { want(col, col) = 1; continue; }
    std::size_t in = 0;
    for (unsigned t : q) in = in * 2 + ((col >> t) & 1U);
    for (std::size_t r = 0; r < dim; ++r) {
      std::size_t row = col;
      for (std::size_t i = 0; i < q.size(); ++i) { std::size_t b = std::size_t{1} << q[i]; if ((r >> (q.size() - 1 - i)) & 1U) row |= b; else row &= ~b; }
      want(row, col) += m(r, in);
    }
  }
  dd::mEdge e;
  if (two) {
    dd::TwoQubitGateMatrix gm;
    for (std::size_t i = 0; i < 4; ++i) for (std::size_t j = 0; j < 4; ++j) gm[i][j] = m(i, j);
    e = p->makeTwoQubitGateDD(gm, spec::qctrls(cs), static_cast<qc::Qubit>(q[0]), static_cast<qc::Qubit>(q[1]));
    if (cs.empty()) { auto e2 = p->makeTwoQubitGateDD(gm, static_cast<qc::Qubit>(q[0]), static_cast<qc::Qubit>(q[1])); require(e2 == e, "two-qubit overloads disagree"); }
  } else {
    dd::GateMatrix gm;
    for (std::size_t i = 0; i < 4; ++i) gm[i] = m.a[i];
    e = p->makeGateDD(gm, spec::qctrls(cs), static_cast<qc::Qubit>(q[0]));
    if (cs.size() == 1) { auto e2 = p->makeGateDD(gm, spec::qctrl(cs[0]), static_cast<qc::Qubit>(q[0])); require(e2 == e, "single-control overload disagrees"); }
    if (cs.empty()) { auto e2 = p->makeGateDD(gm, static_cast<qc::Qubit>(q[0])); require(e2 == e, "uncontrolled overload disagrees"); }
  }
  auto got = ddx::toMat(e, n);
  std::ostringstream d; d << n << "q raw " << (two ? "two" : "one") << "-target matrix " << ref::show(m.a) << " targets";
  for (auto t : q) d << " " << t;
  d << " controls"; for (auto& x : cs) d << " " << (x.pos ? "" : "!") << x.q;
  c.desc(d.str());
  require(ref::dist(got, want) < TOL, "raw gate DD differs: " + d.str());
  c.nontrivial = true;
  c.label("raw matrix");
}
// range checks: a target or control outside the package is refused
void outOfRange(Src& s, Ctx& c) {
  unsigned n = static_cast<unsigned>(s.range(1, 3));
  auto p = ddx::mkPackage(n);
  Op o = spec::genGate(s, n + 3, cfg(2));
  unsigned mx = 0;
  for (auto t : o.ts) mx = std::max(mx, t);
  for (auto& k : o.cs) mx = std::max(mx, k.q);
  if (mx < n) discard();
  auto op = spec::makeOp(o);
  bool threw = false;
  try { (void)dd::getDD(*op, *p); } catch (const std::exception&) { threw = true; }
  c.desc(std::to_string(n) + "q package, " + spec::show(o));
  c.nontrivial = true;
  c.label("out of range");
  if (!threw) { // the identity needs no level at all
    if (o.g == "i") return;
    fail("operation outside the package accepted: " + spec::show(o));
  }
}
} // namespace

int main(int argc, char** argv) {
  Suite su;
  su.property = "C20";
  su.rule = "one case = one operation (gate type, parameters incl. values around canonicalisation points, controls with polarity, target order, compound nesting) on 1-11 qubits; its DD, inverse DD, permuted DD and raw constructors are compared with a dense matrix built from independent definitions; non-trivial = has a control, a parameter, two targets or is compound; distinct by printed operation";
  su.assumptions = {"dense comparison with absolute tolerance 1e-9", "two-target convention: first target is the more significant bit"};
  su.props = {{"single-gate", singleGate, 50000, 4000000}, {"special-angles", specialAngles, 30000, 2000000}, {"compound", compound, 5000, 400000}, {"wide", wide, 5000, 400000}, {"raw-matrices", rawMatrices, 20000, 1000000}, {"out-of-range", outOfRange, 2000, 8000}};
  return mainImpl(su, argc, argv);
}
