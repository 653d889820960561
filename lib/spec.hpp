// Circuit specifications: generated independently of the library, built into a
// qc::QuantumComputation through its API, extracted back from one, and given a dense meaning.
#pragma once
#include "pbt.hpp"
#include "ref.hpp"

#include "ir/Definitions.hpp"
#include "ir/Permutation.hpp"
#include "ir/QuantumComputation.hpp"
#include "ir/Register.hpp"
#include "ir/operations/ClassicControlledOperation.hpp"
#include "ir/operations/CompoundOperation.hpp"
#include "ir/operations/Control.hpp"
#include "ir/operations/NonUnitaryOperation.hpp"
#include "ir/operations/OpType.hpp"
#include "ir/operations/StandardOperation.hpp"
#include "ir/operations/SymbolicOperation.hpp"

namespace spec {
using ref::Ctrl;
using ref::Vec;

struct Op {
  enum Kind { U, Measure, Reset, Barrier, Compound, If } kind = U;
  std::string g;
  std::vector<double> p;
  std::vector<Ctrl> cs;
  std::vector<unsigned> ts;
  std::vector<unsigned> bits;
  std::vector<Op> body;
  bool condReg = false;
  unsigned condStart = 0, condSize = 1;
  uint64_t val = 1;
  int cmp = 0; // Eq, Neq, Lt, Leq, Gt, Geq
};
struct Reg { std::string name; unsigned size; bool anc = false; };
struct Circ {
  unsigned nq = 0, nc = 0;
  std::vector<Reg> qregs, cregs; // empty: a single default register
  std::vector<Op> ops;
  double gphase = 0;
};

inline const std::vector<std::string>& oneTarget() { static const std::vector<std::string> v{"i", "x", "y", "z", "h", "s", "sdg", "t", "tdg", "v", "vdg", "sx", "sxdg", "rx", "ry", "rz", "p", "u2", "u"}; return v; }
inline const std::vector<std::string>& twoTarget() { static const std::vector<std::string> v{"swap", "iswap", "iswapdg", "dcx", "ecr", "peres", "peresdg", "rxx", "ryy", "rzz", "rzx", "xx_minus_yy", "xx_plus_yy"}; return v; }
inline const std::vector<std::string>& allGates() { static const std::vector<std::string> v = [] { auto x = oneTarget(); for (auto& y : twoTarget()) x.push_back(y); return x; }(); return v; }

inline qc::OpType opType(const std::string& g) {
  static const std::map<std::string, qc::OpType> m{{"gphase", qc::GPhase}, {"i", qc::I}, {"x", qc::X}, {"y", qc::Y}, {"z", qc::Z}, {"h", qc::H}, {"s", qc::S}, {"sdg", qc::Sdg}, {"t", qc::T}, {"tdg", qc::Tdg}, {"v", qc::V}, {"vdg", qc::Vdg}, {"sx", qc::SX}, {"sxdg", qc::SXdg}, {"rx", qc::RX}, {"ry", qc::RY}, {"rz", qc::RZ}, {"p", qc::P}, {"u2", qc::U2}, {"u", qc::U}, {"swap", qc::SWAP}, {"iswap", qc::iSWAP}, {"iswapdg", qc::iSWAPdg}, {"dcx", qc::DCX}, {"ecr", qc::ECR}, {"peres", qc::Peres}, {"peresdg", qc::Peresdg}, {"rxx", qc::RXX}, {"ryy", qc::RYY}, {"rzz", qc::RZZ}, {"rzx", qc::RZX}, {"xx_minus_yy", qc::XXminusYY}, {"xx_plus_yy", qc::XXplusYY}, {"move", qc::Move}};
  return m.at(g);
}
inline std::string gateName(qc::OpType t) {
  switch (t) {
  case qc::GPhase: return "gphase"; case qc::I: return "i"; case qc::X: return "x"; case qc::Y: return "y"; case qc::Z: return "z"; case qc::H: return "h"; case qc::S: return "s"; case qc::Sdg: return "sdg"; case qc::T: return "t"; case qc::Tdg: return "tdg"; case qc::V: return "v"; case qc::Vdg: return "vdg"; case qc::SX: return "sx"; case qc::SXdg: return "sxdg"; case qc::RX: return "rx"; case qc::RY: return "ry"; case qc::RZ: return "rz"; case qc::P: return "p"; case qc::U2: return "u2"; case qc::U: return "u";
  case qc::SWAP: return "swap"; case qc::iSWAP: return "iswap"; case qc::iSWAPdg: return "iswapdg"; case qc::DCX: return "dcx"; case qc::ECR: return "ecr"; case qc::Peres: return "peres"; case qc::Peresdg: return "peresdg"; case qc::RXX: return "rxx"; case qc::RYY: return "ryy"; case qc::RZZ: return "rzz"; case qc::RZX: return "rzx"; case qc::XXminusYY: return "xx_minus_yy"; case qc::XXplusYY: return "xx_plus_yy"; case qc::Move: return "move"; case qc::Barrier: return "barrier";
  default: return "?";
  }
}

// ---------------------------------------------------------------- printing
inline std::string num(double d) { std::ostringstream o; o.precision(17); o << d; return o.str(); }
inline std::string show(const Op& o) {
  std::ostringstream s;
  auto qs = [&](const std::vector<unsigned>& v) { for (std::size_t i = 0; i < v.size(); ++i) s << (i ? "," : "") << v[i]; };
  switch (o.kind) {
  case Op::U:
    for (auto& c : o.cs) s << (c.pos ? "c" : "n") << c.q << " ";
    s << o.g;
    if (!o.p.empty()) { s << "("; for (std::size_t i = 0; i < o.p.size(); ++i) s << (i ? "," : "") << num(o.p[i]); s << ")"; }
    s << " "; qs(o.ts); break;
  case Op::Measure: s << "measure "; qs(o.ts); s << "->"; qs(o.bits); break;
  case Op::Reset: s << "reset "; qs(o.ts); break;
  case Op::Barrier: s << "barrier "; qs(o.ts); break;
  case Op::Compound: s << "{"; for (auto& b : o.body) s << show(b) << "; "; s << "}"; break;
  case Op::If: {
    static const char* cmp[] = {"==", "!=", "<", "<=", ">", ">="};
    s << "if (";
    if (o.condReg) s << "c[" << o.condStart << "+" << o.condSize << "]"; else s << "b" << o.condStart;
    s << cmp[o.cmp] << o.val << ") " << show(o.body.at(0)); break; }
  }
  return s.str();
}
inline std::string show(const std::vector<Op>& ops) { std::string r; for (auto& o : ops) r += show(o) + "; "; return r; }
inline std::string show(const Circ& c) {
  std::ostringstream s; s << c.nq << "q";
  if (!c.qregs.empty()) { s << "("; for (auto& r : c.qregs) s << (r.anc ? "anc " : "") << r.name << ":" << r.size << " "; s << ")"; }
  s << " " << c.nc << "c";
  if (!c.cregs.empty()) { s << "("; for (auto& r : c.cregs) s << r.name << ":" << r.size << " "; s << ")"; }
  if (c.gphase != 0) s << " gphase=" << num(c.gphase);
  s << ": " << show(c.ops);
  return s.str();
}

// ---------------------------------------------------------------- generation
inline double genAngle(pbt::Src& s) {
  switch (s.below(8)) {
  case 0: case 1: case 2: return M_PI * s.pick({0, 1, -1, 2, -2, 3, -3, 4, -4, 5, 6, 7, 8}) / 4.0; // multiples of pi/4
  case 3: return M_PI * s.range(-16, 16) / 8.0;
  case 4: return M_PI * s.range(-7, 7) / static_cast<double>(s.range(1, 12));
  case 5: return s.unit() * 4 * M_PI;
  case 6: return s.unit() * M_PI;
  default: return s.pick({1.0, -1.0, 0.1, -0.3, 1e-3, -1e-5, 2.5, 10.0, -20.0, 1e-8});
  }
}
struct GenCfg {
  unsigned maxControls = 3;
  bool neg = true;
  std::vector<std::string> gates = allGates();
  bool gphaseOps = false;   // global phase operations
  bool barriers = false, compounds = false, measures = false, resets = false, ifs = false;
  bool multiMeasure = false;
  bool ctrlTwo = true;      // controls on two-target gates
  bool cmpKinds = false;    // other comparisons than equality
  int compoundDepth = 2;
  bool compoundNonUnitary = false;
  bool ifCompound = false;
  bool bitConds = true, regConds = true;
};
inline std::vector<unsigned> distinctQubits(pbt::Src& s, unsigned nq, unsigned k) {
  std::vector<unsigned> all(nq);
  for (unsigned i = 0; i < nq; ++i) all[i] = i;
  std::vector<unsigned> r;
  for (unsigned i = 0; i < k; ++i) { auto j = s.below(all.size()); r.push_back(all[j]); all.erase(all.begin() + static_cast<long>(j)); }
  return r;
}
inline Op genGate(pbt::Src& s, unsigned nq, const GenCfg& g) {
  Op o;
  for (int tries = 0; tries < 50; ++tries) {
    o.g = s.pick(g.gates);
    if (!(ref::isTwoTarget(o.g) && nq < 2)) break;
    o.g = "x";
  }
  unsigned nt = ref::isTwoTarget(o.g) ? 2 : 1;
  unsigned maxc = std::min(g.maxControls, nq - nt);
  if (nt == 2 && !g.ctrlTwo) maxc = 0;
  unsigned k = 0;
  if (maxc > 0) { uint64_t r = s.below(10); k = r < 5 ? 0 : r < 8 ? 1 : static_cast<unsigned>(s.range(1, static_cast<int>(maxc))); }
  auto q = distinctQubits(s, nq, nt + k);
  o.ts.assign(q.begin(), q.begin() + nt);
  for (unsigned i = nt; i < nt + k; ++i) o.cs.push_back({q[i], g.neg ? !s.chance(3, 10) : true});
  std::sort(o.cs.begin(), o.cs.end());
  for (std::size_t i = 0; i < ref::numParams(o.g); ++i) o.p.push_back(genAngle(s));
  return o;
}
inline Op genOp(pbt::Src& s, unsigned nq, unsigned nc, const GenCfg& g, int depth = 0) {
  std::vector<int> kinds{0, 0, 0, 0, 0, 0};
  if (g.barriers) kinds.push_back(1);
  if (g.compounds && depth < g.compoundDepth) kinds.push_back(2);
  if (g.measures && nc > 0 && (depth == 0 || g.compoundNonUnitary)) kinds.push_back(3);
  if (g.resets && (depth == 0 || g.compoundNonUnitary)) kinds.push_back(4);
  if (g.ifs && nc > 0 && (depth == 0 || g.compoundNonUnitary)) kinds.push_back(5);
  if (g.gphaseOps) kinds.push_back(6);
  Op o;
  switch (s.pick(kinds)) {
  case 1: o.kind = Op::Barrier; o.ts = distinctQubits(s, nq, static_cast<unsigned>(s.range(1, static_cast<int>(nq)))); return o;
  case 2: { o.kind = Op::Compound; int n = s.range(1, 4); for (int i = 0; i < n; ++i) o.body.push_back(genOp(s, nq, nc, g, depth + 1)); return o; }
  case 3: {
    o.kind = Op::Measure;
    unsigned k = g.multiMeasure ? static_cast<unsigned>(s.range(1, static_cast<int>(std::min(nq, nc)))) : 1;
    o.ts = distinctQubits(s, nq, k);
    o.bits = distinctQubits(s, nc, k);
    return o; }
  case 4: o.kind = Op::Reset; o.ts = distinctQubits(s, nq, static_cast<unsigned>(s.chance(1, 4) ? s.range(1, static_cast<int>(nq)) : 1)); return o;
  case 5: {
    o.kind = Op::If;
    if (g.ifCompound && s.chance(1, 4)) { Op b; b.kind = Op::Compound; int n = s.range(1, 3); for (int i = 0; i < n; ++i) b.body.push_back(genGate(s, nq, g)); o.body.push_back(b); }
    else o.body.push_back(genGate(s, nq, g));
    o.condReg = !g.bitConds || (g.regConds && s.coin());
    if (o.condReg) { o.condStart = 0; o.condSize = nc; o.val = s.below((1ULL << nc) + (s.chance(1, 8) ? 1 : 0)); }
    else { o.condStart = static_cast<unsigned>(s.below(nc)); o.val = s.chance(7, 10) ? 1 : 0; }
    o.cmp = g.cmpKinds && o.condReg ? s.range(0, 5) : 0;
    return o; }
  case 6: o.g = "gphase"; o.p = {genAngle(s)}; return o;
  default: return genGate(s, nq, g);
  }
}
inline std::vector<Op> genOps(pbt::Src& s, unsigned nq, unsigned nc, const GenCfg& g, int maxLen) {
  std::vector<Op> r;
  int n = s.sized(0, maxLen);
  for (int i = 0; i < n; ++i) r.push_back(genOp(s, nq, nc, g));
  return r;
}
inline bool anyOp(const std::vector<Op>& ops, const std::function<bool(const Op&)>& f) {
  for (auto& o : ops) { if (f(o)) return true; if (anyOp(o.body, f)) return true; }
  return false;
}

// ---------------------------------------------------------------- building
inline qc::Controls qctrls(const std::vector<Ctrl>& cs) { qc::Controls r; for (auto& c : cs) r.emplace(qc::Qubit{c.q}, c.pos ? qc::Control::Type::Pos : qc::Control::Type::Neg); return r; }
inline qc::Control qctrl(const Ctrl& c) { return {qc::Qubit{c.q}, c.pos ? qc::Control::Type::Pos : qc::Control::Type::Neg}; }

inline std::unique_ptr<qc::Operation> makeOp(const Op& o, const qc::QuantumComputation* qcirc = nullptr) {
  switch (o.kind) {
  case Op::U: {
    qc::Targets t(o.ts.begin(), o.ts.end());
    return std::make_unique<qc::StandardOperation>(qctrls(o.cs), t, opType(o.g), o.p);
  }
  case Op::Measure: { std::vector<qc::Qubit> q(o.ts.begin(), o.ts.end()); std::vector<qc::Bit> b(o.bits.begin(), o.bits.end()); return std::make_unique<qc::NonUnitaryOperation>(q, b); }
  case Op::Reset: return std::make_unique<qc::NonUnitaryOperation>(qc::Targets(o.ts.begin(), o.ts.end()), qc::Reset);
  case Op::Barrier: return std::make_unique<qc::StandardOperation>(qc::Targets(o.ts.begin(), o.ts.end()), qc::Barrier);
  case Op::Compound: { std::vector<std::unique_ptr<qc::Operation>> v; for (auto& b : o.body) v.push_back(makeOp(b, qcirc)); return std::make_unique<qc::CompoundOperation>(std::move(v)); }
  case Op::If: {
    auto inner = makeOp(o.body.at(0), qcirc);
    if (o.condReg) {
      if (qcirc) for (auto& [n, r] : qcirc->getClassicalRegisters()) if (r.getStartIndex() == o.condStart && r.getSize() == o.condSize)
        return std::make_unique<qc::ClassicControlledOperation>(std::move(inner), r, o.val, static_cast<qc::ComparisonKind>(o.cmp));
      return std::make_unique<qc::ClassicControlledOperation>(std::move(inner), qc::ClassicalRegister(o.condStart, o.condSize, "c"), o.val, static_cast<qc::ComparisonKind>(o.cmp));
    }
    return std::make_unique<qc::ClassicControlledOperation>(std::move(inner), static_cast<qc::Bit>(o.condStart), o.val, static_cast<qc::ComparisonKind>(o.cmp));
  }
  }
  throw std::logic_error("makeOp");
}

// use the circuit's convenience methods (h, cx, mcx, ...)
inline void appendViaApi(qc::QuantumComputation& q, const Op& o) {
  const auto n = o.cs.size();
#define S0(nm) if (o.g == #nm) { if (n == 0) q.nm(o.ts[0]); else if (n == 1) q.c##nm(qctrl(o.cs[0]), o.ts[0]); else q.mc##nm(qctrls(o.cs), o.ts[0]); return; }
#define S1(nm) if (o.g == #nm) { if (n == 0) q.nm(o.p[0], o.ts[0]); else if (n == 1) q.c##nm(o.p[0], qctrl(o.cs[0]), o.ts[0]); else q.mc##nm(o.p[0], qctrls(o.cs), o.ts[0]); return; }
#define T0(nm) if (o.g == #nm) { if (n == 0) q.nm(o.ts[0], o.ts[1]); else if (n == 1) q.c##nm(qctrl(o.cs[0]), o.ts[0], o.ts[1]); else q.mc##nm(qctrls(o.cs), o.ts[0], o.ts[1]); return; }
#define T1(nm) if (o.g == #nm) { if (n == 0) q.nm(o.p[0], o.ts[0], o.ts[1]); else if (n == 1) q.c##nm(o.p[0], qctrl(o.cs[0]), o.ts[0], o.ts[1]); else q.mc##nm(o.p[0], qctrls(o.cs), o.ts[0], o.ts[1]); return; }
#define T2(nm) if (o.g == #nm) { if (n == 0) q.nm(o.p[0], o.p[1], o.ts[0], o.ts[1]); else if (n == 1) q.c##nm(o.p[0], o.p[1], qctrl(o.cs[0]), o.ts[0], o.ts[1]); else q.mc##nm(o.p[0], o.p[1], qctrls(o.cs), o.ts[0], o.ts[1]); return; }
  switch (o.kind) {
  case Op::U:
    S0(i) S0(x) S0(y) S0(z) S0(h) S0(s) S0(sdg) S0(t) S0(tdg) S0(v) S0(vdg) S0(sx) S0(sxdg)
    S1(rx) S1(ry) S1(rz) S1(p)
    if (o.g == "u2") { if (n == 0) q.u2(o.p[0], o.p[1], o.ts[0]); else if (n == 1) q.cu2(o.p[0], o.p[1], qctrl(o.cs[0]), o.ts[0]); else q.mcu2(o.p[0], o.p[1], qctrls(o.cs), o.ts[0]); return; }
    if (o.g == "u") { if (n == 0) q.u(o.p[0], o.p[1], o.p[2], o.ts[0]); else if (n == 1) q.cu(o.p[0], o.p[1], o.p[2], qctrl(o.cs[0]), o.ts[0]); else q.mcu(o.p[0], o.p[1], o.p[2], qctrls(o.cs), o.ts[0]); return; }
    T0(swap) T0(dcx) T0(ecr) T0(iswap) T0(iswapdg) T0(peres) T0(peresdg) T0(move)
    T1(rxx) T1(ryy) T1(rzz) T1(rzx)
    T2(xx_minus_yy) T2(xx_plus_yy)
    break;
  case Op::Measure:
    if (o.ts.size() == 1) q.measure(o.ts[0], o.bits[0]);
    else q.measure(qc::Targets(o.ts.begin(), o.ts.end()), std::vector<qc::Bit>(o.bits.begin(), o.bits.end()));
    return;
  case Op::Reset: if (o.ts.size() == 1) q.reset(o.ts[0]); else q.reset(qc::Targets(o.ts.begin(), o.ts.end())); return;
  case Op::Barrier: if (o.ts.size() == 1) q.barrier(o.ts[0]); else q.barrier(qc::Targets(o.ts.begin(), o.ts.end())); return;
  case Op::If: {
    const auto& b = o.body.at(0);
    if (b.kind == Op::U && b.ts.size() == 1) {
      const auto k = static_cast<qc::ComparisonKind>(o.cmp);
      if (o.condReg) {
        for (auto& [nm, r] : q.getClassicalRegisters()) if (r.getStartIndex() == o.condStart && r.getSize() == o.condSize) {
          if (b.cs.empty()) q.classicControlled(opType(b.g), b.ts[0], r, o.val, k, b.p);
          else if (b.cs.size() == 1) q.classicControlled(opType(b.g), b.ts[0], qctrl(b.cs[0]), r, o.val, k, b.p);
          else q.classicControlled(opType(b.g), b.ts[0], qctrls(b.cs), r, o.val, k, b.p);
          return;
        }
      } else {
        if (b.cs.empty()) q.classicControlled(opType(b.g), b.ts[0], static_cast<qc::Bit>(o.condStart), o.val, k, b.p);
        else if (b.cs.size() == 1) q.classicControlled(opType(b.g), b.ts[0], qctrl(b.cs[0]), static_cast<qc::Bit>(o.condStart), o.val, k, b.p);
        else q.classicControlled(opType(b.g), b.ts[0], qctrls(b.cs), static_cast<qc::Bit>(o.condStart), o.val, k, b.p);
        return;
      }
    }
    break; }
  default: break;
  }
#undef S0
#undef S1
#undef T0
#undef T1
#undef T2
  q.emplace_back(makeOp(o, &q));
}
inline qc::QuantumComputation frame(const Circ& c) {
  if (c.qregs.empty() && c.cregs.empty()) return qc::QuantumComputation(c.nq, c.nc);
  qc::QuantumComputation q;
  if (c.qregs.empty()) { if (c.nq) q.addQubitRegister(c.nq); }
  else for (auto& r : c.qregs) { if (r.anc) q.addAncillaryRegister(r.size, r.name); else q.addQubitRegister(r.size, r.name); }
  if (c.cregs.empty()) { if (c.nc) q.addClassicalRegister(c.nc); }
  else for (auto& r : c.cregs) q.addClassicalRegister(r.size, r.name);
  return q;
}
inline qc::QuantumComputation build(const Circ& c, bool api = false) {
  auto q = frame(c);
  if (c.gphase != 0) q.gphase(c.gphase);
  for (auto& o : c.ops) { if (api) appendViaApi(q, o); else q.emplace_back(makeOp(o, &q)); }
  return q;
}

// ---------------------------------------------------------------- extraction
inline Op extract(const qc::Operation& op) {
  Op o;
  auto cs = [&](const qc::Operation& x) { for (auto& c : x.getControls()) o.cs.push_back({c.qubit, c.type == qc::Control::Type::Pos}); };
  if (const auto* cc = dynamic_cast<const qc::ClassicControlledOperation*>(&op)) {
    o.kind = Op::If;
    o.body.push_back(extract(*cc->getOperation()));
    if (cc->getControlRegister().has_value()) { o.condReg = true; o.condStart = static_cast<unsigned>(cc->getControlRegister()->getStartIndex()); o.condSize = static_cast<unsigned>(cc->getControlRegister()->getSize()); }
    else { o.condReg = false; o.condStart = static_cast<unsigned>(cc->getControlBit().value()); o.condSize = 1; }
    o.val = cc->getExpectedValue();
    o.cmp = static_cast<int>(cc->getComparisonKind());
    return o;
  }
  if (const auto* co = dynamic_cast<const qc::CompoundOperation*>(&op)) { o.kind = Op::Compound; for (auto& x : *co) o.body.push_back(extract(*x)); return o; }
  if (const auto* nu = dynamic_cast<const qc::NonUnitaryOperation*>(&op)) {
    o.ts.assign(nu->getTargets().begin(), nu->getTargets().end());
    if (nu->getType() == qc::Measure) { o.kind = Op::Measure; o.bits.assign(nu->getClassics().begin(), nu->getClassics().end()); }
    else if (nu->getType() == qc::Reset) o.kind = Op::Reset;
    else if (nu->getType() == qc::Barrier) o.kind = Op::Barrier;
    else throw std::runtime_error("extract: non-unitary operation of type " + qc::toString(nu->getType()));
    if (o.kind == Op::Measure && o.ts.size() != o.bits.size()) throw std::runtime_error("extract: measurement with different numbers of qubits and bits");
    return o;
  }
  o.ts.assign(op.getTargets().begin(), op.getTargets().end());
  if (op.getType() == qc::Barrier) { o.kind = Op::Barrier; return o; }
  o.g = gateName(op.getType());
  if (o.g == "?" || o.g == "barrier") throw std::runtime_error("extract: operation of type " + qc::toString(op.getType()) + " where a gate is expected");
  o.p = op.getParameter();
  if (o.p.size() != ref::numParams(o.g)) throw std::runtime_error("extract: gate " + o.g + " with " + std::to_string(o.p.size()) + " parameters");
  if (o.g != "gphase" && o.ts.size() != (ref::isTwoTarget(o.g) ? 2U : 1U)) throw std::runtime_error("extract: gate " + o.g + " with " + std::to_string(o.ts.size()) + " targets");
  cs(op);
  return o;
}
inline Circ extract(const qc::QuantumComputation& q) {
  Circ c;
  c.nq = static_cast<unsigned>(q.getNqubits());
  c.nc = static_cast<unsigned>(q.getNcbits());
  c.gphase = q.getGlobalPhase();
  std::vector<std::pair<unsigned, Reg>> rs;
  for (auto& [n, r] : q.getQuantumRegisters()) rs.push_back({r.getStartIndex(), {n, static_cast<unsigned>(r.getSize()), false}});
  for (auto& [n, r] : q.getAncillaRegisters()) rs.push_back({r.getStartIndex(), {n, static_cast<unsigned>(r.getSize()), true}});
  std::sort(rs.begin(), rs.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (auto& [s, r] : rs) c.qregs.push_back(r);
  rs.clear();
  for (auto& [n, r] : q.getClassicalRegisters()) rs.push_back({static_cast<unsigned>(r.getStartIndex()), {n, static_cast<unsigned>(r.getSize()), false}});
  std::sort(rs.begin(), rs.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (auto& [s, r] : rs) c.cregs.push_back(r);
  for (auto& op : q) c.ops.push_back(extract(*op));
  return c;
}
inline bool angleEq(double a, double b, double tol = 1e-9) { return std::abs(a - b) <= tol * std::max(1.0, std::abs(a)); }
inline bool same(const Op& a, const Op& b, double tol = 0) {
  if (a.kind != b.kind) return false;
  if (a.g != b.g || a.cs != b.cs || a.ts != b.ts || a.bits != b.bits || a.p.size() != b.p.size() || a.body.size() != b.body.size()) return false;
  for (std::size_t i = 0; i < a.p.size(); ++i) if (!(tol == 0 ? a.p[i] == b.p[i] : angleEq(a.p[i], b.p[i], tol))) return false;
  if (a.kind == Op::If && (a.condReg != b.condReg || a.condStart != b.condStart || a.condSize != b.condSize || a.val != b.val || a.cmp != b.cmp)) return false;
  for (std::size_t i = 0; i < a.body.size(); ++i) if (!same(a.body[i], b.body[i], tol)) return false;
  return true;
}
inline bool same(const std::vector<Op>& a, const std::vector<Op>& b, double tol = 0) {
  if (a.size() != b.size()) return false;
  for (std::size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i], tol)) return false;
  return true;
}

// ---------------------------------------------------------------- meaning
inline void applyUnitary(Vec& v, const Op& o) {
  if (o.kind == Op::U) { ref::apply(v, o.g, o.p, o.cs, o.ts); return; }
  if (o.kind == Op::Barrier) return;
  if (o.kind == Op::Compound) { for (auto& b : o.body) applyUnitary(v, b); return; }
  throw std::logic_error("applyUnitary: not unitary: " + show(o));
}
inline Vec basis(unsigned nq, std::size_t k) { Vec v(std::size_t{1} << nq); v[k] = 1; return v; }
inline void scale(Vec& v, ref::C f) { for (auto& c : v) c *= f; }
inline ref::Mat unitary(const std::vector<Op>& ops, unsigned nq, double gphase = 0) {
  ref::Mat m(std::size_t{1} << nq);
  for (std::size_t k = 0; k < m.n; ++k) {
    Vec v = basis(nq, k);
    for (auto& o : ops) applyUnitary(v, o);
    scale(v, ref::ei(gphase));
    for (std::size_t i = 0; i < m.n; ++i) m(i, k) = v[i];
  }
  return m;
}
inline bool holds(int cmp, uint64_t a, uint64_t b) {
  switch (cmp) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; }
}
// Branches of a dynamic circuit: unnormalised states with the classical bits.
struct Branch { Vec v; std::vector<char> bits; };
inline void project(Vec& v, unsigned q, bool one) { for (std::size_t i = 0; i < v.size(); ++i) if ((((i >> q) & 1U) != 0) != one) v[i] = 0; }
inline double norm2(const Vec& v) { double s = 0; for (auto& c : v) s += std::norm(c); return s; }
inline void run(std::vector<Branch>& bs, const Op& o) {
  constexpr double EPS = 1e-24;
  switch (o.kind) {
  case Op::U: for (auto& b : bs) ref::apply(b.v, o.g, o.p, o.cs, o.ts); return;
  case Op::Barrier: return;
  case Op::Compound: for (auto& x : o.body) run(bs, x); return;
  case Op::Measure:
    for (std::size_t k = 0; k < o.ts.size(); ++k) {
      std::vector<Branch> out;
      for (auto& b : bs) for (int r = 0; r < 2; ++r) { Branch n = b; project(n.v, o.ts[k], r == 1); if (norm2(n.v) < EPS) continue; n.bits.at(o.bits[k]) = static_cast<char>(r); out.push_back(std::move(n)); }
      bs = std::move(out);
    }
    return;
  case Op::Reset:
    for (auto q : o.ts) {
      std::vector<Branch> out;
      for (auto& b : bs) for (int r = 0; r < 2; ++r) { Branch n = b; project(n.v, q, r == 1); if (norm2(n.v) < EPS) continue; if (r == 1) ref::apply(n.v, "x", {}, {}, {q}); out.push_back(std::move(n)); }
      bs = std::move(out);
    }
    return;
  case Op::If: {
    std::vector<Branch> yes, no;
    for (auto& b : bs) {
      uint64_t v = 0;
      if (o.condReg) for (unsigned i = 0; i < o.condSize; ++i) v |= static_cast<uint64_t>(b.bits.at(o.condStart + i)) << i;
      else v = static_cast<uint64_t>(b.bits.at(o.condStart));
      (holds(o.cmp, v, o.val) ? yes : no).push_back(std::move(b));
    }
    run(yes, o.body.at(0));
    bs = std::move(no);
    for (auto& b : yes) bs.push_back(std::move(b));
    return; }
  }
}
inline std::vector<Branch> runAll(const std::vector<Op>& ops, unsigned nq, unsigned nc, const Vec& init) {
  std::vector<Branch> bs{{init, std::vector<char>(nc, 0)}};
  (void)nq;
  for (auto& o : ops) { run(bs, o); if (bs.size() > 20000) throw pbt::Discard{}; }
  return bs;
}
using Dist = std::map<std::string, double>; // bit string, highest bit first
inline std::string bitString(const std::vector<char>& b) { std::string s; for (std::size_t i = b.size(); i-- > 0;) s += b[i] ? '1' : '0'; return s; }
inline Dist distribution(const std::vector<Branch>& bs) { Dist d; for (auto& b : bs) d[bitString(b.bits)] += norm2(b.v); return d; }
inline double distDist(const Dist& a, const Dist& b) {
  double m = 0;
  for (auto& [k, v] : a) { auto it = b.find(k); m = std::max(m, std::abs(v - (it == b.end() ? 0 : it->second))); }
  for (auto& [k, v] : b) if (!a.count(k)) m = std::max(m, v);
  return m;
}
inline std::string show(const Dist& d) { std::ostringstream s; s << "{"; for (auto& [k, v] : d) if (v > 1e-12) s << k << ":" << v << " "; s << "}"; return s.str(); }
} // namespace spec
