// Symbolic gates: expressions as plain maps, built into library expressions and evaluated independently.
#pragma once
#include "spec.hpp"

#include "ir/operations/Expression.hpp"

namespace symspec {
struct Expr { std::map<std::string, double> t; double c = 0; bool sym = false; };
struct SymOp { std::string g; std::vector<Expr> p; std::vector<ref::Ctrl> cs; std::vector<unsigned> ts; };
using Assign = std::map<std::string, double>;

inline const std::vector<std::string>& vars() { static const std::vector<std::string> v{"x", "y", "z", "alpha", "a0"}; return v; }
inline const std::vector<std::string>& gates() { static const std::vector<std::string> v{"rx", "ry", "rz", "p", "u2", "u", "rxx", "ryy", "rzz", "rzx", "xx_minus_yy", "xx_plus_yy"}; return v; }
inline std::string show(const Expr& e) {
  if (!e.sym) return spec::num(e.c);
  std::string s; for (auto& [v, k] : e.t) s += spec::num(k) + "*" + v + "+";
  return s + spec::num(e.c);
}
inline std::string show(const SymOp& o) {
  std::string s; for (auto& c : o.cs) s += (c.pos ? "c" : "n") + std::to_string(c.q) + " ";
  s += "sym " + o.g + "("; for (std::size_t i = 0; i < o.p.size(); ++i) s += (i ? "," : "") + show(o.p[i]);
  s += ") "; for (std::size_t i = 0; i < o.ts.size(); ++i) s += (i ? "," : "") + std::to_string(o.ts[i]);
  return s;
}
inline double eval(const Expr& e, const Assign& a) { double r = e.c; for (auto& [v, k] : e.t) { auto it = a.find(v); r += k * (it == a.end() ? 0 : it->second); } return r; }
inline spec::Op eval(const SymOp& o, const Assign& a) { spec::Op r; r.g = o.g; r.cs = o.cs; r.ts = o.ts; for (auto& e : o.p) r.p.push_back(eval(e, a)); return r; }
inline Expr genExpr(pbt::Src& s) {
  Expr e; e.sym = true;
  int n = s.range(1, 3);
  for (int i = 0; i < n; ++i) e.t[s.pick(vars())] = s.pick({1.0, -1.0, 2.0, 0.5, -0.25, 3.0});
  if (s.chance(1, 3)) e.c = s.pick({M_PI, -M_PI_2, 1.0, -0.5, M_PI_4});
  return e;
}
inline Expr editExpr(pbt::Src& s, Expr e) {
  if (!e.sym) { e.c += 0.5; return e; }
  switch (s.below(4)) {
  case 0: { // another variable with the same coefficient
    auto v = s.pick(vars()); if (e.t.empty() || e.t.count(v)) return e;
    auto it = e.t.begin(); double k = it->second; e.t.erase(it); e.t[v] = k; return e; }
  case 1: e.c += 0.5; return e;
  case 2: if (!e.t.empty()) e.t.begin()->second = -e.t.begin()->second; return e;
  default: return e;
  }
}
inline SymOp gen(pbt::Src& s, unsigned nq) {
  SymOp o;
  do o.g = s.pick(gates()); while (nq < 2 && ref::isTwoTarget(o.g));
  unsigned nt = ref::isTwoTarget(o.g) ? 2 : 1;
  auto q = spec::distinctQubits(s, nq, nt + static_cast<unsigned>(s.chance(1, 2) ? s.below(nq - nt + 1) : 0));
  o.ts.assign(q.begin(), q.begin() + nt);
  for (std::size_t i = nt; i < q.size(); ++i) o.cs.push_back({q[i], !s.chance(3, 10)});
  std::sort(o.cs.begin(), o.cs.end());
  for (std::size_t i = 0; i < ref::numParams(o.g); ++i) {
    if (s.chance(2, 3)) o.p.push_back(genExpr(s)); else o.p.push_back({{}, spec::genAngle(s), false});
  }
  if (std::none_of(o.p.begin(), o.p.end(), [](auto& e) { return e.sym; })) o.p[s.below(o.p.size())] = genExpr(s);
  return o;
}
inline SymOp fromOp(const spec::Op& o) { SymOp r; r.g = o.g; r.cs = o.cs; r.ts = o.ts; for (auto p : o.p) r.p.push_back({{}, p, false}); return r; }
inline qc::Symbolic expr(const Expr& e) {
  std::vector<sym::Term<double>> ts;
  for (auto& [v, k] : e.t) ts.emplace_back(sym::Variable(v), k);
  // declared variables are ordered by the library's own order
  qc::Symbolic r{};
  for (auto& t : ts) r += t;
  r.setConst(e.c);
  return r;
}
inline qc::SymbolOrNumber param(const Expr& e) { if (e.sym) return expr(e); return e.c; }
inline std::unique_ptr<qc::Operation> make(const SymOp& o) {
  std::vector<qc::SymbolOrNumber> p; for (auto& e : o.p) p.push_back(param(e));
  return std::make_unique<qc::SymbolicOperation>(spec::qctrls(o.cs), qc::Targets(o.ts.begin(), o.ts.end()), spec::opType(o.g), p);
}
inline void append(qc::QuantumComputation& q, const SymOp& o) {
  auto c = spec::qctrls(o.cs);
  std::vector<qc::SymbolOrNumber> p; for (auto& e : o.p) p.push_back(param(e));
  const auto n = o.cs.size();
#define A1(nm) if (o.g == #nm) { if (n == 0) q.nm(p[0], o.ts[0]); else if (n == 1) q.c##nm(p[0], spec::qctrl(o.cs[0]), o.ts[0]); else q.mc##nm(p[0], c, o.ts[0]); return; }
#define B1(nm) if (o.g == #nm) { if (n == 0) q.nm(p[0], o.ts[0], o.ts[1]); else if (n == 1) q.c##nm(p[0], spec::qctrl(o.cs[0]), o.ts[0], o.ts[1]); else q.mc##nm(p[0], c, o.ts[0], o.ts[1]); return; }
#define B2(nm) if (o.g == #nm) { if (n == 0) q.nm(p[0], p[1], o.ts[0], o.ts[1]); else if (n == 1) q.c##nm(p[0], p[1], spec::qctrl(o.cs[0]), o.ts[0], o.ts[1]); else q.mc##nm(p[0], p[1], c, o.ts[0], o.ts[1]); return; }
  A1(rx) A1(ry) A1(rz) A1(p)
  if (o.g == "u2") { if (n == 0) q.u2(p[0], p[1], o.ts[0]); else if (n == 1) q.cu2(p[0], p[1], spec::qctrl(o.cs[0]), o.ts[0]); else q.mcu2(p[0], p[1], c, o.ts[0]); return; }
  if (o.g == "u") { if (n == 0) q.u(p[0], p[1], p[2], o.ts[0]); else if (n == 1) q.cu(p[0], p[1], p[2], spec::qctrl(o.cs[0]), o.ts[0]); else q.mcu(p[0], p[1], p[2], c, o.ts[0]); return; }
  B1(rxx) B1(ryy) B1(rzz) B1(rzx) B2(xx_minus_yy) B2(xx_plus_yy)
#undef A1
#undef B1
#undef B2
  throw std::logic_error("symspec::append " + o.g);
}
} // namespace symspec
namespace symspec {
// like spec::extract, but symbolic parameters are evaluated under an assignment
inline double value(const qc::SymbolOrNumber& p, const Assign& a) {
  if (std::holds_alternative<qc::fp>(p)) return std::get<qc::fp>(p);
  const auto& e = std::get<qc::Symbolic>(p);
  double r = e.getConst();
  for (auto& t : e) r += t.getCoeff() * a.at(t.getVar().getName());
  return r;
}
inline spec::Op extract(const qc::Operation& op, const Assign& a) {
  if (const auto* sy = dynamic_cast<const qc::SymbolicOperation*>(&op)) {
    spec::Op o; o.g = spec::gateName(op.getType());
    if (o.g == "?" || o.g == "barrier") throw std::runtime_error("extract: symbolic operation of type " + qc::toString(op.getType()));
    for (auto& p : sy->getParameters()) o.p.push_back(value(p, a));
    if (o.p.size() != ref::numParams(o.g)) throw std::runtime_error("extract: symbolic gate " + o.g + " with " + std::to_string(o.p.size()) + " parameters");
    o.ts.assign(op.getTargets().begin(), op.getTargets().end());
    for (auto& c : op.getControls()) o.cs.push_back({c.qubit, c.type == qc::Control::Type::Pos});
    return o;
  }
  if (const auto* co = dynamic_cast<const qc::CompoundOperation*>(&op)) { spec::Op o; o.kind = spec::Op::Compound; for (auto& x : *co) o.body.push_back(extract(*x, a)); return o; }
  return spec::extract(op);
}
inline std::vector<spec::Op> extract(const qc::QuantumComputation& q, const Assign& a) { std::vector<spec::Op> r; for (auto& op : q) r.push_back(extract(*op, a)); return r; }
} // namespace symspec
