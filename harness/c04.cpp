// build: {"libs": ["ir", "zx"]}
// C04: symbolic parameters - algebra, evaluation and instantiation commute.
#include "symspec.hpp"
#include "zx/Rational.hpp"
#include "zx/ZXDefinitions.hpp"
using namespace pbt;
using spec::Op;

namespace {
template <class F> bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
using E = qc::Symbolic;
using T = sym::Term<double>;

// ------------------------------------------------------------------ (a) algebra over numbers
struct M { std::map<std::string, double> t; double c = 0; }; // exact for dyadic numbers
std::string show(const M& m) { std::string s; for (auto& [v, k] : m.t) s += spec::num(k) + "*" + v + " + "; return s + spec::num(m.c); }
void clean(M& m) { for (auto it = m.t.begin(); it != m.t.end();) if (it->second == 0) it = m.t.erase(it); else ++it; }
M addm(M a, const M& b, double f) { for (auto& [v, k] : b.t) a.t[v] += f * k; a.c += f * b.c; clean(a); return a; }
M mulm(M a, double f) { for (auto& [v, k] : a.t) k *= f; a.c *= f; clean(a); return a; }
const std::vector<std::string> names{"x", "y", "z", "alpha", "a0", "w_1"};
double coef(Src& s) { return static_cast<double>(s.range(-16, 16)) / 4; }
double coefNZ(Src& s) { double d = coef(s); return d == 0 ? 1.5 : d; }
struct X { E e; M m; std::string d; };
T term(const std::string& v, double k) { return T(sym::Variable(v), k); }
X leaf(Src& s) {
  X x;
  switch (s.below(6)) {
  case 0: { double c = coef(s); x.e = E(c); x.m.c = c; x.d = spec::num(c); return x; }
  case 1: { auto v = s.pick(names); x.e = E(sym::Variable(v)); x.m.t[v] = 1; x.d = v; return x; }
  case 2: { auto v = s.pick(names), w = s.pick(names); double a = coef(s), b = coef(s); x.e = E(term(v, a), term(w, b)); x.m.t[v] += a; x.m.t[w] += b; x.d = "E(" + spec::num(a) + v + "," + spec::num(b) + w + ")"; break; }
  case 3: { auto v = s.pick(names), w = s.pick(names), u = s.pick(names); x.e = E(sym::Variable(v), sym::Variable(w), sym::Variable(u)); x.m.t[v] += 1; x.m.t[w] += 1; x.m.t[u] += 1; x.d = "E(" + v + "," + w + "," + u + ")"; break; }
  case 4: { // vector of terms in any order, also repeated
    std::vector<T> ts; int n = s.range(0, 4); x.d = "E({";
    for (int i = 0; i < n; ++i) { auto v = s.pick(names); double k = coef(s); ts.push_back(term(v, k)); x.m.t[v] += k; x.d += spec::num(k) + v + " "; }
    double c = coef(s); x.e = E(ts, c); x.m.c = c; x.d += "}," + spec::num(c) + ")"; break; }
  default: { auto v = s.pick(names); double k = coef(s); x.e = E(term(v, k)); x.m.t[v] += k; x.d = spec::num(k) + v; break; }
  }
  clean(x.m);
  return x;
}
X tree(Src& s, int depth) {
  if (depth == 0 || s.chance(1, 5)) return leaf(s);
  X a = tree(s, depth - 1), r;
  auto v = s.pick(names); double k = coefNZ(s), c = coef(s), f = s.pick({2.0, -1.0, 0.5, 4.0, -0.25, 1.0, -2.0});
  switch (s.below(20)) {
  case 0: case 1: case 2: { X b = tree(s, depth - 1); r.e = a.e + b.e; r.m = addm(a.m, b.m, 1); r.d = "(" + a.d + ")+(" + b.d + ")"; break; }
  case 3: case 4: { X b = tree(s, depth - 1); r.e = a.e - b.e; r.m = addm(a.m, b.m, -1); r.d = "(" + a.d + ")-(" + b.d + ")"; break; }
  case 5: r.e = a.e + term(v, k); r.m = addm(a.m, {{{v, k}}, 0}, 1); r.d = "(" + a.d + ")+T" + spec::num(k) + v; break;
  case 6: r.e = term(v, k) + a.e; r.m = addm(a.m, {{{v, k}}, 0}, 1); r.d = "T" + spec::num(k) + v + "+(" + a.d + ")"; break;
  case 7: r.e = a.e - term(v, k); r.m = addm(a.m, {{{v, k}}, 0}, -1); r.d = "(" + a.d + ")-T" + spec::num(k) + v; break;
  case 8: r.e = term(v, k) - a.e; r.m = addm({{{v, k}}, 0}, a.m, -1); r.d = "T" + spec::num(k) + v + "-(" + a.d + ")"; break;
  case 9: r.e = a.e + c; r.m = addm(a.m, {{}, c}, 1); r.d = "(" + a.d + ")+" + spec::num(c); break;
  case 10: r.e = a.e - c; r.m = addm(a.m, {{}, c}, -1); r.d = "(" + a.d + ")-" + spec::num(c); break;
  case 11: r.e = c - a.e; r.m = addm({{}, c}, a.m, -1); r.d = spec::num(c) + "-(" + a.d + ")"; break;
  case 12: r.e = a.e * f; r.m = mulm(a.m, f); r.d = "(" + a.d + ")*" + spec::num(f); break;
  case 13: r.e = f * a.e; r.m = mulm(a.m, f); r.d = spec::num(f) + "*(" + a.d + ")"; break;
  case 14: r.e = a.e / f; r.m = mulm(a.m, 1 / f); r.d = "(" + a.d + ")/" + spec::num(f); break;
  case 15: { int64_t i = s.pick({1, 2, -2, 4, -1}); r.e = a.e / i; r.m = mulm(a.m, 1.0 / static_cast<double>(i)); r.d = "(" + a.d + ")/i" + std::to_string(i); break; }
  case 16: r.e = -a.e; r.m = mulm(a.m, -1); r.d = "-(" + a.d + ")"; break;
  case 17: { r = a; if (s.coin()) { r.e += r.e; r.m = mulm(a.m, 2); r.d = "self+=(" + a.d + ")"; } else { r.e -= r.e; r.m = {}; r.d = "self-=(" + a.d + ")"; } break; }
  case 18: { // in-place forms with terms and numbers
    r = a; r.e += term(v, k); r.e -= c; r.e *= f; r.e += c; r.e -= term(v, 2 * k); r.e /= f;
    r.m = addm(addm(a.m, {{{v, k}}, -c}, 1), {}, 1); r.m = mulm(r.m, f); r.m = addm(r.m, {{{v, -2 * k}}, c}, 1); r.m = mulm(r.m, 1 / f);
    r.d = "inplace(" + a.d + ";" + spec::num(k) + v + "," + spec::num(c) + "," + spec::num(f) + ")"; break; }
  default: { r = a; r.e.setConst(c); r.m.c = c; r.d = "setConst(" + a.d + "," + spec::num(c) + ")"; break; }
  }
  return r;
}
void checkExpr(const X& x) {
  const auto& d = x.d;
  std::map<std::string, double> got;
  for (auto& t : x.e) { require(got.emplace(t.getVar().getName(), t.getCoeff()).second, "two terms for one variable: " + d); require(!t.hasZeroCoeff(), "term with coefficient zero: " + d); }
  require(got == x.m.t && x.e.getConst() == x.m.c, "expression is " + show(M{got, x.e.getConst()}) + ", expected " + show(x.m) + ": " + d);
  require(x.e.numTerms() == got.size() && x.e.getTerms().size() == got.size(), "number of terms: " + d);
  require(x.e.isConstant() == got.empty() && x.e.isZero() == (got.empty() && x.m.c == 0), "isConstant/isZero: " + d);
  std::set<std::string> vs; for (auto& v : x.e.getVariables()) vs.insert(v.getName());
  std::set<std::string> want; for (auto& [v, k] : x.m.t) want.insert(v);
  require(vs == want, "variables: " + d);
}
void algebra(Src& s, Ctx& ctx) {
  for (auto i = s.below(2); i > 0; --i) (void)sym::Variable(s.pick(names)); // registration order differs between runs
  X a = tree(s, s.sized(0, 5));
  ctx.desc(a.d);
  checkExpr(a);
  if (a.m.t.size() > 1) ctx.nontrivial = true;
  qc::VariableAssignment as; std::map<std::string, double> vals;
  for (auto& n : names) { double v = coef(s) / 2; vals[n] = v; as.emplace(sym::Variable(n), v); }
  double want = a.m.c; for (auto& [v, k] : a.m.t) want += k * vals[v];
  require(std::abs(a.e.evaluate(as) - want) < 1e-9, "evaluates to " + spec::num(a.e.evaluate(as)) + ", expected " + spec::num(want) + ": " + a.d);
  for (auto& [v, k] : a.m.t) {
    auto part = as; part.erase(sym::Variable(v));
    require(throws([&] { (void)a.e.evaluate(part); }), "missing value of " + v + " not reported: " + a.d);
    qc::VariableAssignment only; for (auto& [w, q] : a.m.t) only.emplace(sym::Variable(w), vals[w]);
    require(std::abs(a.e.evaluate(only) - want) < 1e-9, "evaluation needs variables that do not occur: " + a.d);
    break;
  }
  auto copy = a.e;
  require(throws([&] { copy /= 0.0; }) && throws([&] { copy /= int64_t{0}; }) && copy == a.e, "division by zero accepted or alters the expression: " + a.d);
  require((a.e * 0.0).isZero(), "product with zero is not zero: " + a.d);
  // equality: same terms by another route, or an edited one
  X b;
  if (s.coin()) {
    std::vector<T> ts; for (auto& [v, k] : a.m.t) { double p = coef(s); ts.push_back(term(v, k - p)); ts.push_back(term(v, p)); }
    s.shuffle(ts);
    b.m = a.m;
    if (s.coin()) b.e = E(ts, a.m.c); else { b.e = E(a.m.c); for (auto& t : ts) b.e += t; }
    b.d = "terms of it in another order";
  } else b = tree(s, 2);
  bool eq = a.m.t == b.m.t && a.m.c == b.m.c;
  checkExpr(b);
  require((a.e == b.e) == eq && (b.e == a.e) == eq && (a.e != b.e) == !eq, std::string("expressions ") + (eq ? "with the same terms compare unequal" : "with different terms compare equal") + ": " + a.d + "  vs  " + b.d + " = " + show(b.m));
  if (eq) { require(std::hash<E>{}(a.e) == std::hash<E>{}(b.e), "equal expressions hash differently: " + a.d + "  vs  " + b.d); ctx.label("equal by another route"); }
}
// terms
void terms(Src& s, Ctx& ctx) {
  auto v = s.pick(names); double k = coefNZ(s), f = s.pick({2.0, -1.0, 0.5, 3.0, -0.25});
  std::string d = spec::num(k) + "*" + v + ", " + spec::num(f);
  ctx.desc(d);
  T t = term(v, k);
  auto is = [&](const T& x, double w, const char* what) { require(x.getVar() == sym::Variable(v) && std::abs(x.getCoeff() - w) < 1e-12, std::string(what) + " has coefficient " + spec::num(x.getCoeff()) + ", expected " + spec::num(w) + ": " + d); };
  is(-t, -k, "-t"); is(t * f, k * f, "t*f"); is(f * t, k * f, "f*t"); is(t / f, k / f, "t/f");
  T u = t; u *= f; is(u, k * f, "t*=f"); u /= f; is(u, k, "t/=f"); u.addCoeff(f); is(u, k + f, "addCoeff"); u = t; u /= int64_t{2}; is(u, k / 2, "t/=2");
  qc::VariableAssignment as{{sym::Variable(v), f}};
  require(std::abs(t.evaluate(as) - k * f) < 1e-12 && t.totalAssignment(as), "evaluation of a term: " + d);
  require(throws([&] { (void)t.evaluate({}); }) && !t.totalAssignment({}), "missing assignment of a term: " + d);
  auto w = s.pick(names); double k2 = coefNZ(s);
  require((t == term(w, k2)) == (v == w && k == k2) && (t != term(w, k2)) == !(v == w && k == k2), "comparison of terms with " + spec::num(k2) + "*" + w + ": " + d);
  require((sym::Variable(v) == sym::Variable(w)) == (v == w) && sym::Variable(v).getName() == v && (sym::Variable(v) < sym::Variable(w) || sym::Variable(w) < sym::Variable(v)) == (v != w) && (sym::Variable(v) > sym::Variable(w)) == (sym::Variable(w) < sym::Variable(v)), "variables " + v + " and " + w);
  ctx.nontrivial = v != w;
}
// expressions with exact angles as constants
void piAlgebra(Src& s, Ctx& ctx) {
  using P = zx::PiRational; using PE = sym::Expression<double, P>;
  M m; PE e; std::string d; // constant of the model in units of pi
  auto mod = [](double c) { c = std::fmod(c, 2.0); if (c > 1) c -= 2; if (c <= -1) c += 2; return c; };
  int n = s.sized(1, 8);
  for (int i = 0; i < n; ++i) {
    auto v = s.pick(names); double k = coefNZ(s); int num = s.range(-8, 8);
    P c(num, 4); M mc{{}, num / 4.0}, mt{{{v, k}}, 0};
    switch (s.below(13)) {
    case 0: e += c; m = addm(m, mc, 1); d += "+=" + std::to_string(num) + "pi/4 "; break;
    case 1: e -= c; m = addm(m, mc, -1); d += "-=" + std::to_string(num) + "pi/4 "; break;
    case 2: e += term(v, k); m = addm(m, mt, 1); d += "+=" + spec::num(k) + v + " "; break;
    case 3: e -= term(v, k); m = addm(m, mt, -1); d += "-=" + spec::num(k) + v + " "; break;
    case 4: e = term(v, k) - e; m = addm(mt, m, -1); d += spec::num(k) + v + "-. "; break;
    case 5: e = c - e; m = addm(mc, m, -1); d += std::to_string(num) + "pi/4-. "; break;
    case 6: e = c + e; m = addm(m, mc, 1); d += std::to_string(num) + "pi/4+. "; break;
    case 7: e = term(v, k) + e; m = addm(m, mt, 1); d += spec::num(k) + v + "+. "; break;
    case 8: e = -e; m = mulm(m, -1); d += "neg "; break;
    case 9: { PE o(c); o += term(v, k); e = e + o; m = addm(addm(m, mc, 1), mt, 1); d += "+(" + spec::num(k) + v + "+" + std::to_string(num) + "pi/4) "; break; }
    case 10: { PE o(c); o += term(v, k); e = e - o; m = addm(addm(m, mc, -1), mt, -1); d += "-(" + spec::num(k) + v + "+" + std::to_string(num) + "pi/4) "; break; }
    case 11: { std::vector<T> ts{term(v, k), term(s.pick(names), 1.0), term(v, 1.0)}; PE o(ts, c); M mo = mc; for (auto& t : ts) mo.t[t.getVar().getName()] += t.getCoeff(); clean(mo); e = e + o; m = addm(m, mo, 1); d += "+E({" + spec::num(k) + v + "," + ts[1].getVar().getName() + "," + v + "}," + std::to_string(num) + "pi/4) "; break; }
    default: { double f = s.pick({1.0, -1.0}); e = s.coin() ? e * f : f * e; m = mulm(m, f); d += "*" + spec::num(f) + " "; break; }
    }
    m.c = mod(m.c);
  }
  ctx.desc(d);
  std::map<std::string, double> got; for (auto& t : e) require(got.emplace(t.getVar().getName(), t.getCoeff()).second, "two terms for one variable: " + d);
  std::ostringstream o; o << e.getConst();
  require(got == m.t, "terms " + show(M{got, 0}) + ", expected " + show(m) + ": " + d);
  require(e.getConst() == P(static_cast<int>(std::lround(m.c * 4)), 4), "constant " + o.str() + "*pi, expected " + spec::num(m.c) + "*pi: " + d);
  qc::VariableAssignment as; std::map<std::string, double> vals;
  for (auto& nme : names) { double v = coef(s); vals[nme] = v; as.emplace(sym::Variable(nme), v); }
  double want = m.c * M_PI; for (auto& [v, k] : m.t) want += k * vals[v];
  require(std::abs(e.evaluate(as) - want) < 1e-9, "evaluates to " + spec::num(e.evaluate(as)) + ", expected " + spec::num(want) + ": " + d);
  if (m.t.size() > 1) ctx.nontrivial = true;
  auto q = e; q += term("x", 1e-3);
  require(e == PE(e) && !(q == e), "comparison: " + d);
}

// ------------------------------------------------------------------ (b) circuits
using symspec::SymOp;
struct Node { enum { Std, Sym, Comp, If } kind = Std; Op op; SymOp sym; std::vector<Node> body; unsigned bit = 0; bool reg = false; };
Node genNode(Src& s, unsigned nq, int depth) {
  Node n;
  uint64_t r = s.below(10);
  if (depth < 2 && r == 0) { n.kind = Node::Comp; int k = s.range(1, 3); for (int i = 0; i < k; ++i) n.body.push_back(genNode(s, nq, depth + 1)); return n; }
  if (depth == 0 && r == 1) {
    n.kind = Node::If; n.bit = static_cast<unsigned>(s.below(2)); n.reg = s.coin();
    Node b = genNode(s, nq, 1); while (b.kind == Node::If) b = b.body[0];
    n.body.push_back(b); return n; }
  if (r < 6) { n.kind = Node::Sym; n.sym = symspec::gen(s, nq); return n; }
  n.op = spec::genGate(s, nq, {});
  return n;
}
std::string show(const Node& n) {
  switch (n.kind) {
  case Node::Std: return spec::show(n.op);
  case Node::Sym: return symspec::show(n.sym);
  case Node::Comp: { std::string r = "{"; for (auto& b : n.body) r += show(b) + "; "; return r + "}"; }
  default: return std::string("if ") + (n.reg ? "c" : "b") + std::to_string(n.bit) + " " + show(n.body[0]);
  }
}
Op evalNode(const Node& n, const symspec::Assign& a) {
  Op o;
  switch (n.kind) {
  case Node::Std: return n.op;
  case Node::Sym: return symspec::eval(n.sym, a);
  case Node::Comp: o.kind = Op::Compound; for (auto& b : n.body) o.body.push_back(evalNode(b, a)); return o;
  default: o.kind = Op::If; o.body.push_back(evalNode(n.body[0], a)); o.condReg = n.reg; o.condStart = n.reg ? 0 : n.bit; o.condSize = n.reg ? 2 : 1; o.val = 1; return o;
  }
}
std::unique_ptr<qc::Operation> makeNode(const Node& n) {
  switch (n.kind) {
  case Node::Std: return spec::makeOp(n.op);
  case Node::Sym: return symspec::make(n.sym);
  case Node::Comp: { std::vector<std::unique_ptr<qc::Operation>> v; for (auto& b : n.body) v.push_back(makeNode(b)); return std::make_unique<qc::CompoundOperation>(std::move(v)); }
  default:
    if (n.reg) return std::make_unique<qc::ClassicControlledOperation>(makeNode(n.body[0]), qc::ClassicalRegister(0, 2, "c"), 1);
    return std::make_unique<qc::ClassicControlledOperation>(makeNode(n.body[0]), static_cast<qc::Bit>(n.bit), 1);
  }
}
void varsOf(const Node& n, std::set<std::string>& out) { for (auto& p : n.sym.p) if (p.sym) for (auto& [v, k] : p.t) out.insert(v); for (auto& b : n.body) varsOf(b, out); }
bool hasSym(const qc::Operation& op) {
  if (op.isSymbolicOperation()) return true;
  if (const auto* c = dynamic_cast<const qc::CompoundOperation*>(&op)) { for (auto& x : *c) if (hasSym(*x)) return true; }
  if (const auto* c = dynamic_cast<const qc::ClassicControlledOperation*>(&op)) return hasSym(*c->getOperation());
  if (const auto* c = dynamic_cast<const qc::SymbolicOperation*>(&op)) { for (auto& p : c->getParameters()) if (std::holds_alternative<qc::Symbolic>(p)) return true; }
  return false;
}
// the effect of an operation, conditionals replaced by their body
void strip(const Op& o, std::vector<Op>& out) { if (o.kind == Op::If || o.kind == Op::Compound) { for (auto& b : o.body) strip(b, out); } else out.push_back(o); }
ref::Mat effect(const Op& o, unsigned nq) { std::vector<Op> v; strip(o, v); return spec::unitary(v, nq); }
void skeleton(const Op& a, const Op& b, const std::string& d) {
  require(a.kind == b.kind && a.body.size() == b.body.size(), "instantiation changed the structure: " + d);
  if (a.kind == Op::If) require(a.condReg == b.condReg && a.condStart == b.condStart && a.condSize == b.condSize && a.val == b.val && a.cmp == b.cmp, "instantiation changed a condition: " + d);
  for (std::size_t i = 0; i < a.body.size(); ++i) skeleton(a.body[i], b.body[i], d);
}
void circuits(Src& s, Ctx& ctx) {
  unsigned nq = static_cast<unsigned>(s.range(1, 4));
  std::vector<Node> ns; int n = s.sized(1, 6);
  for (int i = 0; i < n; ++i) ns.push_back(genNode(s, nq, 0));
  std::string d; for (auto& x : ns) d += show(x) + "; ";
  std::set<std::string> vars; for (auto& x : ns) varsOf(x, vars);
  symspec::Assign a; qc::VariableAssignment as;
  for (auto& v : symspec::vars()) { double k = s.chance(1, 3) ? spec::genAngle(s) : s.chance(1, 2) ? M_PI * s.range(-4, 4) / 2 : static_cast<double>(s.range(-8, 8)) / 4; a[v] = k; if (vars.count(v) || s.coin()) as.emplace(sym::Variable(v), k); }
  d += " with"; for (auto& v : vars) d += " " + v + "=" + spec::num(a[v]);
  ctx.desc(std::to_string(nq) + "q: " + d);
  if (vars.size() > 1) ctx.nontrivial = true;
  qc::QuantumComputation q(nq, 2);
  std::set<std::string> apiVars; bool emplaced = false;
  for (auto& x : ns) {
    bool api = x.kind == Node::Sym && s.chance(3, 4);
    if (api) { symspec::append(q, x.sym); varsOf(x, apiVars); } else { q.emplace_back(makeNode(x)); std::set<std::string> t; varsOf(x, t); emplaced |= !t.empty(); }
  }
  auto varNames = [](const qc::QuantumComputation& c) { std::set<std::string> r; for (auto& v : c.getVariables()) r.insert(v.getName()); return r; };
  if (!emplaced) require(varNames(q) == apiVars, "variables of the circuit: " + d);
  require(q.isVariableFree() == vars.empty(), std::string("circuit reported ") + (q.isVariableFree() ? "free of" : "with") + " variables: " + d);
  auto orig = q;
  // a missing value is reported and leaves the circuit alone
  if (!vars.empty()) {
    auto part = as; auto it = vars.begin(); std::advance(it, static_cast<long>(s.below(vars.size()))); part.erase(sym::Variable(*it));
    require(throws([&] { (void)q.instantiate(part); }), "missing value of " + *it + " not reported: " + d);
    require(throws([&] { q.instantiateInplace(part); }), "missing value of " + *it + " not reported in place: " + d);
    require(q == orig, "refused instantiation altered the circuit: " + d);
    ctx.label("missing value");
  }
  // inverting before or after makes no difference
  bool inv = s.chance(1, 3);
  qc::QuantumComputation r = q;
  bool inplace = s.coin();
  auto inst = [&](qc::QuantumComputation& c) { if (inplace) c.instantiateInplace(as); else { auto c2 = c; auto t = c.instantiate(as); require(c == c2, "instantiate altered the original: " + d); c = t; } };
  bool hasIf = false; for (auto& x : ns) hasIf |= x.kind == Node::If;
  if (inv && hasIf) inv = false;
  if (inv) { if (s.coin()) { r.invert(); inst(r); } else { inst(r); r.invert(); } ctx.label("inverted"); }
  else inst(r);
  require(r.isVariableFree() && varNames(r).empty(), "instantiated circuit still has variables: " + d);
  require(r.getNops() == ns.size(), "instantiation changed the number of operations: " + d);
  for (std::size_t i = 0; i < ns.size(); ++i) {
    auto& op = *r.at(inv ? ns.size() - 1 - i : i);
    require(!hasSym(op), "operation " + std::to_string(i) + " still symbolic: " + d);
    Op want = evalNode(ns[i], a), got = symspec::extract(op, a);
    if (!inv) skeleton(spec::extract(*spec::makeOp(want)), got, d);
    auto u = effect(want, nq), v = effect(got, nq);
    double dist = inv ? ref::dist(ref::adj(u), v) : ref::dist(u, v);
    require(dist < 1e-8, "operation " + show(ns[i]) + " became " + spec::show(got) + ", expected the effect of " + spec::show(want) + ": " + d);
    if (!inv && ns[i].kind == Node::Sym) require(op.equals(*spec::makeOp(want)) || !(spec::same(spec::extract(*spec::makeOp(want)), got)), "instantiated gate differs from the gate built with the numbers: " + d);
  }
  // single operations
  for (auto& x : ns) if (x.kind == Node::Sym) {
    auto op = symspec::make(x.sym);
    auto* so = dynamic_cast<qc::SymbolicOperation*>(op.get());
    auto std1 = so->getInstantiatedOperation(as);
    auto want = effect(symspec::eval(x.sym, a), nq);
    require(ref::dist(want, effect(spec::extract(std1), nq)) < 1e-8, "getInstantiatedOperation yields " + spec::show(spec::extract(std1)) + " for " + show(x) + ": " + d);
    so->instantiate(as);
    require(so->isStandardOperation() && !so->isSymbolicOperation(), "instantiated operation still symbolic: " + d);
    require(ref::dist(want, effect(symspec::extract(*so, a), nq)) < 1e-8, "instantiating " + show(x) + " yields another gate: " + d);
  }
}
} // namespace

int main(int argc, char** argv) {
  Suite su;
  su.property = "C04";
  su.rule = "algebra: at least two variables remain; terms: two different variables; circuits: at least two variables";
  su.assumptions = {"coefficients and factors are dyadic so that the model is exact and the library's tolerance (1e-9) plays no role", "a number divided by a term or expression is not an expression and not part of the property"};
  su.props = {
      {"algebra", algebra, 60000, 1500000},
      {"terms", terms, 10000, 100000},
      {"algebra-exact-angles", piAlgebra, 30000, 600000},
      {"circuits", circuits, 12000, 300000},
  };
  return mainImpl(su, argc, argv);
}
