// build: {"libs": ["ir", "dd"]}
// C25: equal objects have one canonical decision diagram.
#include "ddmachine.hpp"
#include <unordered_set>
using namespace pbt;
using ref::C;
using ref::Mat;
using ref::Vec;

namespace {
constexpr double EPS = 2.220446049250313e-16 * 1024; // the table tolerance

// ---- structure of everything a package stores
void checkNumber(dd::RealNumber* r, dd::Package& p, const std::string& what) {
  const double v = dd::RealNumber::val(r);
  require(!std::isnan(v) && !std::isinf(v), what + ": a stored number is not finite");
  require(p.cUniqueTable.lookup(v) == r, what + ": looking up the stored number " + spec::num(v) + " does not return its entry");
}
template <class Node> void checkUniqueTable(dd::UniqueTable& t, dd::Package& p, const std::string& what) {
  const auto& tables = t.getTables();
  for (std::size_t lvl = 0; lvl < tables.size(); ++lvl) {
    std::set<std::vector<const void*>> seen;
    for (const auto* b : tables[lvl]) for (const auto* q = static_cast<const Node*>(b); q != nullptr; q = static_cast<const Node*>(q->next())) {
      require(q->v == lvl, what + ": a node of level " + std::to_string(q->v) + " is stored in the table of level " + std::to_string(lvl));
      std::vector<const void*> key;
      bool allZero = true;
      double n2 = 0, mx = 0; bool one = false;
      for (const auto& e : q->e) {
        key.push_back(e.p); key.push_back(e.w.r); key.push_back(e.w.i);
        checkNumber(e.w.r, p, what); checkNumber(e.w.i, p, what);
        const bool zero = e.w.exactlyZero();
        if (!zero) allZero = false;
        require(!zero || e.isTerminal(), what + ": a zero edge points to a node");
        if (!e.isTerminal()) {
          require(e.p->v < q->v, what + ": a node has a successor that is not below it");
          if constexpr (std::is_same_v<Node, dd::vNode>) require(e.p->v + 1U == q->v, what + ": a vector node skips a level");
        } else if constexpr (std::is_same_v<Node, dd::vNode>) require(zero || q->v == 0, what + ": a vector edge ends above the lowest level");
        const double m = std::norm(ddx::val(e.w));
        n2 += m; mx = std::max(mx, m);
        one |= e.w.exactlyOne();
      }
      require(!allZero, what + ": a node with only zero edges is stored");
      require(seen.insert(key).second, what + ": the same node is stored twice");
      if constexpr (std::is_same_v<Node, dd::vNode>) {
        require(std::abs(n2 - 1) < 1e-9, what + ": the weights of a vector node have square sum " + spec::num(n2));
        const auto w0 = ddx::val(q->e[0].w), w1 = ddx::val(q->e[1].w);
        const auto m0 = std::norm(w0), m1 = std::norm(w1);
        const auto lead = m0 + 1e-9 >= m1 && m1 + 1e-9 < m0 ? w0 : m1 > m0 + 1e-9 ? w1 : C{1};
        require(std::abs(lead.imag()) < 1e-12 && lead.real() > 0, what + ": the dominant weight of a vector node is not real and positive");
      } else {
        require(one && mx < 1 + 1e-9, what + ": the largest weight of a matrix node is not one");
        require(!(q->e[0].p == q->e[3].p && q->e[0].w.exactlyOne() && q->e[3].w.exactlyOne() && q->e[1].w.exactlyZero() && q->e[2].w.exactlyZero()), what + ": an identity node is stored");
      }
    }
  }
}
void checkPackage(dd::Package& p, const std::string& what) {
  checkUniqueTable<dd::vNode>(p.vUniqueTable, p, what);
  checkUniqueTable<dd::mNode>(p.mUniqueTable, p, what);
}
void structure(Src& s, Ctx& c) {
  ddx::Machine m(s, c, 5, s.pick<std::size_t>({64, 8, 512}));
  m.gc = true;
  const int n = s.sized(2, 40);
  for (int i = 0; i < n; ++i) {
    switch (s.below(10)) {
    case 0: case 1: m.managed(); break;
    case 2: m.reduce(); break;
    case 3: m.collect(s.coin()); break;
    case 4: m.release(); break;
    default: m.arithmetic();
    }
  }
  checkPackage(*m.p, "[history: " + m.log + "] ");
  // equal shadows mean equal diagrams (well separated amplitudes only)
  c.desc(m.log);
  c.nontrivial = m.steps >= 3;
}
template <class E> void same(const E& a, const E& b, const std::string& what) {
  require(a.p == b.p, what + ": different root nodes");
  require(a.w.r == b.w.r && a.w.i == b.w.i, what + ": different root weights " + spec::num(ddx::val(a.w).real()) + "+" + spec::num(ddx::val(a.w).imag()) + "i and " + spec::num(ddx::val(b.w).real()) + "+" + spec::num(ddx::val(b.w).imag()) + "i");
  require(a == b, what + ": edges compare unequal");
}
spec::GenCfg exactGates() {
  spec::GenCfg g; g.gates = {"h", "x", "y", "z", "s", "sdg", "t", "tdg", "swap", "sx", "v", "iswap", "dcx", "ecr"}; g.maxControls = 2;
  return g;
}
void routes(Src& s, Ctx& c) {
  const unsigned n = static_cast<unsigned>(s.range(1, 5));
  auto p = ddx::mkPackage(n, s.pick<std::size_t>({64, 4, 512}));
  spec::Circ circ; circ.nq = n; circ.ops = spec::genOps(s, n, 0, exactGates(), 16);
  auto q = spec::build(circ);
  const std::string d = spec::show(circ);
  c.desc(d);
  auto U = spec::unitary(circ.ops, n);
  // matrices
  auto a = dd::buildFunctionality(q, *p);
  same(a, p->makeDDFromMatrix(ddx::toCMat(U)), "built from the circuit and from its dense matrix, " + d);
  if (s.coin()) p->garbageCollect(true);
  same(a, dd::buildFunctionalityRecursive(q, *p), "built sequentially and recursively, " + d);
  { // products from the other side
    auto e = dd::Package::makeIdent();
    for (auto it = circ.ops.rbegin(); it != circ.ops.rend(); ++it) e = p->multiply(e, dd::getDD(*spec::makeOp(*it), *p));
    same(a, e, "multiplied from the left and from the right, " + d);
  }
  same(a, p->conjugateTranspose(p->conjugateTranspose(a)), "twice transposed, " + d);
  { // split into a sum
    Mat x(U.n), y(U.n);
    for (std::size_t i = 0; i < U.a.size(); ++i) (s.coin() ? x : y).a[i] = U.a[i];
    same(a, p->add(p->makeDDFromMatrix(ddx::toCMat(x)), p->makeDDFromMatrix(ddx::toCMat(y))), "sum of two parts, " + d);
  }
  { auto id = p->multiply(a, p->conjugateTranspose(a)); same(id, dd::Package::makeIdent(), "product with the adjoint, " + d); require(id.isIdentity(), "U times its adjoint is not the identity: " + d); }
  // vectors
  auto col = s.below(std::size_t{1} << n);
  std::vector<bool> bits(n); for (unsigned i = 0; i < n; ++i) bits[i] = ((col >> i) & 1U) != 0;
  Vec v(U.n); for (std::size_t i = 0; i < U.n; ++i) v[i] = U(i, col);
  auto b = dd::simulate(q, p->makeBasisState(n, bits), *p);
  same(b, p->makeStateFromVector(ddx::toCVec(v)), "simulated and built from the amplitudes, " + d);
  same(b, p->multiply(a, p->makeBasisState(n, bits)), "simulated and matrix times vector, " + d);
  { Vec x(v.size()), y(v.size()); for (std::size_t i = 0; i < v.size(); ++i) (s.coin() ? x : y)[i] = v[i];
    auto part = [&](const Vec& w) { // built level by level
      std::vector<dd::vCachedEdge> lvl; for (auto& z : w) lvl.push_back(dd::vCachedEdge::terminal(z));
      for (unsigned k = 0; k < n; ++k) { std::vector<dd::vCachedEdge> up; for (std::size_t i = 0; i < lvl.size(); i += 2) up.push_back(p->makeDDNode(static_cast<dd::Qubit>(k), std::array{lvl[i], lvl[i + 1]})); lvl.swap(up); }
      return dd::vEdge{lvl[0].p, p->cn.lookup(lvl[0].w)}; };
    auto e = p->add(part(x), part(y));
    same(b, e, "sum of two parts of the state, " + d); }
  { auto w = p->conjugate(p->conjugate(b)); same(b, w, "twice conjugated, " + d); }
  { auto st = p->makeStateFromVector(b.getVector()); same(b, st, "rebuilt from its own amplitudes, " + d); }
  { auto mm = p->makeDDFromMatrix(a.getMatrix(n)); same(a, mm, "rebuilt from its own matrix, " + d); }
  checkPackage(*p, d);
  c.nontrivial = circ.ops.size() >= 3;
}
// Kronecker products against gates on the whole register
void products(Src& s, Ctx& c) {
  const unsigned k = static_cast<unsigned>(s.range(1, 3)), l = static_cast<unsigned>(s.range(1, 3));
  auto p = ddx::mkPackage(k + l);
  spec::Circ lo, hi; lo.nq = k; hi.nq = l;
  lo.ops = spec::genOps(s, k, 0, exactGates(), 8); hi.ops = spec::genOps(s, l, 0, exactGates(), 8);
  auto whole = lo; whole.nq = k + l;
  for (auto o : hi.ops) { for (auto& t : o.ts) t += k; for (auto& t : o.cs) t.q += k; whole.ops.push_back(o); }
  const std::string d = spec::show(lo) + " (x) " + spec::show(hi);
  c.desc(d);
  auto a = dd::buildFunctionality(spec::build(lo), *p), b = dd::buildFunctionality(spec::build(hi), *p);
  same(dd::buildFunctionality(spec::build(whole), *p), p->kronecker(b, a, k), "circuit on both registers and Kronecker product, " + d);
  auto va = dd::simulate(spec::build(lo), p->makeZeroState(k), *p), vb = dd::simulate(spec::build(hi), p->makeZeroState(l), *p);
  same(dd::simulate(spec::build(whole), p->makeZeroState(k + l), *p), p->kronecker(vb, va, k), "state on both registers and Kronecker product, " + d);
  c.nontrivial = lo.ops.size() + hi.ops.size() >= 3;
}
// gates commuting on different qubits reach the same node in any order
void orders(Src& s, Ctx& c) {
  const unsigned n = static_cast<unsigned>(s.range(2, 7));
  auto p = ddx::mkPackage(n);
  std::vector<unsigned> qs; for (unsigned i = 0; i < n; ++i) qs.push_back(i);
  spec::GenCfg g; g.maxControls = 0; // any angle: each factor is the same matrix in both orders
  std::vector<spec::Op> ops;
  auto perm = spec::distinctQubits(s, n, n);
  for (std::size_t i = 0; i < perm.size();) {
    if (i + 1 < perm.size() && s.coin()) { auto o = spec::genGate(s, 2, exactGates()); for (auto& t : o.ts) t = perm[i + t]; for (auto& t : o.cs) t.q = perm[i + t.q]; ops.push_back(o); i += 2; }
    else { auto o = spec::genGate(s, 1, exactGates()); for (auto& t : o.ts) t = perm[i]; ops.push_back(o); ++i; }
  }
  auto other = ops; s.shuffle(other);
  const std::string d = spec::show(ops) + " reordered " + spec::show(other);
  c.desc(d);
  auto build = [&](const std::vector<spec::Op>& o) { spec::Circ x; x.nq = n; x.ops = o; return dd::buildFunctionality(spec::build(x), *p); };
  auto a = build(ops);
  if (s.coin()) p->garbageCollect(true);
  same(a, build(other), d);
  c.nontrivial = ops.size() >= 2;
}
// the table of numbers: one entry per cluster of values within the tolerance
void numbers(Src& s, Ctx& c) {
  auto p = ddx::mkPackage(1);
  auto& t = p->cUniqueTable;
  const int nc = s.sized(2, 40);
  std::vector<double> centers;
  auto far = [&](double x) { for (double y : centers) if (std::abs(x - y) < 12 * EPS) return false; for (double y : {0.0, 1.0, M_SQRT1_2, 0.5}) if (std::abs(x - y) < 12 * EPS && x != y) return false; return true; };
  std::string d;
  const double bucket = 1.0 / 65536;
  const auto base = s.below(65535);
  for (int i = 0; i < nc; ++i) {
    double x = 0;
    switch (s.below(8)) {
    case 0: x = (static_cast<double>(s.below(65535)) + 0.5) * bucket; break;          // a bucket border
    case 1: x = (static_cast<double>(base) + 0.5) * bucket + s.range(-40, 40) * EPS; break; // around one border
    case 2: x = (static_cast<double>(base) + s.real(-0.6, 0.6) + 0.5) * bucket; break; // the buckets beside it
    case 3: x = s.pick<double>({0.5, 0.25, 0.75, 1.0 / 3, 2.0 / 3, 0.1, 0.3, M_SQRT1_2, 1.0, 0.5 / 65536, 1.0 / 65536, M_SQRT1_2 / 2, 0.3535533905932738}); break;
    case 4: x = 1 + s.real(0, 3); break;
    case 5: x = s.range(1, 60) * EPS * 4; break;
    default: x = s.real(0.001, 1);
    }
    if (x > 2 * EPS && far(x)) centers.push_back(x);
  }
  if (centers.empty()) throw Discard();
  std::map<std::size_t, dd::RealNumber*> entry;
  const int steps = s.sized(4, 150);
  for (int i = 0; i < steps; ++i) {
    if (s.chance(1, 60)) { p->garbageCollect(true); entry.clear(); d += "gc "; c.label("collections"); continue; }
    const auto k = s.below(centers.size());
    const double jitter = s.pick({0.0, 0.2, -0.2, 0.1, -0.1, 0.05}) * EPS;
    const double x = centers[k] + jitter;
    const bool neg = s.chance(1, 4);
    if (i < 60) d += spec::num(neg ? -x : x) + " ";
    auto* r = t.lookup(neg ? -x : x);
    const double got = dd::RealNumber::val(r);
    require(std::abs(got - (neg ? -x : x)) <= EPS * 1.001, "looking up " + spec::num(neg ? -x : x) + " gives the number " + spec::num(got) + " [sequence " + d + "]");
    auto* pos = dd::RealNumber::getAlignedPointer(r);
    require(neg == dd::RealNumber::isNegativePointer(r), "sign of a looked up number is wrong [sequence " + d + "]");
    require(t.lookup(got) == r, "looking up the stored value " + spec::num(got) + " again gives another entry [sequence " + d + "]");
    auto it = entry.find(k);
    if (it == entry.end()) entry[k] = pos;
    else require(it->second == pos, "the same number " + spec::num(x) + " is stored twice [sequence " + d + "]");
  }
  c.desc(d);
  c.nontrivial = centers.size() >= 3;
}
} // namespace

int main(int argc, char** argv) {
  Suite su;
  su.property = "C25";
  su.rule = "one case = one circuit (Clifford+T so that equal amplitudes agree far below the tolerance) built along about ten routes in one package that must end in the identical edge, or a history after which every stored node is checked, or a sequence of number lookups clustered around values at least 12 tolerances apart; non-trivial = at least 3 operations or clusters; distinct by printed case";
  su.assumptions = {"route comparisons use gates whose entries are separated by far more than the table tolerance", "clusters of looked up numbers are wider apart than the table tolerance"};
  su.props = {{"structure", structure, 20000, 500000}, {"routes", routes, 20000, 600000}, {"products", products, 10000, 300000}, {"orders", orders, 10000, 300000}, {"numbers", numbers, 20000, 1000000}};
  return mainImpl(su, argc, argv);
}
