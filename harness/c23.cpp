// build: {"libs": ["ir", "dd"]}
// C23: decision diagram arithmetic agrees with linear algebra.
#include "ddmachine.hpp"
using namespace pbt;
using ref::C;
using ref::Mat;
using ref::Vec;

namespace {
// a history of operations over a growing pool in one package: the compute tables are warm and shared
void history(Src& s, Ctx& c) {
  ddx::Machine m(s, c, 6, s.pick<std::size_t>({256, 16, 2, 1024}));
  int n = s.sized(1, 40);
  for (int i = 0; i < n; ++i) m.arithmetic();
  m.checkAll("at the end of the history");
  c.desc(m.log);
  c.nontrivial = m.steps >= 3;
}
// one operation kind at a time with fresh random operands
void algebra(Src& s, Ctx& c) {
  std::size_t n = static_cast<std::size_t>(s.range(1, 3));
  auto p = ddx::mkPackage(n + 3, s.pick<std::size_t>({256, 4}));
  Mat a = ddx::genMat(s, n), b = ddx::genMat(s, n), d = ddx::genMat(s, n);
  auto ea = p->makeDDFromMatrix(ddx::toCMat(a)), eb = p->makeDDFromMatrix(ddx::toCMat(b)), ed = p->makeDDFromMatrix(ddx::toCMat(d));
  auto plus = [](const Mat& x, const Mat& y) { Mat r = x; for (std::size_t i = 0; i < r.a.size(); ++i) r.a[i] += y.a[i]; return r; };
  std::string ds = "A=" + ref::show(a.a) + " B=" + ref::show(b.a) + " D=" + ref::show(d.a);
  c.desc(ds);
  auto eq = [&](const dd::mEdge& e, const Mat& w, std::size_t k, const char* what) { auto g = ddx::toMat(e, k); double sc = 1; for (auto& x : w.a) sc = std::max(sc, std::abs(x)); require(ref::dist(g, w) < 1e-8 * sc, std::string(what) + " gives " + ref::show(g.a) + " instead of " + ref::show(w.a) + " for " + ds); };
  eq(p->multiply(p->add(ea, eb), ed), ref::mul(plus(a, b), d), n, "(A+B)D");
  eq(p->add(p->multiply(ea, ed), p->multiply(eb, ed)), ref::mul(plus(a, b), d), n, "AD+BD");
  eq(p->multiply(ea, p->multiply(eb, ed)), ref::mul(a, ref::mul(b, d)), n, "A(BD)");
  eq(p->conjugateTranspose(p->multiply(ea, eb)), ref::mul(ref::adj(b), ref::adj(a)), n, "adj(AB)");
  std::size_t k = static_cast<std::size_t>(s.range(1, 2));
  Mat t = ddx::genMat(s, k);
  auto et = p->makeDDFromMatrix(ddx::toCMat(t));
  eq(p->kronecker(ea, et, k), ref::kron(a, t), n + k, "A(x)T");
  eq(p->kronecker(et, ea, n), ref::kron(t, a), n + k, "T(x)A");
  eq(p->kronecker(ea, dd::Package::makeIdent(), k), ref::kron(a, Mat::id(std::size_t{1} << k)), n + k, "A(x)I");
  // the same operands with a different declared width below
  eq(p->kronecker(ea, dd::Package::makeIdent(), k + 1), ref::kron(a, Mat::id(std::size_t{1} << (k + 1))), n + k + 1, "A(x)I on one more qubit");
  eq(p->kronecker(ea, dd::Package::makeIdent(), k), ref::kron(a, Mat::id(std::size_t{1} << k)), n + k, "A(x)I again");
  c.nontrivial = true;
}
// closeness to the identity is judged correctly
void identity(Src& s, Ctx& c) {
  unsigned n = static_cast<unsigned>(s.range(1, 5));
  auto p = ddx::mkPackage(n);
  std::vector<bool> garbage(n);
  std::vector<unsigned> good, bad;
  for (unsigned i = 0; i < n; ++i) { garbage[i] = s.chance(1, 4); (garbage[i] ? bad : good).push_back(i); }
  if (good.empty()) { garbage[0] = false; good.push_back(0); bad.clear(); for (unsigned i = 1; i < n; ++i) bad.push_back(i); }
  spec::GenCfg g; g.maxControls = 2;
  auto on = [&](const std::vector<unsigned>& q, int len) {
    std::vector<spec::Op> r;
    if (q.empty()) return r;
    r = spec::genOps(s, static_cast<unsigned>(q.size()), 0, g, len);
    for (auto& o : r) { for (auto& t : o.ts) t = q[t]; for (auto& k : o.cs) k.q = q[k.q]; }
    return r;
  };
  auto ops = on(good, 6), gops = on(bad, 5);
  auto prod = [&](const std::vector<spec::Op>& os) { auto e = dd::Package::makeIdent(); for (auto& o : os) e = p->multiply(dd::getDD(*spec::makeOp(o), *p), e); return e; };
  auto G = prod(gops);
  auto U = prod(ops);
  auto inv = p->conjugateTranspose(U);
  const std::string d = std::to_string(n) + "q: " + spec::show(ops) + " garbage part: " + spec::show(gops);
  c.desc(d);
  require(p->isCloseToIdentity(p->multiply(inv, U)), "U^-1 U is not recognised as the identity: " + d);
  require(p->isCloseToIdentity(p->multiply(G, p->multiply(inv, U)), 1e-10, garbage), "identity on the kept qubits is not recognised when the others are garbage: " + d);
  Mat u = spec::unitary(ops, n);
  double off = 0, diag = 0;
  for (std::size_t i = 0; i < u.n; ++i) { diag = std::max(diag, std::abs(u(i, i) - u(0, 0))); for (std::size_t j = 0; j < u.n; ++j) if (i != j) off = std::max(off, std::abs(u(i, j))); }
  if (off > 0.05 || diag > 0.05) {
    require(!p->isCloseToIdentity(U), "a unitary that is not a multiple of the identity is called close to it: " + d);
    c.label("non-identity");
    if (off > 0.05) require(!p->isCloseToIdentity(p->multiply(G, U), 1e-10, garbage), "a non-diagonal unitary is called close to the identity although the garbage qubits are untouched by it: " + d);
  }
  if (off > 0.05) require(!p->isCloseToIdentity(U, 1e-10, {}, false), "a non-diagonal unitary is called diagonal: " + d);
  if (off < 1e-9) { require(p->isCloseToIdentity(U, 1e-10, {}, false), "a diagonal unitary is not recognised: " + d); c.label("diagonal"); }
  c.nontrivial = ops.size() >= 1;
}
// similarity of a state's outcome distribution with a sparse distribution
void outcomeFidelity(Src& s, Ctx& c) {
  std::size_t n = static_cast<std::size_t>(s.range(1, 5));
  auto p = ddx::mkPackage(n);
  Vec v = ddx::genVec(s, n);
  auto e = p->makeStateFromVector(ddx::toCVec(v));
  dd::SparsePVec probs;
  std::vector<unsigned> perm(n);
  for (unsigned i = 0; i < n; ++i) perm[i] = i;
  bool withPerm = s.coin();
  if (withPerm) s.shuffle(perm);
  std::size_t k = s.below((std::size_t{1} << n) + 1);
  std::map<std::size_t, double> m;
  for (std::size_t i = 0; i < k; ++i) m[s.below(std::size_t{1} << n)] = s.range(0, 16) / 16.0;
  for (auto& [a, b] : m) probs[a] = b;
  double want = 0;
  for (std::size_t i = 0; i < v.size(); ++i) { auto it = m.find(ddx::permuteIdx(i, perm)); if (it != m.end()) want += std::abs(v[i]) * std::sqrt(it->second); }
  qc::Permutation qp;
  if (withPerm) for (unsigned i = 0; i < n; ++i) qp[i] = perm[i];
  double got = dd::Package::fidelityOfMeasurementOutcomes(e, probs, qp);
  std::ostringstream o; o << n << "q state " << ref::show(v) << " probabilities {"; for (auto& [a, b] : m) o << a << ":" << b << " "; o << "}"; if (withPerm) { o << " permutation"; for (auto x : perm) o << " " << x; }
  c.desc(o.str());
  require(std::abs(got - want) < 1e-7, "fidelityOfMeasurementOutcomes gives " + spec::num(got) + " instead of " + spec::num(want) + " for " + o.str());
  c.nontrivial = !m.empty();
  if (withPerm) c.label("permuted outcomes");
}
} // namespace

int main(int argc, char** argv) {
  Suite su;
  su.property = "C23";
  su.rule = "one case = one history of arithmetic operations (add, multiply, kronecker, conjugate, adjoint, inner product, fidelity, expectation value, trace, partial trace) over a pool of decision diagrams in one package with tiny to normal compute tables, every result compared with dense linear algebra; plus algebraic identities, identity tests and outcome fidelities; non-trivial = at least three steps";
  su.assumptions = {"tolerance 1e-8 relative to the largest entry", "matrix traces are normalised by 2^n as documented", "isCloseToIdentity ignores a scalar factor"};
  su.props = {{"history", history, 15000, 500000}, {"algebra", algebra, 8000, 200000}, {"identity", identity, 8000, 200000}, {"outcome-fidelity", outcomeFidelity, 8000, 200000}};
  return mainImpl(su, argc, argv);
}
