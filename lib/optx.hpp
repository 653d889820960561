// Effect of a circuit with layouts, shared by the optimizer checks.
#pragma once
#include "qasmcmp.hpp"

#include "circuit_optimizer/CircuitOptimizer.hpp"

namespace optx {
using namespace spec;
using qcmp::Rho;
using CO = qc::CircuitOptimizer;
using Perm = std::map<unsigned, unsigned>;
struct LC { Circ c; Perm in, out; }; // circuit with physical -> logical maps at the begin and at the end
inline Perm perm(const qc::Permutation& p) { Perm r; for (auto& [a, b] : p) r[a] = b; return r; }
inline std::string show(const Perm& p) { std::string s; for (auto& [a, b] : p) s += std::to_string(a) + "->" + std::to_string(b) + " "; return s; }
inline LC capture(const qc::QuantumComputation& q) { return {extract(q), perm(q.initialLayout), perm(q.outputPermutation)}; }
inline std::string show(const LC& l) { return "in: " + show(l.in) + "out: " + show(l.out) + "ops: " + spec::show(l.c.ops) + (l.c.gphase != 0 ? " gphase " + num(l.c.gphase) : ""); }
inline qc::QuantumComputation make(const LC& l) {
  auto q = build(l.c);
  q.initialLayout.clear(); q.outputPermutation.clear();
  for (auto& [a, b] : l.in) q.initialLayout[a] = b;
  for (auto& [a, b] : l.out) q.outputPermutation[a] = b;
  return q;
}
inline Vec place(const Vec& v, const Perm& in) {
  Vec r(v.size());
  for (std::size_t i = 0; i < v.size(); ++i) { std::size_t k = 0; for (auto& [p, l] : in) if ((i >> l) & 1U) k |= std::size_t{1} << p; r[k] = v[i]; }
  return r;
}
// density matrix over the logical qubits in the image of out; the others are traced out
inline Rho outputs(const std::vector<Branch>& bs, const Perm& out, unsigned nq) {
  std::vector<std::pair<unsigned, unsigned>> kept; // logical, physical
  for (auto& [p, l] : out) kept.push_back({l, p});
  std::sort(kept.begin(), kept.end());
  std::vector<unsigned> rest;
  for (unsigned p = 0; p < nq; ++p) if (!out.count(p)) rest.push_back(p);
  auto index = [&](std::size_t k, std::size_t g) {
    std::size_t i = 0;
    for (std::size_t j = 0; j < kept.size(); ++j) if ((k >> j) & 1U) i |= std::size_t{1} << kept[j].second;
    for (std::size_t j = 0; j < rest.size(); ++j) if ((g >> j) & 1U) i |= std::size_t{1} << rest[j];
    return i;
  };
  Rho r;
  const std::size_t n = std::size_t{1} << kept.size(), m = std::size_t{1} << rest.size();
  for (auto& b : bs) {
    auto& d = r[bitString(b.bits)];
    d.resize(n * n);
    for (std::size_t g = 0; g < m; ++g) for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) d[i * n + j] += b.v[index(i, g)] * std::conj(b.v[index(j, g)]);
  }
  return r;
}
inline void sameEffect(const LC& a, const LC& b, const std::string& what) {
  pbt::require(a.c.nq == b.c.nq, what + ": the number of qubits changed");
  pbt::require(a.c.nc == b.c.nc, what + ": the number of bits changed");
  const auto v = qcmp::randomState(a.c.nq);
  if (qcmp::isUnitary(a.c.ops)) {
    pbt::require(qcmp::isUnitary(b.c.ops), what + ": the result is not unitary: " + show(b));
    Vec x = place(v, a.in), y = place(v, b.in);
    for (auto& o : a.c.ops) applyUnitary(x, o);
    for (auto& o : b.c.ops) applyUnitary(y, o);
    scale(x, ref::ei(a.c.gphase)); scale(y, ref::ei(b.c.gphase));
    std::set<unsigned> la, lb;
    for (auto& [p, l] : a.out) la.insert(l);
    for (auto& [p, l] : b.out) lb.insert(l);
    pbt::require(la == lb, what + ": the outputs changed: " + show(b));
    if (a.out.size() == a.c.nq) {
      auto back = [](const Vec& u, const Perm& out) { Vec r(u.size()); for (std::size_t i = 0; i < u.size(); ++i) { std::size_t k = 0; for (auto& [p, l] : out) if ((i >> p) & 1U) k |= std::size_t{1} << l; r[k] = u[i]; } return r; };
      const double d = ref::dist(back(x, a.out), back(y, b.out));
      pbt::require(d < 1e-7, what + ": the effect differs (distance " + num(d) + "): " + show(b));
    } else {
      const double d = qcmp::distRho(outputs({{x, {}}}, a.out, a.c.nq), outputs({{y, {}}}, b.out, b.c.nq));
      pbt::require(d < 1e-7, what + ": the effect differs (distance " + num(d) + "): " + show(b));
    }
    return;
  }
  const auto x = runAll(a.c.ops, a.c.nq, a.c.nc, place(v, a.in));
  const auto y = runAll(b.c.ops, b.c.nq, b.c.nc, place(v, b.in));
  const double d = qcmp::distRho(outputs(x, a.out, a.c.nq), outputs(y, b.out, b.c.nq));
  pbt::require(d < 1e-7, what + ": the effect differs (distance " + num(d) + "): " + show(b));
}
inline Perm genPerm(pbt::Src& s, unsigned n) {
  std::vector<unsigned> v(n);
  std::iota(v.begin(), v.end(), 0U);
  s.shuffle(v);
  Perm p;
  for (unsigned i = 0; i < n; ++i) p[i] = v[i];
  return p;
}
// compound operations only (not the bodies of conditions)
inline bool anyTop(const std::vector<Op>& ops, const std::function<bool(const Op&)>& f) {
  return std::any_of(ops.begin(), ops.end(), [&](auto& o) { return f(o) || (o.kind == Op::Compound && anyTop(o.body, f)); });
}
inline void flat(const std::vector<Op>& ops, std::vector<Op>& out) { for (auto& o : ops) if (o.kind == Op::Compound) flat(o.body, out); else out.push_back(o); }
inline std::vector<Op> flat(const std::vector<Op>& ops) { std::vector<Op> r; flat(ops, r); return r; }
} // namespace optx
