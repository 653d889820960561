// Comparison of circuits by effect, shared by the OpenQASM checks.
#pragma once
#include "spec.hpp"

#include <numeric>
#include <random>

namespace qcmp {
using namespace spec;
using Rho = std::map<std::string, std::vector<ref::C>>;
inline Rho density(const std::vector<Branch>& bs) {
  Rho r;
  for (auto& b : bs) {
    auto& m = r[bitString(b.bits)];
    const auto n = b.v.size();
    m.resize(n * n);
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) m[i * n + j] += b.v[i] * std::conj(b.v[j]);
  }
  return r;
}
inline double distRho(const Rho& a, const Rho& b) {
  double d = 0;
  auto one = [&](const Rho& x, const Rho& y) {
    for (auto& [k, m] : x) { auto it = y.find(k); for (std::size_t i = 0; i < m.size(); ++i) d = std::max(d, std::abs(m[i] - (it == y.end() ? ref::C(0) : it->second[i]))); }
  };
  one(a, b); one(b, a);
  return d;
}
// a fixed generic state: depends on the number of qubits only
inline Vec randomState(unsigned nq) {
  std::mt19937_64 g(77 + nq);
  std::normal_distribution<double> n;
  Vec v(std::size_t{1} << nq);
  double s = 0;
  for (auto& x : v) { x = {n(g), n(g)}; s += std::norm(x); }
  for (auto& x : v) x /= std::sqrt(s);
  return v;
}
inline void flattenBarriers(const std::vector<Op>& ops, std::vector<std::set<unsigned>>& out) {
  for (auto& o : ops) { if (o.kind == Op::Barrier) out.push_back({o.ts.begin(), o.ts.end()}); flattenBarriers(o.body, out); }
}
inline bool isUnitary(const std::vector<Op>& ops) { return !anyOp(ops, [](const Op& o) { return o.kind == Op::Measure || o.kind == Op::Reset || o.kind == Op::If; }); }

// registers, the sequence of barriers, and the effect on a generic state
inline void compareRegisters(const Circ& a, const Circ& b) {
  pbt::require(b.nq == a.nq, "number of qubits is " + std::to_string(b.nq) + " instead of " + std::to_string(a.nq));
  pbt::require(b.nc == a.nc, "number of classical bits is " + std::to_string(b.nc) + " instead of " + std::to_string(a.nc));
  auto regs = [&](const std::vector<Reg>& x, const std::vector<Reg>& y, const std::string& what) {
    pbt::require(x.size() == y.size(), "number of " + what + " registers is " + std::to_string(y.size()) + " instead of " + std::to_string(x.size()));
    for (std::size_t i = 0; i < x.size(); ++i) pbt::require(x[i].name == y[i].name && x[i].size == y[i].size, what + " register " + std::to_string(i) + " is " + y[i].name + ":" + std::to_string(y[i].size) + " instead of " + x[i].name + ":" + std::to_string(x[i].size));
  };
  regs(a.qregs, b.qregs, "quantum");
  regs(a.cregs, b.cregs, "classical");
}
inline void compareEffect(const Circ& a, const Circ& b) {
  std::vector<std::set<unsigned>> ba, bb;
  flattenBarriers(a.ops, ba); flattenBarriers(b.ops, bb);
  pbt::require(ba == bb, "the barriers differ: " + show(b));
  const auto init = randomState(a.nq);
  if (isUnitary(a.ops) && isUnitary(b.ops)) {
    Vec x = init, y = init;
    for (auto& o : a.ops) applyUnitary(x, o);
    for (auto& o : b.ops) applyUnitary(y, o);
    scale(x, ref::ei(a.gphase)); scale(y, ref::ei(b.gphase));
    const double d = ref::dist(x, y);
    pbt::require(d < 1e-7, "the effect differs (distance " + num(d) + "): " + show(b));
  } else {
    auto x = runAll(a.ops, a.nq, a.nc, init);
    auto y = runAll(b.ops, b.nq, b.nc, init);
    const double d = distRho(density(x), density(y));
    pbt::require(d < 1e-7, "the effect differs (distance " + num(d) + "): " + show(b));
  }
}
} // namespace qcmp
