// Decision diagram helpers: own traversal of nodes to dense form, random states and matrices.
#pragma once
#include "spec.hpp"

#include "dd/DDDefinitions.hpp"
#include "dd/DDpackageConfig.hpp"
#include "dd/FunctionalityConstruction.hpp"
#include "dd/GateMatrixDefinitions.hpp"
#include "dd/Node.hpp"
#include "dd/Operations.hpp"
#include "dd/Package.hpp"
#include "dd/Simulation.hpp"

namespace ddx {
using ref::C;
using ref::Mat;
using ref::Vec;

inline dd::DDPackageConfig smallConfig(std::size_t b = 256) {
  dd::DDPackageConfig c{};
  c.utVecNumBucket = b; c.utMatNumBucket = b; c.utDmNumBucket = b;
  c.utVecInitialAllocationSize = 64; c.utMatInitialAllocationSize = 64; c.utDmInitialAllocationSize = 64;
  c.ctVecAddNumBucket = b; c.ctMatAddNumBucket = b; c.ctVecAddMagNumBucket = b; c.ctMatAddMagNumBucket = b; c.ctDmAddNumBucket = b;
  c.ctVecConjNumBucket = b; c.ctMatConjTransNumBucket = b; c.ctMatVecMultNumBucket = b; c.ctMatMatMultNumBucket = b; c.ctDmDmMultNumBucket = b;
  c.ctVecKronNumBucket = b; c.ctMatKronNumBucket = b; c.ctDmTraceNumBucket = b; c.ctMatTraceNumBucket = b; c.ctVecInnerProdNumBucket = b; c.ctDmNoiseNumBucket = b;
  return c;
}
inline std::unique_ptr<dd::Package> mkPackage(std::size_t n, std::size_t b = 256) { return std::make_unique<dd::Package>(n, smallConfig(b)); }

inline C val(const dd::Complex& w) { return {dd::RealNumber::val(w.r), dd::RealNumber::val(w.i)}; }

inline void fill(const dd::vEdge& e, C f, std::size_t off, int level, Vec& out) {
  f *= val(e.w);
  if (f == C{}) return;
  if (e.isTerminal()) { if (level != -1) throw pbt::Fail("vector DD: non-zero terminal above level 0"); out[off] += f; return; }
  if (static_cast<int>(e.p->v) != level) throw pbt::Fail("vector DD: node at level " + std::to_string(e.p->v) + " where level " + std::to_string(level) + " is expected");
  fill(e.p->e[0], f, off, level - 1, out);
  fill(e.p->e[1], f, off | (std::size_t{1} << level), level - 1, out);
}
inline Vec toVec(const dd::vEdge& e, std::size_t n) {
  Vec v(std::size_t{1} << n);
  fill(e, 1, 0, static_cast<int>(n) - 1, v);
  return v;
}
inline void fill(const dd::mEdge& e, C f, std::size_t r, std::size_t c, int level, Mat& out) {
  // f already includes e.w
  if (f == C{}) return;
  if (level < 0) { if (!e.isTerminal()) throw pbt::Fail("matrix DD: node below level 0"); out(r, c) += f; return; }
  const std::size_t b = std::size_t{1} << level;
  if (e.isTerminal() || static_cast<int>(e.p->v) < level) { // skipped level: identity
    fill(e, f, r, c, level - 1, out);
    fill(e, f, r | b, c | b, level - 1, out);
    return;
  }
  if (static_cast<int>(e.p->v) > level) throw pbt::Fail("matrix DD: level order violated");
  for (std::size_t i = 0; i < 4; ++i) { const auto& s = e.p->e[i]; fill(s, f * val(s.w), (i & 2) ? r | b : r, (i & 1) ? c | b : c, level - 1, out); }
}
inline Mat toMat(const dd::mEdge& e, std::size_t n) {
  Mat m(std::size_t{1} << n);
  fill(e, val(e.w), 0, 0, static_cast<int>(n) - 1, m);
  return m;
}
inline dd::CVec toCVec(const Vec& v) { return dd::CVec(v.begin(), v.end()); }
inline dd::CMat toCMat(const Mat& m) { dd::CMat r(m.n, dd::CVec(m.n)); for (std::size_t i = 0; i < m.n; ++i) for (std::size_t j = 0; j < m.n; ++j) r[i][j] = m(i, j); return r; }

// Structured random amplitudes: many repeated values, zeros and blocks, so that diagrams share nodes.
inline C genAmp(pbt::Src& s) {
  switch (s.below(6)) {
  case 0: return {0, 0};
  case 1: return s.pick<C>({{1, 0}, {-1, 0}, {0, 1}, {0, -1}});
  case 2: return s.pick<C>({{0.5, 0}, {0, 0.5}, {M_SQRT1_2, 0}, {0, -M_SQRT1_2}, {0.5, 0.5}, {-0.5, 0.5}});
  case 3: return {s.range(-3, 3) / 3.0, s.range(-3, 3) / 4.0};
  default: return {s.unit(), s.unit()};
  }
}
inline Vec genVec(pbt::Src& s, std::size_t n, bool normalize = true) {
  Vec v;
  if (n == 0) v = {C{1, 0}};
  else switch (s.below(5)) {
  case 0: { v.assign(std::size_t{1} << n, C{}); v[s.below(v.size())] = 1; break; }
  case 1: { v = genVec(s, n - 1, false); Vec w; C a = genAmp(s), b = genAmp(s); for (auto& x : v) w.push_back(a * x); for (auto& x : v) w.push_back(b * x); v = w; break; }
  case 2: { v = genVec(s, n - 1, false); Vec w = genVec(s, n - 1, false); v.insert(v.end(), w.begin(), w.end()); break; }
  default: { std::size_t m = std::size_t{1} << n; for (std::size_t i = 0; i < m; ++i) v.push_back(genAmp(s)); }
  }
  if (normalize) {
    double nn = ref::norm(v);
    if (nn < 1e-3) { std::fill(v.begin(), v.end(), C{}); v[0] = 1; nn = 1; }
    for (auto& x : v) x /= nn;
  }
  return v;
}
inline Mat genMat(pbt::Src& s, std::size_t n) { // arbitrary matrix
  if (n == 0) { Mat m(1); m(0, 0) = genAmp(s); return m; }
  Mat m(std::size_t{1} << n);
  switch (s.below(6)) {
  case 0: return Mat::id(m.n);
  case 1: { C f = genAmp(s); Mat x = genMat(s, n - 1); x = ref::kron(Mat::id(2), x); for (auto& c : x.a) c *= f; return x; }
  case 2: { Mat x = genMat(s, n - 1), b(2); for (auto& c : b.a) c = genAmp(s); return ref::kron(b, x); }
  case 3: { Mat x = genMat(s, n - 1), b(2); for (auto& c : b.a) c = genAmp(s); return ref::kron(x, b); }
  case 4: { for (std::size_t i = 0; i < 4; ++i) { Mat x = genMat(s, n - 1); for (std::size_t r = 0; r < x.n; ++r) for (std::size_t c = 0; c < x.n; ++c) m(r + ((i & 2) ? x.n : 0), c + ((i & 1) ? x.n : 0)) = x(r, c); } return m; }
  default: for (auto& c : m.a) c = genAmp(s); return m;
  }
}
inline std::string show(const Vec& v) { return ref::show(v); }

// ---- circuits with layouts: physical qubit p starts as logical qubit initial[p] and ends as output[p]
struct Layout { std::vector<unsigned> initial, output; std::vector<bool> anc, garb; };
inline Layout genLayout(pbt::Src& s, unsigned n, bool perms, bool ancGarb) {
  Layout l;
  for (unsigned i = 0; i < n; ++i) { l.initial.push_back(i); l.output.push_back(i); }
  if (perms && s.chance(2, 3)) { s.shuffle(l.initial); if (s.coin()) l.output = l.initial; else s.shuffle(l.output); }
  l.anc.assign(n, false); l.garb.assign(n, false);
  if (ancGarb) for (unsigned i = 0; i < n; ++i) { l.anc[i] = s.chance(1, 4); l.garb[i] = s.chance(1, 4); }
  return l;
}
inline void setLayout(qc::QuantumComputation& q, const Layout& l) {
  const auto n = static_cast<qc::Qubit>(l.initial.size());
  q.initialLayout.clear(); q.outputPermutation.clear();
  for (qc::Qubit i = 0; i < n; ++i) { q.initialLayout[i] = l.initial[i]; q.outputPermutation[i] = l.output[i]; }
  for (qc::Qubit i = 0; i < n; ++i) { if (l.anc[i]) q.setLogicalQubitAncillary(i); if (l.garb[i]) q.setLogicalQubitGarbage(i); }
}
inline std::size_t permuteIdx(std::size_t x, const std::vector<unsigned>& to) { std::size_t r = 0; for (std::size_t p = 0; p < to.size(); ++p) if ((x >> p) & 1U) r |= std::size_t{1} << to[p]; return r; }
inline Vec permuteVec(const Vec& v, const std::vector<unsigned>& to) { Vec r(v.size()); for (std::size_t i = 0; i < v.size(); ++i) r[permuteIdx(i, to)] = v[i]; return r; }
inline std::vector<unsigned> inverse(const std::vector<unsigned>& p) { std::vector<unsigned> r(p.size()); for (unsigned i = 0; i < p.size(); ++i) r[p[i]] = i; return r; }
// logical input -> logical output
inline Vec runLayout(const spec::Circ& c, const Layout& l, const Vec& in) {
  Vec v = permuteVec(in, inverse(l.initial));
  for (auto& o : c.ops) spec::applyUnitary(v, o);
  spec::scale(v, ref::ei(c.gphase));
  return permuteVec(v, l.output);
}
inline std::string show(const Layout& l) {
  std::ostringstream o; o << "in:";
  for (auto x : l.initial) o << x; o << " out:"; for (auto x : l.output) o << x;
  o << " anc:"; for (bool b : l.anc) o << b; o << " garb:"; for (bool b : l.garb) o << b;
  return o.str();
}
// magnitudes with the garbage qubits summed out (square root of the summed squares, at garbage = 0)
inline std::vector<double> garbageMag(const Vec& v, const std::vector<bool>& garb) {
  std::size_t mask = 0; for (std::size_t i = 0; i < garb.size(); ++i) if (garb[i]) mask |= std::size_t{1} << i;
  std::vector<double> r(v.size(), 0.0);
  for (std::size_t i = 0; i < v.size(); ++i) r[i & ~mask] += std::norm(v[i]);
  for (auto& x : r) x = std::sqrt(x);
  return r;
}
inline double magDist(const Vec& v, const std::vector<double>& m) { double d = 0; for (std::size_t i = 0; i < v.size(); ++i) { double e = std::abs(std::abs(v[i]) - m[i]); if (!(e <= d)) d = std::isnan(e) ? 1e300 : e; } return d; }
// column of a matrix DD
inline Vec column(const dd::mEdge& e, std::size_t n, std::size_t col) {
  Vec out(std::size_t{1} << n);
  std::function<void(const dd::mEdge&, C, std::size_t, int)> walk = [&](const dd::mEdge& x, C f, std::size_t row, int lvl) {
    if (f == C{}) return;
    if (lvl < 0) { out[row] += f; return; }
    std::size_t b = std::size_t{1} << lvl, bit = (col >> lvl) & 1U;
    if (x.isTerminal() || static_cast<int>(x.p->v) < lvl) { walk(x, f, bit ? row | b : row, lvl - 1); return; }
    for (std::size_t r = 0; r < 2; ++r) { const auto& y = x.p->e[2 * r + bit]; walk(y, f * val(y.w), r ? row | b : row, lvl - 1); }
  };
  walk(e, val(e.w), 0, static_cast<int>(n) - 1);
  return out;
}
} // namespace ddx
