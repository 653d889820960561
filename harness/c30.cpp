// build: {"libs": ["ir", "dd"], "config": "asan"}
// C30: constructors of states and matrices, and dense and sparse exports, are mutually inverse.
#include "ddx.hpp"
#include "dd/Export.hpp"
using namespace pbt;
using ref::C;
using ref::Mat;
using ref::Vec;

namespace {
double maxAbs(const Vec& v) { double m = 0; for (auto& x : v) m = std::max(m, std::abs(x)); return m; }
double genScale(Src& s) { return s.pick<double>({1, 1, 1, 1, 1e-3, 1e-6, 1e3, 1e6, 0.7}); }
Vec cv(const dd::CVec& v) { return Vec(v.begin(), v.end()); }
// every way of reading a state gives `want`
void readState(const dd::vEdge& e, std::size_t n, const Vec& want, double tol, Src& s, const std::string& d) {
  const std::size_t N = std::size_t{1} << n;
  const bool zero = e.isTerminal();
  require(ref::dist(ddx::toVec(e, n), want) <= tol, "the diagram denotes " + ref::show(ddx::toVec(e, n)) + " instead of " + ref::show(want) + ": " + d);
  auto dense = cv(e.getVector());
  if (zero && n > 0) { require(dense.size() == 1 && std::abs(dense[0]) <= tol, "dense export of a zero state is not zero: " + d); }
  else require(ref::dist(dense, want) <= tol, "dense export is " + ref::show(dense) + " instead of " + ref::show(want) + ": " + d);
  Vec viaIdx(N), viaPath(N);
  for (std::size_t i = 0; i < N; ++i) {
    viaIdx[i] = e.getValueByIndex(i);
    std::string p(n, '0');
    for (std::size_t k = 0; k < n; ++k) if ((i >> k) & 1U) p[k] = '1';
    viaPath[i] = e.getValueByPath(n, p);
  }
  if (!zero || n == 0) require(ref::dist(viaIdx, want) <= tol && ref::dist(viaPath, want) <= tol, "single entries are " + ref::show(viaIdx) + " / " + ref::show(viaPath) + " instead of " + ref::show(want) + ": " + d);
  const double thr = s.coin() ? 0 : s.pick<double>({1e-9, 0.1, 0.3, 0.5, 1.0}) * std::max(1e-300, maxAbs(want));
  Vec sp(N);
  for (auto& [i, v] : e.getSparseVector(thr)) { require(i < N, "sparse export names index " + std::to_string(i) + ": " + d); require(zero || std::abs(v) >= thr * (1 - 1e-9), "sparse export keeps an entry below the threshold: " + d); sp[i] = v; }
  auto dt = cv(e.getVector(thr));
  if (zero && n > 0) dt.assign(N, 0);
  for (std::size_t i = 0; i < N; ++i) {
    const bool above = std::abs(want[i]) > thr * (1 + 1e-9) + tol, below = std::abs(want[i]) < thr * (1 - 1e-9) - tol;
    if (above) require(std::abs(sp[i] - want[i]) <= tol && std::abs(dt[i] - want[i]) <= tol, "export with threshold " + spec::num(thr) + " gives " + spec::num(std::abs(sp[i])) + "/" + spec::num(std::abs(dt[i])) + " for entry " + std::to_string(i) + " of " + ref::show(want) + ": " + d);
    if (below && !zero) require(sp[i] == C{} && dt[i] == C{}, "export with threshold keeps entry " + std::to_string(i) + ": " + d);
  }
  if (!zero || n == 0) {
    dd::CVec acc(N);
    for (std::size_t i = 0; i < N; ++i) acc[i] = {static_cast<double>(i), -1.0};
    e.addToVector(acc);
    for (std::size_t i = 0; i < N; ++i) require(std::abs(acc[i] - C{static_cast<double>(i), -1.0} - want[i]) <= tol + 1e-12, "addToVector at " + std::to_string(i) + " adds a wrong amplitude: " + d);
  }
}
void readMatrix(const dd::mEdge& e, std::size_t n, const Mat& want, double tol, Src& s, const std::string& d) {
  require(ref::dist(ddx::toMat(e, n), want) <= tol, "the diagram denotes " + ref::show(ddx::toMat(e, n).a) + " instead of " + ref::show(want.a) + ": " + d);
  Mat g(want.n);
  const auto m = e.getMatrix(n);
  require(m.size() == want.n, "dense export has " + std::to_string(m.size()) + " rows: " + d);
  for (std::size_t i = 0; i < want.n; ++i) { require(m[i].size() == want.n, "dense export has a short row: " + d); for (std::size_t j = 0; j < want.n; ++j) g(i, j) = m[i][j]; }
  require(ref::dist(g, want) <= tol, "dense export is " + ref::show(g.a) + " instead of " + ref::show(want.a) + ": " + d);
  Mat x(want.n), y(want.n);
  for (std::size_t i = 0; i < want.n; ++i) for (std::size_t j = 0; j < want.n; ++j) {
    x(i, j) = e.getValueByIndex(n, i, j);
    std::string p(n, '0');
    for (std::size_t k = 0; k < n; ++k) p[k] = static_cast<char>('0' + 2 * ((i >> k) & 1U) + ((j >> k) & 1U));
    y(i, j) = e.getValueByPath(n, p);
  }
  require(ref::dist(x, want) <= tol && ref::dist(y, want) <= tol, "single entries are " + ref::show(x.a) + " / " + ref::show(y.a) + " instead of " + ref::show(want.a) + ": " + d);
  const double mx = maxAbs(want.a), thr = s.coin() || mx < 0.1 ? 0 : s.pick<double>({1e-9, 0.1, 0.3, 0.5, 1.0}) * mx; // nodes of tiny matrices are not normalised to their largest entry
  Mat sp(want.n);
  for (auto& [ij, v] : e.getSparseMatrix(n, thr)) { require(ij.first < want.n && ij.second < want.n, "sparse export out of range: " + d); require(n == 0 || std::abs(v) >= thr * (1 - 1e-9), "sparse export keeps an entry below the threshold: " + d); sp(ij.first, ij.second) = v; }
  const auto dt = e.getMatrix(n, thr);
  for (std::size_t i = 0; i < want.n; ++i) for (std::size_t j = 0; j < want.n; ++j) {
    const double a = std::abs(want(i, j));
    if (a > thr * (1 + 1e-9) + tol) require(std::abs(sp(i, j) - want(i, j)) <= tol && std::abs(dt[i][j] - want(i, j)) <= tol, "export with threshold " + spec::num(thr) + " misses entry (" + std::to_string(i) + "," + std::to_string(j) + ") of " + ref::show(want.a) + ": " + d);
    if (n > 0 && a < thr * (1 - 1e-9) - tol) require(sp(i, j) == C{} && std::abs(dt[i][j]) == 0, "export with threshold keeps an entry: " + d);
  }
}
void fromVector(Src& s, Ctx& c) {
  const auto n = static_cast<std::size_t>(s.range(0, 6));
  auto p = ddx::mkPackage(std::max<std::size_t>(n, 1));
  const int rounds = s.range(1, 3);
  std::vector<std::pair<dd::vEdge, Vec>> live;
  for (int r = 0; r < rounds; ++r) {
    Vec v = ddx::genVec(s, n, s.coin());
    const double f = genScale(s);
    for (auto& x : v) x *= f;
    if (s.chance(1, 8)) for (auto& x : v) if (s.chance(1, 4)) x *= 1e-5;
    const std::string d = "state from " + ref::show(v);
    c.desc(d);
    auto e = p->makeStateFromVector(ddx::toCVec(v));
    live.emplace_back(e, v);
    if (s.coin()) p->garbageCollect(true);
    for (auto& [x, w] : live) readState(x, n, w, 1e-11 * std::max(1.0, ref::norm(w)), s, d);
    std::size_t nz = 0;
    for (auto& x : v) nz += std::abs(x) > 0;
    if (n >= 2 && nz >= 2) c.nontrivial = true;
  }
}
void fromMatrix(Src& s, Ctx& c) {
  const auto n = static_cast<std::size_t>(s.range(0, 4));
  auto p = ddx::mkPackage(std::max<std::size_t>(n, 1));
  const int rounds = s.range(1, 3);
  std::vector<std::pair<dd::mEdge, Mat>> live;
  for (int r = 0; r < rounds; ++r) {
    Mat m = ddx::genMat(s, n);
    const double f = genScale(s);
    for (auto& x : m.a) x *= f;
    const std::string d = "matrix from " + ref::show(m.a);
    c.desc(d);
    auto e = p->makeDDFromMatrix(ddx::toCMat(m));
    p->incRef(e);
    live.emplace_back(e, m);
    if (s.coin()) p->garbageCollect(true);
    for (auto& [x, w] : live) readMatrix(x, n, w, 1e-11 * std::max(1.0, maxAbs(w.a)), s, d);
    std::size_t nz = 0;
    for (auto& x : m.a) nz += std::abs(x) > 0;
    if (n >= 1 && nz >= 2) c.nontrivial = true;
  }
}
void named(Src& s, Ctx& c) {
  const auto nq = static_cast<std::size_t>(s.range(1, 7));
  auto p = ddx::mkPackage(nq);
  const auto n = static_cast<std::size_t>(s.range(0, static_cast<int>(nq)));
  const std::size_t start = s.chance(1, 3) ? s.below(nq - n + 1) : 0;
  const std::size_t N = std::size_t{1} << n;
  Vec want(N);
  dd::vEdge e;
  std::string d;
  switch (s.below(6)) {
  case 0: want[0] = 1; d = "zero state of " + std::to_string(n) + " qubits from " + std::to_string(start); c.desc(d); e = p->makeZeroState(n, start); break;
  case 1: {
    std::vector<bool> b; std::size_t x = 0;
    for (std::size_t i = 0; i < n; ++i) { b.push_back(s.coin()); if (b[i]) x |= std::size_t{1} << i; }
    want[x] = 1; d = "basis state " + std::to_string(x) + " of " + std::to_string(n) + " qubits from " + std::to_string(start); c.desc(d);
    e = p->makeBasisState(n, b, start);
    break;
  }
  case 2: {
    std::vector<dd::BasisStates> b; Vec v{C{1, 0}};
    d = "product state ";
    for (std::size_t i = 0; i < n; ++i) {
      const auto k = s.below(6); const double h = M_SQRT1_2; const C I{0, 1};
      b.push_back(std::array{dd::BasisStates::zero, dd::BasisStates::one, dd::BasisStates::plus, dd::BasisStates::minus, dd::BasisStates::right, dd::BasisStates::left}[k]);
      d += "01+-RL"[k];
      v = ref::kron(std::array<Vec, 6>{Vec{1, 0}, Vec{0, 1}, Vec{h, h}, Vec{h, -h}, Vec{h, h * I}, Vec{h, -h * I}}[k], v);
    }
    d += " (lowest qubit first) from " + std::to_string(start); c.desc(d);
    want = v;
    e = p->makeBasisState(n, b, start);
    break;
  }
  case 3: { if (start) return; if (n == 0) want = {1}; else want[0] = want[N - 1] = M_SQRT1_2; d = "GHZ state of " + std::to_string(n); c.desc(d); e = p->makeGHZState(n); break; }
  case 4: { if (start) return; if (n == 0) want = {1}; else for (std::size_t i = 0; i < n; ++i) want[std::size_t{1} << i] = 1 / std::sqrt(static_cast<double>(n)); d = "W state of " + std::to_string(n); c.desc(d); e = p->makeWState(n); break; }
  default: {
    const std::size_t k = s.coin() ? n : nq;
    d = "zero density operator / identity of " + std::to_string(k); c.desc(d);
    auto r = p->makeZeroDensityOperator(k);
    const auto m = r.getMatrix(k);
    for (std::size_t i = 0; i < m.size(); ++i) for (std::size_t j = 0; j < m.size(); ++j) require(std::abs(m[i][j] - ((i == 0 && j == 0) ? 1.0 : 0.0)) < 1e-12, "zero density operator of " + std::to_string(k) + " qubits is wrong at " + std::to_string(i) + "," + std::to_string(j));
    readMatrix(dd::Package::makeIdent(), k > 4 ? 4 : k, Mat::id(std::size_t{1} << (k > 4 ? 4 : k)), 1e-12, s, d);
    c.nontrivial = k > 1;
    return;
  }
  }
  if (s.coin()) { p->garbageCollect(true); }
  if (start > 0 && n > 0) { // levels start .. start+n-1
    std::function<void(const dd::vEdge&, std::size_t, std::size_t, C)> walk = [&](const dd::vEdge& x, std::size_t lvl, std::size_t idx, C f) {
      f *= ddx::val(x.w);
      if (f == C{}) { for (std::size_t i = 0; i < (std::size_t{1} << (lvl - start)); ++i) require(std::abs(want[idx + i]) < 1e-11, "wrong zero part: " + d); return; }
      if (lvl == start) { require(x.isTerminal(), "no terminal below the start level: " + d); require(std::abs(f - want[idx]) < 1e-11, "wrong amplitude: " + d); return; }
      require(!x.isTerminal() && x.p->v == lvl - 1, "wrong level: " + d);
      walk(x.p->e[0], lvl - 1, idx, f);
      walk(x.p->e[1], lvl - 1, idx | (std::size_t{1} << (lvl - 1 - start)), f);
    };
    walk(e, start + n, 0, 1);
    c.label("shifted");
  } else {
    readState(e, n, want, 1e-11, s, d);
  }
  c.nontrivial = n > 1;
}
// large sizes: only sparse reads
void large(Src& s, Ctx& c) {
  const auto n = static_cast<std::size_t>(s.range(8, 60));
  auto p = ddx::mkPackage(n);
  const auto k = s.below(3);
  c.desc((k == 0 ? "GHZ " : k == 1 ? "W " : "basis ") + std::to_string(n));
  c.nontrivial = true;
  std::map<std::size_t, double> want;
  dd::vEdge e;
  if (k == 0) { want[0] = want[(std::size_t{1} << n) - 1] = M_SQRT1_2; e = p->makeGHZState(n); }
  else if (k == 1) { for (std::size_t i = 0; i < n; ++i) want[std::size_t{1} << i] = 1 / std::sqrt(static_cast<double>(n)); e = p->makeWState(n); }
  else { std::vector<bool> b; std::size_t x = 0; for (std::size_t i = 0; i < n; ++i) { b.push_back(s.coin()); if (b[i]) x |= std::size_t{1} << i; } want[x] = 1; e = p->makeBasisState(n, b); }
  const auto sp = e.getSparseVector();
  require(sp.size() == want.size(), "sparse export has " + std::to_string(sp.size()) + " entries instead of " + std::to_string(want.size()));
  for (auto& [i, v] : want) { auto it = sp.find(i); require(it != sp.end() && std::abs(it->second - v) < 1e-11, "entry " + std::to_string(i) + " is wrong"); require(std::abs(e.getValueByIndex(i) - v) < 1e-11, "single entry " + std::to_string(i) + " is wrong"); }
  for (int r = 0; r < 10; ++r) { const std::size_t i = (static_cast<std::size_t>(s.below(1ULL << 30)) << 30 | s.below(1ULL << 30)) & ((std::size_t{1} << n) - 1); auto it = want.find(i); require(std::abs(e.getValueByIndex(i) - (it == want.end() ? 0 : it->second)) < 1e-11, "single entry " + std::to_string(i) + " is wrong"); }
}
// gate constructors with arbitrary matrices (also singular ones: projections) and controls
void gates(Src& s, Ctx& c) {
  const auto n = static_cast<std::size_t>(s.range(1, 5));
  auto p = ddx::mkPackage(n);
  std::vector<unsigned> q(n);
  for (unsigned i = 0; i < n; ++i) q[i] = i;
  s.shuffle(q);
  const bool two = n >= 2 && s.coin();
  std::size_t used = two ? 2 : 1;
  qc::Controls ctl;
  std::string cs;
  while (used < n && s.chance(1, 2)) { const bool neg = s.coin(); ctl.emplace(q[used], neg ? qc::Control::Type::Neg : qc::Control::Type::Pos); cs += (neg ? " n" : " c") + std::to_string(q[used]); ++used; }
  const std::size_t dim = two ? 4 : 2;
  Mat g(dim);
  switch (s.below(4)) {
  case 0: g = Mat::id(dim); if (s.coin()) g(dim - 1, dim - 1) = ddx::genAmp(s); break;
  case 1: g(s.below(dim), s.below(dim)) = 1; break; // projections and jumps
  default: for (auto& x : g.a) x = ddx::genAmp(s);
  }
  const std::string d = (two ? "two-qubit " : "one-qubit ") + ref::show(g.a) + " on " + std::to_string(q[0]) + (two ? "," + std::to_string(q[1]) : "") + " controls" + cs + " of " + std::to_string(n);
  c.desc(d);
  Mat want(std::size_t{1} << n);
  for (std::size_t j = 0; j < want.n; ++j) {
    bool act = true;
    for (auto& x : ctl) act = act && (((j >> x.qubit) & 1U) == (x.type == qc::Control::Type::Pos ? 1U : 0U));
    if (!act) { want(j, j) = 1; continue; }
    const std::size_t b1 = std::size_t{1} << q[0], b0 = two ? std::size_t{1} << q[1] : 0;
    const std::size_t col = two ? 2 * ((j >> q[0]) & 1U) + ((j >> q[1]) & 1U) : (j >> q[0]) & 1U;
    for (std::size_t r = 0; r < dim; ++r) {
      std::size_t i = j & ~b1 & ~b0;
      if (two) { if (r & 2U) i |= b1; if (r & 1U) i |= b0; } else if (r & 1U) i |= b1;
      want(i, j) += g(r, col);
    }
  }
  dd::mEdge e;
  if (two) { dd::TwoQubitGateMatrix m{}; for (std::size_t i = 0; i < 4; ++i) for (std::size_t j = 0; j < 4; ++j) m[i][j] = g(i, j); e = ctl.empty() ? p->makeTwoQubitGateDD(m, q[0], q[1]) : ctl.size() == 1 ? p->makeTwoQubitGateDD(m, *ctl.begin(), q[0], q[1]) : p->makeTwoQubitGateDD(m, ctl, q[0], q[1]); }
  else { dd::GateMatrix m{g.a[0], g.a[1], g.a[2], g.a[3]}; e = ctl.empty() ? p->makeGateDD(m, q[0]) : ctl.size() == 1 ? p->makeGateDD(m, *ctl.begin(), q[0]) : p->makeGateDD(m, ctl, q[0]); }
  p->incRef(e);
  readMatrix(e, n, want, 1e-11 * std::max(1.0, maxAbs(want.a)), s, d);
  c.nontrivial = n > 1;
  if (!ctl.empty()) c.label("controlled");
}
void refusal(Src& s, Ctx& c) {
  const auto nq = static_cast<std::size_t>(s.range(1, 4));
  auto p = ddx::mkPackage(nq);
  std::string d;
  bool bad = true;
  std::function<void()> f;
  const std::size_t k = static_cast<std::size_t>(s.range(0, 6)), st = static_cast<std::size_t>(s.range(0, 3));
  switch (s.below(9)) {
  case 0: { const std::size_t len = s.below(20); d = "state from " + std::to_string(len) + " amplitudes"; bad = len != 0 && ((len & (len - 1)) != 0 || len > (std::size_t{1} << nq)); f = [&p, len] { p->makeStateFromVector(dd::CVec(len, 0.5)); }; break; }
  case 1: {
    const std::size_t rows = s.below(20); dd::CMat m; bool ragged = false;
    const std::size_t w = s.chance(2, 3) ? rows : s.below(20);
    for (std::size_t i = 0; i < rows; ++i) { std::size_t x = w; if (s.chance(1, 12)) { x = s.below(20); } if (x != rows) ragged = true; m.emplace_back(x, 0.5); }
    d = "matrix from " + std::to_string(rows) + " rows of " + std::to_string(w) + (ragged ? " (not square)" : "");
    bad = rows != 0 && ((rows & (rows - 1)) != 0 || ragged || rows > (std::size_t{1} << nq));
    f = [&p, m] { p->makeDDFromMatrix(m); };
    break;
  }
  case 2: d = "zero state"; bad = k + st > nq; f = [&] { p->makeZeroState(k, st); }; break;
  case 3: { const std::size_t len = s.below(7); d = "basis state from " + std::to_string(len) + " bits"; bad = k + st > nq || len < k; f = [&p, k, st, len] { p->makeBasisState(k, std::vector<bool>(len, true), st); }; break; }
  case 4: { const std::size_t len = s.below(7); d = "product state from " + std::to_string(len) + " symbols"; bad = k + st > nq || len < k; f = [&p, k, st, len] { p->makeBasisState(k, std::vector<dd::BasisStates>(len, dd::BasisStates::plus), st); }; break; }
  case 5: d = "GHZ state"; bad = k > nq; f = [&] { p->makeGHZState(k); }; break;
  case 6: d = "W state"; bad = k > nq; f = [&] { p->makeWState(k); }; break;
  case 7: { d = "zero density operator"; bad = k > nq; f = [&] { p->makeZeroDensityOperator(k); }; break; }
  default: {
    const auto t = static_cast<qc::Qubit>(k), u = static_cast<qc::Qubit>(st == k ? k + 1 : st);
    const auto w = s.below(3);
    d = "gate on " + std::to_string(t) + " and " + std::to_string(u);
    bad = w == 0 ? t >= nq : t >= nq || u >= nq;
    f = [&p, t, u, w] { if (w == 0) p->makeGateDD(dd::opToSingleQubitGateMatrix(qc::X), t); else if (w == 1) p->makeGateDD(dd::opToSingleQubitGateMatrix(qc::X), qc::Control{u}, t); else p->makeTwoQubitGateDD(dd::opToTwoQubitGateMatrix(qc::SWAP), t, u); };
  }
  }
  d += " with " + std::to_string(k) + " qubits from " + std::to_string(st) + " in a package of " + std::to_string(nq);
  c.desc(d);
  bool t = false;
  try { f(); } catch (const std::exception&) { t = true; }
  require(t == bad, std::string(t ? "refused: " : "accepted: ") + d);
  c.nontrivial = true;
  c.label(bad ? "invalid" : "valid");
}
} // namespace

int main(int argc, char** argv) {
  Suite su;
  su.property = "C30";
  su.rule = "one case = one or several states or matrices built by a constructor, read back by every export (dense, sparse, with threshold, by index, by path, accumulating) and compared with the dense definition; non-trivial = more than one qubit (and more than one non-zero entry for dense input), or a refusal check";
  su.assumptions = {"absolute tolerance 1e-11 relative to the norm (matrices: largest entry) of the input", "bit i of a basis state is the state of the i-th of the n qubits"};
  su.props = {{"from_vector", fromVector, 6000, 200000}, {"from_matrix", fromMatrix, 6000, 200000}, {"named", named, 6000, 200000}, {"large", large, 800, 10000}, {"gates", gates, 8000, 300000}, {"refusal", refusal, 4000, 50000}};
  return mainImpl(su, argc, argv);
}
