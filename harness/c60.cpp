// build: {"libs":["ir","circuit_optimizer","algorithms"]}
// C60: the algorithm generators realise the algorithms they are named after.
#include "optx.hpp"

#include "algorithms/BernsteinVazirani.hpp"
#include "algorithms/GHZState.hpp"
#include "algorithms/Grover.hpp"
#include "algorithms/QFT.hpp"
#include "algorithms/QPE.hpp"
#include "algorithms/RandomCliffordCircuit.hpp"
#include "algorithms/StatePreparation.hpp"
#include "algorithms/WState.hpp"
using namespace spec;
using C = std::complex<double>;

namespace {
Vec zero(unsigned n) { Vec v(std::size_t{1} << n); v[0] = 1; return v; }
Dist outcome(const Circ& c) { return distribution(runAll(c.ops, c.nq, c.nc, zero(c.nq))); }
std::string bits(std::size_t v, unsigned n) { std::string s; for (unsigned i = n; i-- > 0;) s += ((v >> i) & 1U) ? '1' : '0'; return s; }
void sameDist(const Dist& got, const Dist& want, const std::string& what) {
  const double e = distDist(got, want);
  pbt::require(e < 1e-8, what + ": wrong outcome distribution (by " + num(e) + "): " + show(got).substr(0, 600) + " instead of " + show(want).substr(0, 600));
}
void state(const Vec& got, const Vec& want, const std::string& what, double tol, bool phase) {
  C ip = 0;
  for (std::size_t i = 0; i < got.size(); ++i) ip += std::conj(want[i]) * got[i];
  const C f = phase || std::abs(ip) < 1e-9 ? C(1) : ip / std::abs(ip);
  double m = 0;
  pbt::require(got.size() == want.size(), what + ": wrong number of qubits");
  for (std::size_t i = 0; i < got.size(); ++i) m = std::max(m, std::abs(got[i] - f * want[i]));
  pbt::require(m < tol, what + ": the prepared state is wrong by " + num(m));
}
Vec final(const Circ& c) {
  pbt::require(!anyOp(c.ops, [](auto& o) { return o.kind == Op::Measure || o.kind == Op::Reset || o.kind == Op::If; }), "the circuit is not unitary");
  auto b = runAll(c.ops, c.nq, c.nc, zero(c.nq));
  for (auto& x : b.at(0).v) x *= ref::ei(c.gphase);
  return b[0].v;
}
// the layout names the qubits as documented, and the flag qubit is garbage
void flagGarbage(const qc::QuantumComputation& q, unsigned data) {
  const auto l = optx::capture(q);
  optx::Perm in, out;
  in[0] = data;
  for (unsigned i = 1; i <= data; ++i) in[i] = out[i] = i - 1;
  pbt::require(l.in == in && l.out == out && q.logicalQubitIsGarbage(data), "wrong layout: " + optx::show(l.in) + "/ " + optx::show(l.out));
}
void bernsteinVazirani(pbt::Src& s, pbt::Ctx& c) {
  const auto n = static_cast<unsigned>(s.sized(1, 11));
  qc::BVBitString h;
  for (unsigned i = 0; i < n; ++i) if (s.coin()) h.set(i);
  const auto mode = s.below(3);
  const std::size_t seed = 1 + s.below(1000000);
  c.desc("BV " + bits(h.to_ulong(), n) + " mode " + std::to_string(mode) + " seed " + std::to_string(seed));
  c.nontrivial = n > 1;
  auto used = n;
  auto hidden = h.to_ulong();
  std::optional<qc::QuantumComputation> st, it;
  if (mode == 0) { st = qc::createBernsteinVazirani(h, n); it = qc::createIterativeBernsteinVazirani(h, n); }
  else if (mode == 1) { used = 1; for (unsigned i = 0; i < n; ++i) if (h.test(i)) used = i + 1; st = qc::createBernsteinVazirani(h); it = qc::createIterativeBernsteinVazirani(h); }
  else {
    st = qc::createBernsteinVazirani(n, seed); it = qc::createIterativeBernsteinVazirani(n, seed);
    pbt::require(*st == qc::createBernsteinVazirani(n, seed) && *it == qc::createIterativeBernsteinVazirani(n, seed), "a fixed seed does not reproduce the circuit");
    const auto name = st->getName();
    pbt::require(name.rfind("bv_", 0) == 0 && it->getName() == "iterative_" + name && name.size() == 3 + n, "wrong name " + name + " / " + it->getName());
    hidden = std::stoul(name.substr(3), nullptr, 2);
  }
  pbt::require(st->getName() == "bv_" + bits(hidden, used) && it->getName() == "iterative_bv_" + bits(hidden, used), "wrong name " + st->getName() + " / " + it->getName());
  pbt::require(st->getNcbits() == used && it->getNcbits() == used && st->getNqubits() == used + 1 && it->getNqubits() == 2, "wrong number of qubits or bits");
  flagGarbage(*st, used); flagGarbage(*it, 1);
  const Dist want{{bits(hidden, used), 1.0}};
  sameDist(outcome(extract(*st)), want, "Bernstein-Vazirani");
  sameDist(outcome(extract(*it)), want, "iterative Bernstein-Vazirani");
}
void entangled(pbt::Src& s, pbt::Ctx& c) {
  const auto n = static_cast<unsigned>(s.range(1, 12));
  const bool ghz = s.coin();
  c.desc((ghz ? "GHZ " : "W ") + std::to_string(n));
  c.nontrivial = n > 1;
  Vec w(std::size_t{1} << n);
  if (ghz) w[0] = w[w.size() - 1] = 1 / std::sqrt(2.0);
  else for (unsigned i = 0; i < n; ++i) w[std::size_t{1} << i] = 1 / std::sqrt(static_cast<double>(n));
  const auto q = ghz ? qc::createGHZState(n) : qc::createWState(n);
  pbt::require(q.getName() == (ghz ? "ghz_" : "wstate_") + std::to_string(n) && q.getNqubits() == n, "wrong name or size");
  state(final(extract(q)), w, ghz ? "GHZ" : "W", 1e-9, true);
}
// U3-like preparation of one qubit
std::vector<Op> prep(pbt::Src& s, unsigned q) {
  Op a; a.g = "ry"; a.p = {s.chance(1, 3) ? s.pick({0.0, M_PI, M_PI_2}) : s.unit() * 6 - 3}; a.ts = {q};
  Op b; b.g = "rz"; b.p = {s.unit() * 6 - 3}; b.ts = {q};
  return {a, b};
}
std::size_t reversed(std::size_t x, unsigned n) { std::size_t r = 0; for (unsigned i = 0; i < n; ++i) if ((x >> i) & 1U) r |= std::size_t{1} << (n - 1 - i); return r; }
void qft(pbt::Src& s, pbt::Ctx& c) {
  const auto n = static_cast<unsigned>(s.sized(0, 7));
  c.desc("QFT " + std::to_string(n));
  c.nontrivial = n > 1;
  const auto N = std::size_t{1} << n;
  const auto st = qc::createQFT(n, false), me = qc::createQFT(n), it = qc::createIterativeQFT(n);
  pbt::require(st.getName() == "qft_" + std::to_string(n) && me.getName() == st.getName() && it.getName() == "iterative_qft_" + std::to_string(n), "wrong name");
  pbt::require(st.getNqubits() == n && me.getNqubits() == n && it.getNqubits() == (n > 0 ? 1 : 0) && it.getNcbits() == n && me.getNcbits() == n, "wrong number of qubits or bits");
  const auto ls = optx::capture(st), lm = optx::capture(me);
  for (auto* l : {&ls, &lm}) for (unsigned i = 0; i < n; ++i) pbt::require(l->in.at(i) == i && l->out.at(i) == n - 1 - i, "the output permutation does not reverse the qubits");
  if (n == 0) return;
  // the discrete Fourier transform of the register read with qubit 0 as the most significant one
  Vec v(N);
  double norm = 0;
  for (auto& x : v) { x = C(s.unit() - 0.5, s.unit() - 0.5); if (s.chance(1, 4)) x = 0; norm += std::norm(x); }
  if (norm < 1e-3) { v[s.below(N)] = 1; norm = norm2(v); }
  for (auto& x : v) x /= std::sqrt(norm);
  auto out = runAll(ls.c.ops, n, ls.c.nc, v).at(0).v;
  Vec want(N);
  for (std::size_t a = 0; a < N; ++a) for (std::size_t b = 0; b < N; ++b) want[reversed(a, n)] += ref::ei(2 * M_PI * static_cast<double>(a * b % N) / static_cast<double>(N)) / std::sqrt(static_cast<double>(N)) * v[reversed(b, n)];
  for (auto& x : out) x *= ref::ei(ls.c.gphase);
  state(out, want, "QFT", 1e-9, true);
  // measuring variant: the bits hold the result with bit 0 as the least significant one
  if (n > 5) return;
  Dist d;
  for (std::size_t a = 0; a < N; ++a) d[bits(a, n)] = std::norm(want[a]);
  sameDist(distribution(runAll(lm.c.ops, n, n, v)), d, "QFT with measurements");
  // semi-classical variant on a product state prepared in each round
  auto ops = lm.c.ops;
  std::vector<std::vector<Op>> preps;
  std::vector<Op> stat, iter;
  for (unsigned i = 0; i < n; ++i) { auto p = prep(s, i); stat.insert(stat.end(), p.begin(), p.end()); for (auto& o : p) o.ts = {0}; preps.push_back(p); }
  stat.insert(stat.end(), ops.begin(), ops.end());
  std::size_t round = 0;
  auto insert = [&] { pbt::require(round < preps.size(), "too many rounds in the iterative QFT"); iter.insert(iter.end(), preps[round].begin(), preps[round].end()); ++round; };
  insert();
  const auto ci = extract(it);
  for (auto& o : ci.ops) { iter.push_back(o); if (o.kind == Op::Reset) insert(); }
  pbt::require(round == n, "wrong number of rounds in the iterative QFT");
  sameDist(distribution(runAll(iter, 1, n, zero(1))), distribution(runAll(stat, n, n, zero(n))), "iterative QFT");
}
void grover(pbt::Src& s, pbt::Ctx& c) {
  const auto n = static_cast<unsigned>(s.sized(1, 8));
  qc::GroverBitString t;
  for (unsigned i = 0; i < n; ++i) if (s.coin()) t.set(i);
  const bool seeded = s.coin();
  const std::size_t seed = 1 + s.below(1000000);
  c.desc("Grover " + bits(t.to_ulong(), n) + (seeded ? " seed " + std::to_string(seed) : ""));
  c.nontrivial = n > 2;
  auto q = seeded ? qc::createGrover(n, seed) : qc::createGrover(n, t);
  const auto prefix = "grover_" + std::to_string(n) + "_";
  pbt::require(q.getName().rfind(prefix, 0) == 0 && q.getName().size() == prefix.size() + n, "wrong name " + q.getName());
  auto target = t.to_ulong();
  if (seeded) { target = std::stoul(q.getName().substr(prefix.size()), nullptr, 2); pbt::require(q == qc::createGrover(n, seed), "a fixed seed does not reproduce the circuit"); }
  pbt::require(q.getName() == prefix + bits(target, n), "wrong name " + q.getName());
  pbt::require(q.getNqubits() == n + 1 && q.getNcbits() == n, "wrong number of qubits or bits");
  const auto N = static_cast<double>(std::size_t{1} << n);
  const auto k = static_cast<double>(qc::computeNumberOfIterations(n));
  const double th = std::asin(1 / std::sqrt(N)), p = std::pow(std::sin((2 * k + 1) * th), 2);
  pbt::require(n <= 2 || p >= 1 - 4 / N, "the number of iterations is far from the optimum");
  pbt::require(std::abs(k - M_PI_4 * std::sqrt(N)) <= 1, "the number of iterations is far from the optimum");
  Dist want;
  for (std::size_t i = 0; i < (std::size_t{1} << n); ++i) want[bits(i, n)] = i == target ? p : (1 - p) / (N - 1);
  sameDist(outcome(extract(q)), want, "Grover");
}
// outcome m with probability |1/N sum_k exp(2 pi i k (phi - m/N))|^2
Dist phaseEstimates(double lambda, unsigned n) {
  const auto N = std::size_t{1} << n;
  Dist d;
  for (std::size_t m = 0; m < N; ++m) {
    C a = 0;
    for (std::size_t k = 0; k < N; ++k) a += ref::ei(static_cast<double>(k) * (M_PI * lambda - 2 * M_PI * static_cast<double>(m) / static_cast<double>(N)));
    d[bits(m, n)] = std::norm(a / static_cast<double>(N));
  }
  return d;
}
void phaseEstimation(pbt::Src& s, pbt::Ctx& c) {
  const auto n = static_cast<unsigned>(s.sized(1, 7));
  const auto mode = s.below(3);
  const std::size_t seed = 1 + s.below(1000000);
  double lambda = 0;
  std::optional<qc::QuantumComputation> st, it;
  const auto N = static_cast<double>(std::size_t{1} << n);
  if (mode == 0) {
    lambda = s.chance(1, 3) ? static_cast<double>(s.range(-8, 8)) / static_cast<double>(std::size_t{1} << s.below(6)) : (s.unit() - 0.5) * s.pick({2.0, 4.0, 0.01, 16.0});
    c.desc("QPE " + num(lambda) + " precision " + std::to_string(n));
    st = qc::createQPE(lambda, n); it = qc::createIterativeQPE(lambda, n);
  } else {
    const bool exact = mode == 1;
    c.desc(std::string("QPE ") + (exact ? "exact" : "inexact") + " precision " + std::to_string(n) + " seed " + std::to_string(seed));
    st = qc::createQPE(n, exact, seed); it = qc::createIterativeQPE(n, exact, seed);
    pbt::require(*st == qc::createQPE(n, exact, seed) && *it == qc::createIterativeQPE(n, exact, seed), "a fixed seed does not reproduce the circuit");
    lambda = st->getGlobalPhase(); // the phase is stored there
    pbt::require(st->getName().rfind("qpe_" + std::to_string(n) + "_", 0) == 0, "wrong name " + st->getName());
    const double inName = std::stod(st->getName().substr(std::string("qpe_" + std::to_string(n) + "_").size()));
    pbt::require(std::abs(inName - lambda) < 1e-9, "the stored phase is not the one in the name: " + st->getName() + " " + num(lambda));
    const double x = lambda * N / 2; // an exact phase is a multiple of 2 / N, an inexact one an odd multiple of 1 / N
    const double frac = x - std::floor(x);
    pbt::require(exact ? (frac < 1e-9 && x > 0.5) : std::abs(frac - 0.5) < 1e-9, "the random phase is not " + std::string(exact ? "exact" : "halfway between two estimates") + ": " + num(lambda));
  }
  c.nontrivial = n > 1;
  pbt::require(it->getName() == "iterative_" + st->getName(), "wrong name " + it->getName());
  pbt::require(st->getNqubits() == n + 1 && it->getNqubits() == 2 && st->getNcbits() == n && it->getNcbits() == n, "wrong number of qubits or bits");
  flagGarbage(*st, n); flagGarbage(*it, 1);
  const auto want = phaseEstimates(lambda, n);
  sameDist(outcome(extract(*st)), want, "phase estimation");
  sameDist(outcome(extract(*it)), want, "iterative phase estimation");
}
void statePreparation(pbt::Src& s, pbt::Ctx& c) {
  const auto n = static_cast<unsigned>(s.sized(0, 6));
  Vec v(std::size_t{1} << n);
  const auto kind = s.below(5);
  for (std::size_t i = 0; i < v.size(); ++i) {
    switch (kind) {
    case 0: v[i] = C(s.unit() - 0.5, s.unit() - 0.5); break;
    case 1: v[i] = s.unit() - 0.5; break;
    case 2: v[i] = s.chance(1, 3) ? C(s.unit() - 0.5, s.unit() - 0.5) : C(0); break;
    case 3: v[i] = s.pick({C(1), C(-1), C(0, 1), C(0, -1), C(0)}); break;
    default: v[i] = std::polar(1.0, s.unit() * 2 * M_PI); break;
    }
    if (s.chance(1, 10)) v[i] *= s.pick({1e-4, 1e-7, 1e-12, 0.0});
  }
  double m = norm2(v);
  if (m < 1e-6) { v[s.below(v.size())] = ref::ei(s.unit() * 6); m = norm2(v); }
  for (auto& x : v) x /= std::sqrt(m);
  std::ostringstream o; o.precision(6); o << "prepare";
  for (std::size_t i = 0; i < std::min<std::size_t>(v.size(), 16); ++i) o << " " << v[i];
  c.desc(o.str());
  c.nontrivial = n > 0;
  if (s.chance(1, 6)) { // invalid input
    auto w = v;
    if (s.coin()) { for (auto& x : w) x *= s.pick({0.9, 1.1, 1.0001, 0.5}); } else if (s.coin()) w.push_back(0.0); else w.clear();
    if (w.size() == 2 * v.size() && w.size() == 2) return; // appending to a single amplitude yields a valid vector
    bool threw = false;
    try { (void)qc::createStatePreparationCircuit(w); } catch (const std::invalid_argument&) { threw = true; }
    pbt::require(threw, "an invalid vector of " + std::to_string(w.size()) + " amplitudes is not refused");
    c.label("refused");
    return;
  }
  const auto q = qc::createStatePreparationCircuit(v);
  pbt::require(q.getNqubits() == n, "wrong number of qubits");
  state(final(extract(q)), v, "state preparation", 1e-6, true);
}
void clifford(pbt::Src& s, pbt::Ctx& c) {
  const auto n = static_cast<unsigned>(s.sized(1, 5));
  const auto depth = static_cast<std::size_t>(s.sized(0, 12));
  const std::size_t seed = 1 + s.below(1000000);
  c.desc("random Clifford circuit on " + std::to_string(n) + " qubits, depth " + std::to_string(depth) + ", seed " + std::to_string(seed));
  c.nontrivial = depth > 1;
  const auto q = qc::createRandomCliffordCircuit(n, depth, seed);
  pbt::require(q == qc::createRandomCliffordCircuit(n, depth, seed), "a fixed seed does not reproduce the circuit");
  pbt::require(q.getName() == "random_clifford_" + std::to_string(n) + "_" + std::to_string(depth) + "_" + std::to_string(seed) && q.getNqubits() == n, "wrong name or size");
  const auto e = extract(q);
  // layers of blocks on neighbouring pairs, alternating
  std::size_t i = 0;
  for (std::size_t l = 0; l < depth; ++l) for (unsigned a = n > 2 ? l % 2 : 0; a + 1 < n || (n == 1 && a < n); a += 2, ++i) {
    pbt::require(i < e.ops.size() && e.ops[i].kind == Op::Compound, "the circuit has too few blocks: " + show(e));
    for (auto& o : e.ops[i].body) {
      const std::set<std::string> plain{"h", "s", "sdg", "x", "y", "z"};
      pbt::require(o.kind == Op::U && ((o.cs.empty() && plain.count(o.g)) || (o.cs.size() == 1 && o.cs[0].pos && o.g == "x")), "a gate is no Clifford gate: " + show(o));
      std::vector<unsigned> qs = o.ts;
      for (auto& k : o.cs) qs.push_back(k.q);
      for (auto x : qs) pbt::require(x == a || x == a + 1, "a gate acts outside of the block's qubits: " + show(o));
    }
  }
  pbt::require(i == e.ops.size(), "the circuit has " + std::to_string(e.ops.size()) + " blocks instead of " + std::to_string(i));
  if (n > 3) return;
  // conjugation maps Pauli operators to Pauli operators
  const auto u = unitary(e.ops, n), ud = ref::adj(u);
  for (unsigned k = 0; k < 2 * n; ++k) {
    Op p; p.g = k % 2 ? "x" : "z"; p.ts = {k / 2};
    const auto m = ref::mul(u, ref::mul(unitary({p}, n), ud));
    std::size_t nz = 0;
    for (auto& x : m.a) { const double a = std::abs(x); pbt::require(a < 1e-9 || std::abs(a - 1) < 1e-9, "the circuit is no Clifford circuit"); nz += a > 0.5; }
    pbt::require(nz == m.n, "the circuit is no Clifford circuit");
  }
}
} // namespace

int main(int argc, char** argv) {
  pbt::Suite su;
  su.property = "C60";
  su.rule = "a case is non-trivial if it has more than one qubit (more than two for Grover) or more than one layer";
  su.assumptions = {"up to 11 (Bernstein-Vazirani), 12 (GHZ, W), 7 (QFT, phase estimation), 8 (Grover), 6 (state preparation), 5 (Clifford) qubits; tolerance 1e-8 (state preparation 1e-6)",
                    "createQFT without measurements performs the SWAPs and also reverses the output permutation (existing tests rely on this): the physical unitary is compared"};
  su.props = {{"bernsteinVazirani", bernsteinVazirani, 600, 20000}, {"entangled", entangled, 200, 2000}, {"qft", qft, 400, 15000}, {"grover", grover, 150, 4000}, {"phaseEstimation", phaseEstimation, 500, 15000}, {"statePreparation", statePreparation, 3000, 100000}, {"clifford", clifford, 1500, 50000}};
  return pbt::mainImpl(su, argc, argv);
}
