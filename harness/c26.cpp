// build: {"libs": ["ir", "dd"]}
// C26: measurement and sampling follow the Born rule.
#include "ddx.hpp"
using namespace pbt;
using ref::C;
using ref::Vec;

namespace {
// Frequencies against exact probabilities. A count k of N with probability p is refused when a binomial variable
// would be that far off with probability below e^-32 (Chernoff bound); impossible outcomes are refused outright.
void compareCounts(const std::map<std::string, std::size_t>& counts, const spec::Dist& want, std::size_t shots, const std::string& d) {
  std::size_t total = 0;
  for (auto& [k, n] : counts) total += n;
  require(total == shots, std::to_string(total) + " results for " + std::to_string(shots) + " shots: " + d);
  std::set<std::string> keys;
  for (auto& [k, n] : counts) keys.insert(k);
  for (auto& [k, p] : want) keys.insert(k);
  auto kl = [](double a, double b) { return a <= 0 ? 0.0 : a * std::log(a / b); };
  for (auto& k : keys) {
    auto iw = want.find(k); auto ic = counts.find(k);
    double p = iw == want.end() ? 0 : iw->second;
    std::size_t n = ic == counts.end() ? 0 : ic->second;
    auto msg = [&] { std::ostringstream o; o << "outcome " << k << " occurred " << n << " times in " << shots << " shots although its probability is " << p << " [" << d << "] expected " << spec::show(want); return o.str(); };
    if (p < 1e-12) { require(n == 0, msg()); continue; }
    if (p > 1 - 1e-12) { require(n == shots, msg()); continue; }
    double f = static_cast<double>(n) / static_cast<double>(shots);
    double div = kl(f, p) + kl(1 - f, 1 - p);
    require(static_cast<double>(shots) * div < 32, msg());
  }
}
double prob(const Vec& v, unsigned q, bool one) { double s = 0; for (std::size_t i = 0; i < v.size(); ++i) if ((((i >> q) & 1U) != 0) == one) s += std::norm(v[i]); return s; }
spec::GenCfg gates() { spec::GenCfg g; g.barriers = true; g.gphaseOps = true; g.compounds = true; return g; }

dd::vEdge genState(Src& s, dd::Package& p, unsigned n, Vec& v, std::string& d) {
  if (s.coin()) { v = ddx::genVec(s, n); d = ddx::show(v); return p.makeStateFromVector(ddx::toCVec(v)); }
  spec::Circ c; c.nq = n; c.ops = spec::genOps(s, n, 0, gates(), 14);
  v = spec::basis(n, 0); for (auto& o : c.ops) spec::applyUnitary(v, o);
  d = "state of " + spec::show(c);
  return dd::simulate(spec::build(c), p.makeZeroState(n), p);
}
// probabilities, collapse and the state left behind, along a chain of measurements
void collapse(Src& s, Ctx& c) {
  const unsigned n = static_cast<unsigned>(s.range(1, 6));
  auto p = ddx::mkPackage(n);
  Vec v; std::string d;
  auto e = genState(s, *p, n, v, d);
  std::mt19937_64 rng(s.below(1U << 30));
  int steps = s.range(1, 6), random = 0;
  for (int i = 0; i < steps; ++i) {
    const unsigned q = static_cast<unsigned>(s.below(n));
    const double p0 = prob(v, q, false), p1 = prob(v, q, true);
    auto [z, o] = p->determineMeasurementProbabilities(e, static_cast<dd::Qubit>(q));
    require(std::abs(z - p0) < 1e-8 && std::abs(o - p1) < 1e-8, "probabilities of qubit " + std::to_string(q) + " are reported as " + spec::num(z) + ", " + spec::num(o) + " instead of " + spec::num(p0) + ", " + spec::num(p1) + " for " + d);
    const auto before = e;
    auto r = p->measureOneCollapsing(e, static_cast<dd::Qubit>(q), rng);
    require(r == '0' || r == '1', "outcome is neither 0 nor 1");
    const double pr = r == '1' ? p1 : p0;
    require(pr > 1e-10, "outcome " + std::string(1, r) + " of qubit " + std::to_string(q) + " has probability " + spec::num(pr) + " for " + d);
    if (p0 > 0.01 && p1 > 0.01) ++random;
    spec::project(v, q, r == '1');
    spec::scale(v, 1 / std::sqrt(pr));
    require(ref::dist(ddx::toVec(e, n), v) < 1e-7, "state after measuring qubit " + std::to_string(q) + " as " + r + " is " + ddx::show(ddx::toVec(e, n)) + " instead of " + ddx::show(v) + " for " + d);
    d += " measured q" + std::to_string(q) + "=" + r;
    (void)before;
  }
  c.desc(d);
  c.nontrivial = random > 0;
}
// outcome frequencies of one qubit and of all qubits
void frequencies(Src& s, Ctx& c) {
  const unsigned n = static_cast<unsigned>(s.range(1, 4));
  auto p = ddx::mkPackage(n);
  Vec v; std::string d;
  auto e = genState(s, *p, n, v, d);
  std::mt19937_64 rng(s.below(1U << 30));
  const std::size_t shots = 600;
  if (s.coin()) {
    const unsigned q = static_cast<unsigned>(s.below(n));
    std::map<std::string, std::size_t> counts;
    for (std::size_t i = 0; i < shots; ++i) { auto f = e; p->incRef(f); counts[std::string(1, p->measureOneCollapsing(f, static_cast<dd::Qubit>(q), rng))]++; p->decRef(f); }
    compareCounts(counts, {{"0", prob(v, q, false)}, {"1", prob(v, q, true)}}, shots, "qubit " + std::to_string(q) + " of " + d);
    c.label("one qubit");
  } else {
    spec::Dist want;
    for (std::size_t i = 0; i < v.size(); ++i) { std::string k; for (unsigned b = n; b-- > 0;) k += ((i >> b) & 1U) ? '1' : '0'; want[k] = std::norm(v[i]); }
    std::map<std::string, std::size_t> counts;
    for (std::size_t i = 0; i < shots; ++i) counts[p->measureAll(e, false, rng)]++;
    compareCounts(counts, want, shots, "all qubits of " + d);
    auto r = p->measureAll(e, true, rng);
    Vec w(v.size()); w[std::stoul(r, nullptr, 2)] = 1;
    require(want[r] > 1e-12, "measuring all qubits gave the impossible outcome " + r + " for " + d);
    require(ref::dist(ddx::toVec(e, n), w) < 1e-9, "state after measuring all qubits is not the basis state " + r + " for " + d);
    c.label("all qubits");
  }
  c.desc(d);
  c.nontrivial = v.size() - static_cast<std::size_t>(std::count_if(v.begin(), v.end(), [](C x) { return std::norm(x) < 1e-9; })) >= 2;
}
struct Setup { spec::Circ circ; ddx::Layout l; Vec in; };
void checkSample(Src& s, Ctx& c, const qc::QuantumComputation& q, const spec::Dist& want, std::size_t shots, bool ownInput, const Vec& in, const std::string& d) {
  const std::size_t seed = 1 + s.below(1U << 30);
  std::map<std::string, std::size_t> r;
  if (ownInput) {
    auto p = ddx::mkPackage(q.getNqubits());
    r = dd::sample(q, p->makeStateFromVector(ddx::toCVec(in)), *p, shots, seed);
  } else r = dd::sample(q, shots, seed);
  compareCounts(r, want, shots, d);
  if (!ownInput && s.chance(1, 5)) require(dd::sample(q, shots, seed) == r, "the same seed gives different results: " + d);
  if (!ownInput && s.chance(1, 8)) { auto z = dd::sample(q, 30, 0); compareCounts(z, want, 30, "random seed, " + d); }
  std::size_t support = 0; for (auto& [k, p] : want) if (p > 1e-3) ++support;
  c.nontrivial = support >= 2;
  c.label("outcomes:" + std::string(support > 8 ? ">8" : std::to_string(support)));
}
Vec genInput(Src& s, unsigned n, bool& own) { own = s.chance(1, 3); return own ? ddx::genVec(s, n) : spec::basis(n, 0); }
// measurements only at the end, into any bits
void finalMeasures(Src& s, Ctx& c) {
  spec::Circ circ; circ.nq = static_cast<unsigned>(s.range(1, 5)); circ.nc = static_cast<unsigned>(s.range(1, 5));
  circ.ops = spec::genOps(s, circ.nq, 0, gates(), 14);
  std::vector<unsigned> measured;
  int m = s.range(1, 5);
  for (int i = 0; i < m; ++i) {
    spec::Op o; o.kind = spec::Op::Measure;
    unsigned k = static_cast<unsigned>(s.range(1, static_cast<int>(std::min(circ.nq, circ.nc))));
    o.ts = spec::distinctQubits(s, circ.nq, k); o.bits = spec::distinctQubits(s, circ.nc, k);
    for (auto t : o.ts) measured.push_back(t);
    circ.ops.push_back(o);
  }
  auto l = ddx::genLayout(s, circ.nq, true, s.chance(1, 4));
  for (auto t : measured) l.garb[l.output[t]] = false; // a measured qubit is no garbage
  auto q = spec::build(circ, s.coin());
  ddx::setLayout(q, l);
  bool own; auto in = genInput(s, circ.nq, own);
  const std::string d = ddx::show(l) + " " + spec::show(circ) + (own ? " on " + ddx::show(in) : "");
  c.desc(d);
  auto want = spec::distribution(spec::runAll(circ.ops, circ.nq, circ.nc, ddx::permuteVec(in, ddx::inverse(l.initial))));
  checkSample(s, c, q, want, 400, own, in, d);
  std::set<unsigned> u(measured.begin(), measured.end()); if (u.size() != measured.size()) c.label("a qubit measured twice");
}
// no measurements: all qubits, laid out by the output permutation
void noMeasures(Src& s, Ctx& c) {
  spec::Circ circ; circ.nq = static_cast<unsigned>(s.range(1, 5)); circ.nc = s.chance(1, 4) ? static_cast<unsigned>(s.range(1, 6)) : 0;
  circ.ops = spec::genOps(s, circ.nq, 0, gates(), 14);
  auto l = ddx::genLayout(s, circ.nq, true, s.chance(1, 3));
  auto q = spec::build(circ, s.coin());
  ddx::setLayout(q, l);
  bool own; auto in = genInput(s, circ.nq, own);
  const std::string d = ddx::show(l) + " " + spec::show(circ) + (own ? " on " + ddx::show(in) : "");
  c.desc(d);
  auto out = ddx::runLayout(circ, l, in);
  spec::Dist want;
  for (std::size_t i = 0; i < out.size(); ++i) { std::string k; for (unsigned b = circ.nq; b-- > 0;) k += ((i >> b) & 1U) && !l.garb[b] ? '1' : '0'; want[k] += std::norm(out[i]); }
  checkSample(s, c, q, want, 400, own, in, d);
}
// mid-circuit measurements, resets and classical control
void dynamic(Src& s, Ctx& c) {
  spec::Circ circ; circ.nq = static_cast<unsigned>(s.range(1, 4)); circ.nc = static_cast<unsigned>(s.range(1, 4));
  auto g = gates(); g.measures = g.resets = g.ifs = g.multiMeasure = g.cmpKinds = g.ifCompound = true; g.compoundNonUnitary = s.coin();
  circ.ops = spec::genOps(s, circ.nq, circ.nc, g, 14);
  if (!spec::anyOp(circ.ops, [](const spec::Op& o) { return o.kind == spec::Op::Measure; })) { spec::Op o; o.kind = spec::Op::Measure; o.ts = {static_cast<unsigned>(s.below(circ.nq))}; o.bits = {static_cast<unsigned>(s.below(circ.nc))}; circ.ops.push_back(o); }
  auto l = ddx::genLayout(s, circ.nq, true, false);
  auto q = spec::build(circ, s.coin());
  ddx::setLayout(q, l);
  bool own; auto in = genInput(s, circ.nq, own);
  const std::string d = ddx::show(l) + " " + spec::show(circ) + (own ? " on " + ddx::show(in) : "");
  c.desc(d);
  auto want = spec::distribution(spec::runAll(circ.ops, circ.nq, circ.nc, ddx::permuteVec(in, ddx::inverse(l.initial))));
  checkSample(s, c, q, want, 150, own, in, d);
  for (auto k : {spec::Op::If, spec::Op::Reset, spec::Op::Measure}) if (spec::anyOp(circ.ops, [&](const spec::Op& o) { return o.kind == k; })) c.label(k == spec::Op::If ? "with classical control" : k == spec::Op::Reset ? "with reset" : "with measurement");
}
// single collapsing steps through the circuit primitives
void steps(Src& s, Ctx& c) {
  const unsigned n = static_cast<unsigned>(s.range(1, 5)), nc = static_cast<unsigned>(s.range(1, 4));
  auto g = gates(); g.measures = g.resets = g.ifs = g.multiMeasure = g.cmpKinds = true;
  auto ops = spec::genOps(s, n, nc, g, 20);
  auto l = ddx::genLayout(s, n, true, false);
  qc::Permutation perm; for (unsigned i = 0; i < n; ++i) perm[i] = l.initial[i];
  auto p = ddx::mkPackage(n);
  auto e = p->makeZeroState(n);
  std::mt19937_64 rng(s.below(1U << 30));
  Vec v = spec::basis(n, 0); // physical qubits
  std::vector<bool> bits(nc);
  const std::string d = ddx::show(l) + " " + std::to_string(n) + "q: " + spec::show(ops);
  c.desc(d);
  int random = 0;
  for (auto& o : ops) {
    auto op = spec::makeOp(o);
    if (o.kind == spec::Op::Measure) {
      e = dd::applyMeasurement(dynamic_cast<const qc::NonUnitaryOperation&>(*op), e, *p, rng, bits, perm);
      for (std::size_t k = 0; k < o.ts.size(); ++k) { const double pr = prob(v, o.ts[k], bits[o.bits[k]]); require(pr > 1e-10, "impossible outcome in " + spec::show(o) + " of " + d); if (pr < 0.99) ++random; spec::project(v, o.ts[k], bits[o.bits[k]]); spec::scale(v, 1 / std::sqrt(pr)); }
      require(ref::dist(ddx::toVec(e, n), ddx::permuteVec(v, l.initial)) < 1e-7, "state differs after " + spec::show(o) + " of " + d);
    } else if (o.kind == spec::Op::Reset) {
      e = dd::applyReset(dynamic_cast<const qc::NonUnitaryOperation&>(*op), e, *p, rng, perm);
      auto w = ddx::permuteVec(ddx::toVec(e, n), ddx::inverse(l.initial));
      // some branch of the projections, with the qubits moved to zero
      std::vector<spec::Branch> bs{{v, {}}};
      spec::run(bs, o);
      bool ok = false;
      for (auto& b : bs) { auto u = b.v; const double nn = ref::norm(u); if (nn < 1e-6) continue; spec::scale(u, 1 / nn); if (ref::dist(u, w) < 1e-7) ok = true; }
      require(ok, "state after " + spec::show(o) + " is no branch of the reset in " + d);
      if (bs.size() > 1) ++random;
      v = w;
    } else if (o.kind == spec::Op::If) {
      std::vector<spec::Branch> bs{{v, {}}}; for (bool b : bits) bs[0].bits.push_back(static_cast<char>(b));
      spec::run(bs, o); v = bs.at(0).v;
      e = dd::applyClassicControlledOperation(dynamic_cast<const qc::ClassicControlledOperation&>(*op), e, *p, bits, perm);
      require(ref::dist(ddx::toVec(e, n), ddx::permuteVec(v, l.initial)) < 1e-7, "state differs after " + spec::show(o) + " of " + d);
    } else {
      spec::applyUnitary(v, o);
      e = dd::applyUnitaryOperation(*op, e, *p, perm);
    }
  }
  require(ref::dist(ddx::toVec(e, n), ddx::permuteVec(v, l.initial)) < 1e-7, "final state differs: " + d);
  c.nontrivial = random > 0;
}
} // namespace

int main(int argc, char** argv) {
  Suite su;
  su.property = "C26";
  su.rule = "one case = one state with a chain of measurements, or one circuit sampled with several hundred shots against its exact outcome distribution (dense branching reference); non-trivial = at least two possible outcomes; distinct by printed case";
  su.assumptions = {"probabilities to 1e-8, states to 1e-7", "a frequency is refused when the Chernoff bound of its deviation is below e^-32, an outcome of probability below 1e-12 is refused outright", "measured qubits are not declared garbage"};
  su.props = {{"collapse", collapse, 60000, 900000}, {"frequencies", frequencies, 15000, 300000}, {"final", finalMeasures, 16000, 400000}, {"unmeasured", noMeasures, 12000, 400000}, {"dynamic", dynamic, 6000, 200000}, {"steps", steps, 40000, 900000}};
  return mainImpl(su, argc, argv);
}
