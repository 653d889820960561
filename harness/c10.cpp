// build: {"libs":["ir","qasm3"]}
// C10: exporting a circuit to OpenQASM 2/3 and importing it again preserves it.
#include "qasmcmp.hpp"

#include "qasm3/Importer.hpp"

#include <complex>
#include <filesystem>
#include <fstream>
#include <numeric>
#include <unistd.h>
using namespace spec;
using namespace qcmp;

namespace {
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };
NullBuf nullBuf;

void quiet() { static bool done = false; if (!done) { std::cout.rdbuf(&nullBuf); std::cerr.rdbuf(&nullBuf); done = true; } }

Circ genCirc(pbt::Src& s, bool dynamic) {
  static const std::vector<std::string> names{"q", "a", "b", "reg", "foo_1", "_x", "Q", "data", "anc", "r2", "ctl", "q_0", "z9", "inq", "measured", "gates"};
  Circ c;
  c.nq = static_cast<unsigned>(s.sized(1, dynamic ? 4 : 5));
  c.nc = dynamic ? static_cast<unsigned>(s.range(0, 5)) : (s.chance(1, 4) ? static_cast<unsigned>(s.range(1, 3)) : 0);
  std::vector<unsigned> pool(names.size());
  std::iota(pool.begin(), pool.end(), 0U);
  s.shuffle(pool);
  std::size_t next = 0;
  if (s.coin() || c.nc > 0) {
    unsigned left = c.nq;
    while (left > 0) { unsigned k = static_cast<unsigned>(s.range(1, static_cast<int>(left))); c.qregs.push_back({names[pool[next++]], k, false}); left -= k; }
    left = c.nc;
    while (left > 0) { unsigned k = static_cast<unsigned>(s.range(1, static_cast<int>(left))); c.cregs.push_back({names[pool[next++]], k, false}); left -= k; }
  }
  GenCfg g;
  g.maxControls = 4;
  g.gphaseOps = true;
  g.barriers = true; g.compounds = true;
  if (dynamic) { g.measures = g.resets = g.ifs = true; g.multiMeasure = true; g.cmpKinds = true; g.compoundNonUnitary = true; g.ifCompound = true; }
  c.ops = genOps(s, c.nq, c.nc, g, 10);
  if (s.chance(1, 5)) c.gphase = genAngle(s);
  // operations on whole registers, and conditions on one of the registers
  std::function<void(std::vector<Op>&)> fix = [&](std::vector<Op>& ops) {
    for (auto& o : ops) {
      if (o.kind == Op::If && o.condReg) {
        if (!c.cregs.empty()) {
          auto k = s.below(c.cregs.size());
          o.condStart = 0;
          for (std::size_t i = 0; i < k; ++i) o.condStart += c.cregs[i].size;
          o.condSize = c.cregs[k].size;
        }
        o.val = s.below((1ULL << o.condSize) + (s.chance(1, 8) ? 1 : 0));
      }
      if (o.kind == Op::U && o.g != "gphase" && o.p.size() > 0 && s.chance(1, 6)) o.p[0] = s.pick({1e-12, 123456.789, -1e6, 3.0, -2.0, 1e-5, 0.1 + 0.2, M_PI - 1e-13, 7.25e15, -3.5e14});
      if ((o.kind == Op::Measure || o.kind == Op::Barrier || o.kind == Op::Reset) && !c.qregs.empty() && s.chance(2, 5)) {
        auto k = s.below(c.qregs.size());
        unsigned st = 0;
        for (std::size_t i = 0; i < k; ++i) st += c.qregs[i].size;
        std::vector<unsigned> ts(c.qregs[k].size);
        std::iota(ts.begin(), ts.end(), st);
        if (o.kind == Op::Measure) {
          if (c.nc < ts.size()) continue;
          std::vector<unsigned> bs(ts.size());
          std::iota(bs.begin(), bs.end(), static_cast<unsigned>(s.below(c.nc - ts.size() + 1)));
          if (s.chance(1, 3)) bs = distinctQubits(s, c.nc, static_cast<unsigned>(ts.size()));
          o.bits = bs;
        }
        if (s.chance(1, 3)) s.shuffle(ts);
        o.ts = ts;
      }
      fix(o.body);
    }
  };
  fix(c.ops);
  return c;
}
std::string perm(const qc::Permutation& p) { std::string r; for (auto& [a, b] : p) r += std::to_string(a) + ">" + std::to_string(b) + " "; return r; }

// the imported circuit against the exported one, whose qubits are renumbered by rank
void compare(pbt::Ctx& c, qc::QuantumComputation& q, qc::QuantumComputation& r, bool checkOut) {
  // rank of physical qubits
  std::map<unsigned, unsigned> rank;
  for (auto& [p, l] : q.initialLayout) { auto k = static_cast<unsigned>(rank.size()); rank[p] = k; }
  auto a = extract(q);
  auto b = extract(r);
  pbt::require(b.nq == q.getNqubits(), "number of qubits changed: " + std::to_string(b.nq) + " instead of " + std::to_string(q.getNqubits()));
  pbt::require(b.nc == a.nc, "number of classical bits changed");
  pbt::require(a.qregs.size() == b.qregs.size(), "number of quantum registers changed");
  for (std::size_t i = 0; i < a.qregs.size(); ++i) pbt::require(a.qregs[i].name == b.qregs[i].name && a.qregs[i].size == b.qregs[i].size, "quantum register " + std::to_string(i) + " came back as " + b.qregs[i].name + ":" + std::to_string(b.qregs[i].size) + " instead of " + a.qregs[i].name + ":" + std::to_string(a.qregs[i].size));
  pbt::require(a.cregs.size() == b.cregs.size(), "number of classical registers changed");
  for (std::size_t i = 0; i < a.cregs.size(); ++i) pbt::require(a.cregs[i].name == b.cregs[i].name && a.cregs[i].size == b.cregs[i].size, "classical register " + std::to_string(i) + " changed");
  std::function<void(std::vector<Op>&)> ren = [&](std::vector<Op>& ops) {
    for (auto& o : ops) { for (auto& t : o.ts) t = rank.at(t); for (auto& x : o.cs) x.q = rank.at(x.q); ren(o.body); }
  };
  ren(a.ops);
  a.nq = b.nq;
  // barriers keep their place among the barriers and their qubits
  std::vector<std::set<unsigned>> ba, bb;
  flattenBarriers(a.ops, ba); flattenBarriers(b.ops, bb);
  pbt::require(ba == bb, "barriers changed");
  // effect
  const auto init = randomState(a.nq);
  if (isUnitary(a.ops)) {
    pbt::require(isUnitary(b.ops), "a unitary circuit came back with measurements, resets or conditions");
    Vec x = init, y = init;
    for (auto& o : a.ops) applyUnitary(x, o);
    for (auto& o : b.ops) applyUnitary(y, o);
    scale(x, ref::ei(a.gphase)); scale(y, ref::ei(b.gphase));
    const double d = ref::dist(x, y);
    pbt::require(d < 1e-7, "the effect changed (distance " + num(d) + "): " + show(b));
  } else {
    auto x = runAll(a.ops, a.nq, a.nc, init);
    auto y = runAll(b.ops, b.nq, b.nc, init);
    const double d = distRho(density(x), density(y));
    pbt::require(d < 1e-7, "the effect changed (distance " + num(d) + "): " + show(b));
  }
  // layouts
  qc::Permutation il, op;
  std::map<unsigned, unsigned> lrank;
  { std::set<unsigned> ls; for (auto& [p, l] : q.initialLayout) ls.insert(l); for (auto l : ls) { auto k = static_cast<unsigned>(lrank.size()); lrank[l] = k; } }
  for (auto& [p, l] : q.initialLayout) il.emplace(rank.at(p), lrank.at(l));
  pbt::require(il == r.initialLayout, "initial layout came back as " + perm(r.initialLayout) + "instead of " + perm(il));
  if (checkOut) {
    std::set<unsigned> ls; std::map<unsigned, unsigned> orank;
    for (auto& [p, l] : q.outputPermutation) ls.insert(l);
    for (auto l : ls) { auto k = static_cast<unsigned>(orank.size()); orank[l] = k; }
    for (auto& [p, l] : q.outputPermutation) op.emplace(rank.at(p), orank.at(l));
    pbt::require(op == r.outputPermutation, "output permutation came back as " + perm(r.outputPermutation) + "instead of " + perm(op));
  }
}
void check(pbt::Src& s, pbt::Ctx& c, bool dynamic) {
  quiet();
  std::string d;
  auto desc = [&](const std::string& x) { d += x + "\n"; c.desc(d); };
  auto circ = genCirc(s, dynamic);
  const bool v3 = s.coin();
  desc((v3 ? "qasm3 " : "qasm2 ") + show(circ));
  // ancillary registers
  if (!circ.qregs.empty() && s.chance(1, 5)) circ.qregs.back().anc = circ.qregs.size() > 1;
  auto q = build(circ, s.coin());
  const bool measured = anyOp(circ.ops, [](const Op& o) { return o.kind == Op::Measure; });
  if (s.chance(1, 4)) {
    std::set<unsigned> used;
    for (auto& op : q) for (auto u : op->getUsedQubits()) used.insert(u);
    if (!used.empty() && used.size() < circ.nq) { q.stripIdleQubits(true); desc("idle qubits removed"); c.label("idle qubits removed"); }
  }
  // layouts
  if (s.chance(1, 3)) {
    const auto n = static_cast<unsigned>(q.getNqubits());
    std::vector<qc::Qubit> p(n); std::iota(p.begin(), p.end(), 0U); s.shuffle(p);
    { unsigned i = 0; for (auto& [ph, l] : q.initialLayout) l = p[i++]; }
    s.shuffle(p);
    { unsigned i = 0; for (auto& [ph, l] : q.initialLayout) q.outputPermutation[ph] = p[i++]; }
    if (!measured && s.chance(1, 3) && n > 1) {
      const unsigned k = static_cast<unsigned>(s.range(1, static_cast<int>(n) - 1));
      for (auto l : distinctQubits(s, n, k)) { q.setLogicalQubitGarbage(l); desc("garbage " + std::to_string(l)); }
      c.label("garbage");
    }
    desc("layout " + perm(q.initialLayout) + "/ " + perm(q.outputPermutation));
    c.label("layout");
  }
  std::string text;
  try { text = q.toQASM(v3); } catch (const std::exception& e) { pbt::fail(std::string("export refused: ") + e.what()); }
  desc(text);
  qc::QuantumComputation r;
  try {
    if (s.chance(1, 60)) {
      const std::string f = "/tmp/c10_" + std::to_string(getpid()) + ".qasm";
      q.dump(f, v3 ? qc::Format::OpenQASM3 : qc::Format::OpenQASM2);
      r = qasm3::Importer::importf(f);
      std::filesystem::remove(f);
      c.label("through a file");
    } else r = qasm3::Importer::imports(text);
  } catch (const std::exception& e) { pbt::fail(std::string("import refused: ") + e.what()); }
  compare(c, q, r, !measured && !q.outputPermutation.empty());
  c.nontrivial = circ.ops.size() >= 2;
  if (anyOp(circ.ops, [](const Op& o) { return std::any_of(o.cs.begin(), o.cs.end(), [](auto& x) { return !x.pos; }); })) c.label("negative controls");
  if (anyOp(circ.ops, [](const Op& o) { return o.kind == Op::If; })) c.label("conditions");
  if (measured) c.label("measurements");
}
void unitaryCircuits(pbt::Src& s, pbt::Ctx& c) { check(s, c, false); }
void dynamicCircuits(pbt::Src& s, pbt::Ctx& c) { check(s, c, true); }
} // namespace

int main(int argc, char** argv) {
  pbt::Suite su;
  su.property = "C10";
  su.rule = "a circuit with at least two operations";
  su.assumptions = {"register names are distinct identifiers that are neither keywords nor gate names", "bodies of conditions are gates", "outputs are numbered by the rank of their logical qubit (the layout comment lists outputs in order)"};
  su.props = {{"unitary", unitaryCircuits, 10000, 600000}, {"dynamic", dynamicCircuits, 10000, 600000}};
  return pbt::mainImpl(su, argc, argv);
}
