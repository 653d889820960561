// build: {"libs": ["ir", "dd"]}
// C22: simulating a circuit yields the exact output state.
#include "ddx.hpp"
using namespace pbt;
using ddx::Layout;
using ref::C;
using ref::Vec;

namespace {
constexpr double TOL = 1e-8;
spec::GenCfg cfg() { spec::GenCfg g; g.barriers = true; g.compounds = true; g.gphaseOps = true; return g; }

void compare(const char* what, const Vec& got, const Vec& want, const Layout& l, const std::string& d) {
  if (std::none_of(l.garb.begin(), l.garb.end(), [](bool b) { return b; }))
    require(ref::dist(got, want) < TOL, std::string(what) + " differs by " + spec::num(ref::dist(got, want)) + ": " + d);
  else
    require(ddx::magDist(got, ddx::garbageMag(want, l.garb)) < TOL, std::string(what) + " has wrong magnitudes after garbage reduction: " + d);
}
// an input state made in one of several ways; the caller keeps one reference
dd::vEdge genInput(Src& s, dd::Package& p, unsigned n, Vec& v, std::string& d) {
  v.assign(std::size_t{1} << n, C{});
  switch (s.below(5)) {
  case 0: v[0] = 1; d = "|0>"; return p.makeZeroState(n);
  case 1: { std::vector<bool> b(n); std::size_t x = 0; for (unsigned i = 0; i < n; ++i) { b[i] = s.coin(); if (b[i]) x |= std::size_t{1} << i; } v[x] = 1; d = "|" + std::to_string(x) + ">"; return p.makeBasisState(n, b); }
  case 2: v[0] = M_SQRT1_2; v[v.size() - 1] = M_SQRT1_2; d = "GHZ"; return p.makeGHZState(n);
  default: v = ddx::genVec(s, n); d = ddx::show(v); return p.makeStateFromVector(ddx::toCVec(v));
  }
}
void run(Src& s, Ctx& c, const spec::Circ& circ, const Layout& l) {
  auto q = spec::build(circ, s.coin());
  ddx::setLayout(q, l);
  const unsigned n = circ.nq;
  auto p = ddx::mkPackage(n + static_cast<unsigned>(s.below(2)), s.pick<std::size_t>({256, 16, 2048}));
  Vec in; std::string ds;
  auto e = genInput(s, *p, n, in, ds);
  const std::string d = ddx::show(l) + " " + spec::show(circ) + " on " + ds;
  c.desc(d);
  auto want = ddx::runLayout(circ, l, in);
  auto r = dd::simulate(q, e, *p);
  compare("simulate", ddx::toVec(r, n), want, l, d);
  if (n <= 6) { auto lib = r.getVector(); Vec g(lib.begin(), lib.end()); compare("getVector of simulate", g, want, l, d); }
  p->garbageCollect(true);
  compare("simulate (after a garbage collection)", ddx::toVec(r, n), want, l, d);
  // a second run in the same package reuses all the caches
  Vec in2; std::string ds2;
  auto e2 = genInput(s, *p, n, in2, ds2);
  auto r2 = dd::simulate(q, e2, *p);
  compare("second simulation in the same package", ddx::toVec(r2, n), ddx::runLayout(circ, l, in2), l, d + " then on " + ds2);
  compare("first result after a second simulation", ddx::toVec(r, n), want, l, d);
  c.nontrivial = circ.ops.size() >= 2;
  c.label("qubits:" + std::to_string(n));
  if (l.initial != l.output) c.label("permuted layout");
  if (std::any_of(l.garb.begin(), l.garb.end(), [](bool x) { return x; })) c.label("garbage");
  c.label("input:" + std::string(ds[0] == '|' ? "basis" : ds[0] == 'G' ? "GHZ" : "arbitrary"));
}
void small(Src& s, Ctx& c) {
  spec::Circ circ; circ.nq = static_cast<unsigned>(s.range(1, 6));
  circ.ops = spec::genOps(s, circ.nq, 0, cfg(), 30);
  if (s.chance(1, 4)) circ.gphase = spec::genAngle(s);
  run(s, c, circ, ddx::genLayout(s, circ.nq, true, s.chance(1, 3)));
}
void swaps(Src& s, Ctx& c) {
  spec::Circ circ; circ.nq = static_cast<unsigned>(s.range(2, 6));
  auto g = cfg(); g.gates = {"swap", "swap", "swap", "x", "h", "t", "p", "rx", "ryy", "dcx", "iswapdg"}; g.maxControls = 2;
  circ.ops = spec::genOps(s, circ.nq, 0, g, 24);
  run(s, c, circ, ddx::genLayout(s, circ.nq, true, s.chance(1, 4)));
  c.label("swap-heavy");
}
void wide(Src& s, Ctx& c) {
  spec::Circ circ; circ.nq = static_cast<unsigned>(s.range(7, 12));
  auto g = cfg(); g.maxControls = 10;
  if (s.coin()) g.gates = {"h", "s", "x", "z", "swap", "y", "sdg"};
  circ.ops = spec::genOps(s, circ.nq, 0, g, 50);
  run(s, c, circ, ddx::genLayout(s, circ.nq, true, s.chance(1, 4)));
  c.label("wide");
}
// deep circuits of the same few gates on few qubits: numerical drift and node reuse
void deep(Src& s, Ctx& c) {
  spec::Circ circ; circ.nq = static_cast<unsigned>(s.range(2, 4));
  auto g = cfg(); g.compounds = false;
  circ.ops = spec::genOps(s, circ.nq, 0, g, 400);
  run(s, c, circ, ddx::genLayout(s, circ.nq, false, false));
  c.label("deep");
}
// op-by-op stepping through the public primitives agrees with the reference, including classical control
void stepping(Src& s, Ctx& c) {
  unsigned n = static_cast<unsigned>(s.range(1, 5)), nc = static_cast<unsigned>(s.range(1, 4));
  auto g = cfg(); g.ifs = true; g.cmpKinds = true; g.ifCompound = true;
  auto ops = spec::genOps(s, n, nc, g, 12);
  std::vector<bool> bits(nc);
  for (unsigned i = 0; i < nc; ++i) bits[i] = s.coin();
  auto l = ddx::genLayout(s, n, true, false);
  qc::Permutation perm;
  bool ident = true;
  for (unsigned i = 0; i < n; ++i) { perm[i] = l.initial[i]; ident &= l.initial[i] == i; }
  auto p = ddx::mkPackage(n);
  Vec v; std::string ds;
  auto e = genInput(s, *p, n, v, ds);
  const std::string d = std::to_string(n) + "q bits " + [&] { std::string r; for (bool b : bits) r += b ? '1' : '0'; return r; }() + " " + ddx::show(l) + ": " + spec::show(ops) + " on " + ds;
  c.desc(d);
  v = ddx::permuteVec(v, ddx::inverse(l.initial));
  for (auto& o : ops) {
    auto op = spec::makeOp(o);
    if (o.kind == spec::Op::If) {
      uint64_t val = 0;
      if (o.condReg) { for (unsigned i = 0; i < o.condSize; ++i) val |= static_cast<uint64_t>(bits[o.condStart + i]) << i; } else val = bits[o.condStart];
      if (spec::holds(o.cmp, val, o.val)) { spec::applyUnitary(v, o.body[0]); c.label("branch taken"); } else c.label("branch not taken");
      e = dd::applyClassicControlledOperation(dynamic_cast<const qc::ClassicControlledOperation&>(*op), e, *p, bits, perm);
    } else {
      spec::applyUnitary(v, o);
      e = dd::applyUnitaryOperation(*op, e, *p, perm);
    }
    require(ref::dist(ddx::toVec(e, n), ddx::permuteVec(v, l.initial)) < TOL, "state differs after applying " + spec::show(o) + " in " + d);
  }
  c.nontrivial = ops.size() >= 2;
}
} // namespace

int main(int argc, char** argv) {
  Suite su;
  su.property = "C22";
  su.rule = "one case = one circuit with layouts, global phase and one or two input states (basis, GHZ, arbitrary vectors); simulate() and single-step application are compared with a dense state-vector reference, before and after a forced garbage collection and on a warm package; non-trivial = at least two operations; distinct by printed circuit, layout and input";
  su.assumptions = {"absolute tolerance 1e-8", "magnitudes only where garbage qubits are summed out"};
  su.props = {{"small", small, 12000, 400000}, {"swaps", swaps, 6000, 200000}, {"wide", wide, 1200, 30000}, {"deep", deep, 1200, 30000}, {"stepping", stepping, 8000, 300000}};
  return mainImpl(su, argc, argv);
}
