// build: {"libs": ["ir", "dd"]}
// C24: garbage collection, caching and reset never change a result.
#include "ddmachine.hpp"
using namespace pbt;
using ref::C;
using ref::Mat;
using ref::Vec;

namespace {
void requireEmpty(dd::Package& p, const std::string& what) {
  p.garbageCollect(true);
  auto str = [](std::size_t x) { return std::to_string(x); };
  require(p.vUniqueTable.getNumEntries() == 0, what + ": " + str(p.vUniqueTable.getNumEntries()) + " vector nodes stay alive without a reference");
  require(p.mUniqueTable.getNumEntries() == 0, what + ": " + str(p.mUniqueTable.getNumEntries()) + " matrix nodes stay alive without a reference");
  require(p.dUniqueTable.getNumEntries() == 0, what + ": " + str(p.dUniqueTable.getNumEntries()) + " density nodes stay alive without a reference");
  require(p.cUniqueTable.getStats().numEntries <= 1, what + ": " + str(p.cUniqueTable.getStats().numEntries) + " numbers stay alive without a reference");
}
std::unique_ptr<dd::Package> genPackage(Src& s, std::size_t n, std::string& d) {
  auto cfg = ddx::smallConfig(s.pick<std::size_t>({64, 2, 1, 512}));
  if (s.chance(1, 6)) cfg.ctVecConjNumBucket = cfg.ctMatConjTransNumBucket = cfg.ctMatTraceNumBucket = 65536;
  if (s.chance(1, 3)) { cfg.utVecInitialAllocationSize = s.pick<std::size_t>({1, 2, 8}); cfg.utMatInitialAllocationSize = s.pick<std::size_t>({1, 3, 8}); }
  d = "buckets " + std::to_string(cfg.ctVecAddNumBucket) + " conj " + std::to_string(cfg.ctVecConjNumBucket) + " alloc " + std::to_string(cfg.utVecInitialAllocationSize);
  return std::make_unique<dd::Package>(n, cfg);
}
// a long history over one pool in one package
void history(Src& s, Ctx& c) {
  ddx::Machine m(s, c, 5, 64);
  std::string d;
  m.p = genPackage(s, 5, d);
  m.gc = true;
  m.log = d + ": ";
  int n = s.sized(4, 120), collections = 0;
  for (int i = 0; i < n; ++i) {
    switch (s.below(24)) {
    case 0: case 1: case 2: case 3: m.managed(); break;
    case 4: case 5: m.collect(true); ++collections; break;
    case 6: m.collect(false); break;
    case 7: case 8: case 9: m.release(); break;
    case 10: case 11: m.reduce(); break;
    case 12: if (s.chance(1, 3)) { m.note("clear caches"); m.p->clearComputeTables(); m.checkAll("after clearing the compute tables"); c.label("cleared caches"); } break;
    case 13:
      if (s.chance(1, 4)) { m.note("reset"); m.p->reset(); m.vs.clear(); m.ms.clear(); c.label("package resets"); }
      else if (s.chance(1, 4)) { m.note("resize"); m.p->resize(m.p->qubits() + 1); m.checkAll("after enlarging the package"); c.label("package resizes"); }
      break;
    default: m.arithmetic();
    }
  }
  m.checkAll("at the end of the history");
  for (auto& x : m.vs) for (int i = 0; i < x.refs; ++i) m.p->decRef(x.e);
  for (auto& x : m.ms) for (int i = 0; i < x.refs; ++i) m.p->decRef(x.e);
  requireEmpty(*m.p, "after releasing everything [history: " + m.log + "]");
  c.desc(m.log);
  c.nontrivial = collections > 0 && m.steps >= 4;
}
// the same operation over and over on operands whose memory is recycled by a collection in between
void churn(Src& s, Ctx& c) {
  ddx::Machine m(s, c, 4, 64);
  std::string d;
  m.p = genPackage(s, 6, d);
  m.gc = true;
  m.log = d + ": ";
  const auto which = s.below(18);
  const int rounds = s.sized(3, 16);
  for (int i = 0; i < rounds; ++i) {
    for (int k = 0; k < 2; ++k) { m.newVector(); m.newMatrix(); }
    for (auto& x : m.vs) if (x.refs == 0) { m.p->incRef(x.e); x.refs = 1; }
    for (auto& x : m.ms) if (x.refs == 0) { m.p->incRef(x.e); x.refs = 1; }
    for (int k = 0; k < 2; ++k) { if (which < 3) m.reduce(static_cast<int>(which)); else if (which < 6) m.managed(static_cast<int>(which) - 3); else m.arithmetic(static_cast<int>(which) - 2); }
    for (auto& x : m.vs) for (int r = 0; r < x.refs; ++r) m.p->decRef(x.e);
    for (auto& x : m.ms) for (int r = 0; r < x.refs; ++r) m.p->decRef(x.e);
    m.vs.clear(); m.ms.clear();
    m.note("drop all, gc!");
    m.p->garbageCollect(true);
  }
  requireEmpty(*m.p, "after releasing everything [history: " + m.log + "]");
  c.desc(m.log);
  c.label("churn");
  c.nontrivial = true;
}
// the functions that hand references over keep exactly one
void handover(Src& s, Ctx& c) {
  std::string d;
  unsigned n = static_cast<unsigned>(s.range(1, 5));
  auto p = genPackage(s, n, d);
  spec::GenCfg g; g.barriers = true; g.compounds = true; g.gphaseOps = true;
  int rounds = s.range(1, 4);
  for (int r = 0; r < rounds; ++r) {
    spec::Circ circ; circ.nq = n;
    bool perms = true, ag = false;
    switch (s.below(6)) {
    case 0: { // simulation
      circ.ops = spec::genOps(s, n, 0, g, 20); if (s.chance(1, 3)) circ.gphase = spec::genAngle(s);
      auto l = ddx::genLayout(s, n, perms, s.coin());
      auto q = spec::build(circ); ddx::setLayout(q, l);
      d += "; simulate " + ddx::show(l) + " " + spec::show(circ);
      auto in = ddx::genVec(s, n);
      auto e = p->makeStateFromVector(ddx::toCVec(in));
      auto want = ddx::runLayout(circ, l, in);
      auto o = dd::simulate(q, e, *p);
      p->garbageCollect(true);
      if (std::none_of(l.garb.begin(), l.garb.end(), [](bool b) { return b; })) require(ref::dist(ddx::toVec(o, n), want) < 1e-8, "simulation result changed by a collection: " + d);
      p->decRef(o); c.label("simulate"); break;
    }
    case 1: { // functionality
      auto cfg = g; cfg.maxControls = 3;
      circ.ops = spec::genOps(s, n, 0, cfg, 12); if (s.chance(1, 3)) circ.gphase = spec::genAngle(s);
      bool rec = s.coin(); ag = s.chance(1, 3);
      auto l = ddx::genLayout(s, n, perms, ag);
      auto q = spec::build(circ); ddx::setLayout(q, l);
      d += std::string("; functionality ") + (rec ? "rec " : "") + ddx::show(l) + " " + spec::show(circ);
      auto o = rec ? dd::buildFunctionalityRecursive(q, *p) : dd::buildFunctionality(q, *p);
      auto before = ddx::toMat(o, n);
      p->garbageCollect(true);
      require(ref::dist(ddx::toMat(o, n), before) == 0, "functionality changed by a collection: " + d);
      p->decRef(o); c.label(rec ? "functionality (recursive)" : "functionality"); break;
    }
    case 2: { // single steps with measurements and resets
      unsigned nc = static_cast<unsigned>(s.range(1, 3));
      auto cfg = g; cfg.measures = cfg.resets = cfg.ifs = true;
      auto ops = spec::genOps(s, n, nc, cfg, 16);
      d += "; steps " + spec::show(ops);
      std::mt19937_64 rng(s.below(1U << 20));
      std::vector<bool> bits(nc);
      auto e = p->makeZeroState(n);
      for (auto& so : ops) {
        auto op = spec::makeOp(so);
        if (so.kind == spec::Op::If) e = dd::applyClassicControlledOperation(dynamic_cast<const qc::ClassicControlledOperation&>(*op), e, *p, bits);
        else if (so.kind == spec::Op::Measure) e = dd::applyMeasurement(dynamic_cast<const qc::NonUnitaryOperation&>(*op), e, *p, rng, bits);
        else if (so.kind == spec::Op::Reset) e = dd::applyReset(dynamic_cast<const qc::NonUnitaryOperation&>(*op), e, *p, rng);
        else e = dd::applyUnitaryOperation(*op, e, *p);
      }
      p->garbageCollect(true);
      require(std::abs(ref::norm(ddx::toVec(e, n)) - 1) < 1e-8, "state after a collection is not normalised: " + d);
      p->decRef(e); c.label("steps"); break;
    }
    case 3: { // measuring everything
      auto v = ddx::genVec(s, n);
      bool collapse = s.coin();
      d += "; measure all of " + ddx::show(v);
      std::mt19937_64 rng(s.below(1U << 20));
      auto e = p->makeStateFromVector(ddx::toCVec(v));
      auto r = p->measureAll(e, collapse, rng);
      p->garbageCollect(true);
      if (collapse) { Vec w(v.size()); w[std::stoul(r, nullptr, 2)] = 1; require(ref::dist(ddx::toVec(e, n), w) < 1e-9, "collapsed state is wrong: " + d); }
      else require(ref::dist(ddx::toVec(e, n), v) < 1e-9, "measuring without collapse changed the state: " + d);
      p->decRef(e); c.label("measure all"); break;
    }
    case 4: { // sampling of circuits with final measurements
      circ.ops = spec::genOps(s, n, 0, g, 10); circ.nc = n;
      d += "; sample " + spec::show(circ);
      auto q = spec::build(circ);
      for (unsigned i = 0; i < n; ++i) q.measure(i, i);
      auto e = p->makeZeroState(n);
      auto r = dd::sample(q, e, *p, 20, 1 + s.below(1000));
      std::size_t total = 0; for (auto& [k, x] : r) total += x;
      require(total == 20, "wrong number of shots: " + d);
      c.label("sample"); break;
    }
    default: { // constructors
      d += "; constructors";
      auto e = p->makeGHZState(n); auto f = p->makeWState(n); auto h = p->makeZeroState(n);
      std::vector<dd::BasisStates> bs; for (unsigned i = 0; i < n; ++i) bs.push_back(s.pick<dd::BasisStates>({dd::BasisStates::zero, dd::BasisStates::one, dd::BasisStates::plus, dd::BasisStates::minus, dd::BasisStates::right, dd::BasisStates::left}));
      auto b = p->makeBasisState(n, bs);
      p->garbageCollect(true);
      Vec w(std::size_t{1} << n); if (n > 0) for (unsigned i = 0; i < n; ++i) w[std::size_t{1} << i] = 1.0 / std::sqrt(static_cast<double>(n));
      require(ref::dist(ddx::toVec(f, n), w) < 1e-9, "W state changed by a collection");
      require(std::abs(ref::norm(ddx::toVec(b, n)) - 1) < 1e-9, "basis state changed by a collection");
      p->decRef(e); p->decRef(f); p->decRef(h); p->decRef(b); c.label("constructors");
    }
    }
    if (s.chance(1, 3)) requireEmpty(*p, "after " + d);
    else if (s.coin()) p->garbageCollect(s.coin());
  }
  requireEmpty(*p, "at the end of " + d);
  c.desc(d);
  c.nontrivial = rounds >= 1;
}
// enough pressure that collections start on their own
void pressure(Src& s, Ctx& c) {
  const unsigned n = static_cast<unsigned>(s.range(9, 11));
  auto p = std::make_unique<dd::Package>(n, ddx::smallConfig(1024));
  Vec v(std::size_t{1} << n); v[0] = 1;
  auto e = p->makeZeroState(n);
  // bystanders that must survive
  auto g = p->makeGHZState(n);
  spec::GenCfg cfg; cfg.maxControls = 2;
  std::string d;
  auto side = spec::genOps(s, n, 0, cfg, 5);
  auto sm = p->makeStateFromVector(ddx::toCVec(ddx::genVec(s, 4)));
  auto smv = ddx::toVec(sm, 4);
  std::mt19937_64 rng(s.below(1U << 30));
  std::uniform_real_distribution<double> ang(-3, 3);
  const int steps = s.range(60, 140);
  int collections = 0;
  for (int i = 0; i < steps; ++i) {
    spec::Op o; o.kind = spec::Op::U;
    unsigned a = static_cast<unsigned>(rng() % n), b = (a + 1 + static_cast<unsigned>(rng() % (n - 1))) % n;
    if (i % 3 == 2) { o.g = "rxx"; o.ts = {a, b}; o.p = {ang(rng)}; } else { o.g = "u"; o.ts = {a}; o.p = {ang(rng), ang(rng), ang(rng)}; if (rng() % 2 != 0) o.cs = {{b, true}}; }
    auto runs = p->cUniqueTable.getStats().gcRuns + p->vUniqueTable.getStats(0).gcRuns;
    e = dd::applyUnitaryOperation(*spec::makeOp(o), e, *p);
    spec::applyUnitary(v, o);
    if (p->cUniqueTable.getStats().gcRuns + p->vUniqueTable.getStats(0).gcRuns != runs) {
      ++collections;
      require(ref::dist(ddx::toVec(e, n), v) < 1e-7, "state differs after an automatic collection in step " + std::to_string(i));
    }
  }
  (void)side;
  require(ref::dist(ddx::toVec(e, n), v) < 1e-7, "state differs at the end");
  require(ref::dist(ddx::toVec(sm, 4), smv) < 1e-12, "a referenced state changed");
  Vec gh(std::size_t{1} << n); gh[0] = gh[gh.size() - 1] = M_SQRT1_2;
  require(ref::dist(ddx::toVec(g, n), gh) < 1e-12, "a referenced GHZ state changed");
  p->decRef(e); p->decRef(g); p->decRef(sm);
  requireEmpty(*p, "after the run");
  c.desc(std::to_string(n) + " qubits, " + std::to_string(steps) + " steps, seed " + std::to_string(rng()));
  for (int i = 0; i < collections; ++i) c.label("automatic collections");
  c.nontrivial = collections > 0;
}
} // namespace

int main(int argc, char** argv) {
  Suite su;
  su.property = "C24";
  su.rule = "one case = one history in one package (operations, references, collections, cache clears, resets) checked against dense shadows after every step, or a sequence of library calls that hand references over, or a run that triggers automatic collections; after releasing everything and a forced collection no node or number may remain; non-trivial = at least one collection; distinct by printed history";
  su.assumptions = {"absolute tolerance 1e-8 relative to the largest entry", "items without a reference are forgotten whenever a collection may have run"};
  su.props = {{"history", history, 40000, 1500000}, {"churn", churn, 60000, 1000000}, {"handover", handover, 30000, 600000}, {"pressure", pressure, 64, 1000}};
  return mainImpl(su, argc, argv);
}
