// build: {"libs": ["ir", "dd"]}
// C28: ancillary and garbage reduction act exactly on the declared qubits.
#include "ddx.hpp"
using namespace pbt;
using ref::C;
using ref::Mat;
using ref::Vec;

namespace {
std::vector<bool> genSet(Src& s, std::size_t n) {
  std::vector<bool> r(n);
  const auto k = s.below(4);
  for (std::size_t i = 0; i < n; ++i) r[i] = k == 0 ? s.chance(1, 6) : k == 1 ? s.chance(5, 6) : s.coin();
  return r;
}
std::size_t mask(const std::vector<bool>& v) { std::size_t m = 0; for (std::size_t i = 0; i < v.size(); ++i) if (v[i]) m |= std::size_t{1} << i; return m; }
std::string bits(const std::vector<bool>& v) { std::string r; for (bool b : v) r += b ? '1' : '0'; return r; }
// a matrix with skipped levels, products of gates or arbitrary entries, on k <= n qubits (identity on the rest)
struct M { dd::mEdge e; Mat m; std::string d; };
M genM(Src& s, dd::Package& p, std::size_t n) {
  M r;
  if (s.chance(2, 5)) {
    spec::GenCfg g; g.maxControls = 2;
    auto ops = spec::genOps(s, static_cast<unsigned>(n), 0, g, 6);
    r.e = dd::Package::makeIdent();
    for (auto& o : ops) r.e = p.multiply(dd::getDD(*spec::makeOp(o), p), r.e);
    if (s.coin()) { C f{s.unit(), s.unit()}; r.e.w = p.cn.lookup(dd::ComplexValue{f.real(), f.imag()}); }
    r.d = spec::show(ops);
  } else {
    const auto k = static_cast<std::size_t>(s.range(0, static_cast<int>(std::min<std::size_t>(n, 4))));
    Mat m = ddx::genMat(s, k);
    r.e = p.makeDDFromMatrix(ddx::toCMat(m));
    // spread over the register: skipped levels below and in between
    if (k < n && s.coin()) { const auto b = static_cast<std::size_t>(s.range(1, static_cast<int>(n - k))); r.e = p.kronecker(r.e, dd::Package::makeIdent(), b); r.d = " (x) I" + std::to_string(b); }
    r.d = ref::show(m.a) + r.d;
  }
  r.m = ddx::toMat(r.e, n);
  return r;
}
void noLeak(dd::Package& p, const char* what) {
  p.garbageCollect(true);
  const auto v = p.vUniqueTable.getNumEntries(), m = p.mUniqueTable.getNumEntries();
  require(v == 0 && m == 0, std::string(what) + " keeps " + std::to_string(v + m) + " nodes alive after its result was released");
}
void ancillae(Src& s, Ctx& c) {
  const auto n = static_cast<std::size_t>(s.range(1, 6));
  auto p = ddx::mkPackage(n, s.pick<std::size_t>({256, 4}));
  auto x = genM(s, *p, n);
  const auto anc = genSet(s, n);
  const bool regular = s.coin();
  p->incRef(x.e);
  const std::string d = std::to_string(n) + "q ancillary " + bits(anc) + (regular ? "" : " inverse") + ": " + x.d;
  c.desc(d);
  auto r = p->reduceAncillae(x.e, anc, regular);
  const auto mk = mask(anc);
  Mat w = x.m;
  for (std::size_t i = 0; i < w.n; ++i) for (std::size_t j = 0; j < w.n; ++j) if ((regular ? j : i) & mk) w(i, j) = 0;
  if (s.coin()) p->garbageCollect(true);
  auto g = ddx::toMat(r, n);
  require(ref::dist(g, w) < 1e-8, "reduceAncillae gives " + ref::show(g.a) + " instead of " + ref::show(w.a) + " for " + d);
  p->decRef(r);
  noLeak(*p, "reduceAncillae");
  c.nontrivial = mk != 0 && x.e.p != nullptr;
  if (x.e.isTerminal()) c.label("terminal");
}
void garbageM(Src& s, Ctx& c) {
  const auto n = static_cast<std::size_t>(s.range(1, 5));
  auto p = ddx::mkPackage(n, s.pick<std::size_t>({256, 4}));
  auto x = genM(s, *p, n);
  const auto garb = genSet(s, n);
  const bool regular = s.coin(), norm = s.chance(1, 3);
  p->incRef(x.e);
  const std::string d = std::to_string(n) + "q garbage " + bits(garb) + (regular ? "" : " inverse") + (norm ? " magnitudes" : "") + ": " + x.d;
  c.desc(d);
  auto r = p->reduceGarbage(x.e, garb, regular, norm);
  const auto mk = mask(garb);
  Mat w(x.m.n);
  for (std::size_t i = 0; i < w.n; ++i) for (std::size_t j = 0; j < w.n; ++j) { auto& t = regular ? w(i & ~mk, j) : w(i, j & ~mk); t += std::norm(x.m(i, j)); }
  for (auto& t : w.a) t = std::sqrt(t.real());
  auto g = ddx::toMat(r, n);
  Mat h = g;
  if (!norm) for (auto& t : h.a) t = std::abs(t);
  require(ref::dist(h, w) < 1e-7, "reduceGarbage gives " + ref::show(g.a) + " instead of " + ref::show(w.a) + " for " + d);
  if (mk == 0 && !norm) require(ref::dist(g, x.m) < 1e-8, "reduceGarbage without garbage changes the matrix: " + d);
  p->decRef(r);
  noLeak(*p, "reduceGarbage");
  c.nontrivial = mk != 0 || norm;
  if (x.e.isTerminal()) c.label("terminal");
}
void garbageV(Src& s, Ctx& c) {
  const auto n = static_cast<std::size_t>(s.range(1, 7));
  auto p = ddx::mkPackage(n, s.pick<std::size_t>({256, 4}));
  Vec v = ddx::genVec(s, n);
  const auto garb = genSet(s, n);
  const bool norm = s.chance(1, 3), zero = s.chance(1, 25);
  auto e = zero ? dd::vEdge::zero() : p->makeStateFromVector(ddx::toCVec(v));
  if (zero) std::fill(v.begin(), v.end(), C{});
  const std::string d = std::to_string(n) + "q garbage " + bits(garb) + (norm ? " magnitudes" : "") + ": " + ref::show(v);
  c.desc(d);
  auto r = p->reduceGarbage(e, garb, norm);
  const auto w = ddx::garbageMag(v, garb);
  auto g = zero && r.isZeroTerminal() ? v : ddx::toVec(r, n);
  require(ddx::magDist(g, w) < 1e-7, "reduceGarbage gives " + ref::show(g) + " for " + d);
  if (norm) for (auto& t : g) require(std::abs(t - std::abs(t)) < 1e-7, "reduceGarbage with magnitudes leaves the entry " + spec::num(t.real()) + "," + spec::num(t.imag()) + " for " + d);
  if (mask(garb) == 0 && !norm) require(ref::dist(g, v) < 1e-8, "reduceGarbage without garbage changes the state: " + d);
  p->decRef(r);
  noLeak(*p, "reduceGarbage");
  c.nontrivial = mask(garb) != 0 || norm;
}
// several reductions of related diagrams in one package: results must not depend on what was cached before
void history(Src& s, Ctx& c) {
  const auto n = static_cast<std::size_t>(s.range(2, 5));
  auto p = ddx::mkPackage(n, s.pick<std::size_t>({256, 4}));
  std::vector<std::pair<dd::vEdge, Vec>> vs;
  std::vector<M> ms;
  std::string d = std::to_string(n) + "q:";
  const int k = s.range(2, 10);
  for (int i = 0; i < k; ++i) {
    const auto set = genSet(s, n);
    const auto mk = mask(set);
    const auto what = s.below(3);
    if (what == 0) {
      if (vs.empty() || s.coin()) { Vec v = ddx::genVec(s, n); auto e = p->makeStateFromVector(ddx::toCVec(v)); vs.emplace_back(e, v); d += " v=" + ref::show(v); }
      auto& [e, v] = vs[s.below(vs.size())];
      p->incRef(e);
      const bool norm = s.chance(1, 4);
      d += " garbage(v," + bits(set) + (norm ? ",mag)" : ")");
      auto r = p->reduceGarbage(e, set, norm);
      require(ddx::magDist(ddx::toVec(r, n), ddx::garbageMag(v, set)) < 1e-7, "wrong reduced state after" + d);
      p->decRef(r);
    } else {
      if (ms.empty() || s.coin()) { auto x = genM(s, *p, n); p->incRef(x.e); d += " m=" + x.d; ms.push_back(x); }
      auto& x = ms[s.below(ms.size())];
      p->incRef(x.e);
      const bool regular = s.coin();
      Mat w(x.m.n);
      if (what == 1) {
        const bool norm = s.chance(1, 4);
        d += " garbage(m," + bits(set) + (regular ? "" : ",inverse") + (norm ? ",mag)" : ")");
        auto r = p->reduceGarbage(x.e, set, regular, norm);
        for (std::size_t a = 0; a < w.n; ++a) for (std::size_t b = 0; b < w.n; ++b) { auto& t = regular ? w(a & ~mk, b) : w(a, b & ~mk); t += std::norm(x.m(a, b)); }
        for (auto& t : w.a) t = std::sqrt(t.real());
        auto g = ddx::toMat(r, n);
        for (auto& t : g.a) t = std::abs(t);
        require(ref::dist(g, w) < 1e-7, "wrong garbage-reduced matrix after" + d);
        p->decRef(r);
      } else {
        d += " ancillae(m," + bits(set) + (regular ? ")" : ",inverse)");
        auto r = p->reduceAncillae(x.e, set, regular);
        w = x.m;
        for (std::size_t a = 0; a < w.n; ++a) for (std::size_t b = 0; b < w.n; ++b) if ((regular ? b : a) & mk) w(a, b) = 0;
        require(ref::dist(ddx::toMat(r, n), w) < 1e-8, "wrong ancilla-reduced matrix after" + d);
        p->decRef(r);
      }
    }
    if (s.chance(1, 4)) { p->garbageCollect(s.coin()); d += " gc"; }
    for (auto& x : ms) require(ref::dist(ddx::toMat(x.e, n), x.m) < 1e-8, "a reduction changed its operand:" + d);
  }
  c.desc(d);
  for (auto& x : ms) p->decRef(x.e);
  for (auto& [e, v] : vs) p->decRef(e);
  noLeak(*p, "a sequence of reductions");
  c.nontrivial = true;
}
void initial(Src& s, Ctx& c) {
  const auto n = static_cast<std::size_t>(s.range(1, 8));
  auto p = ddx::mkPackage(n);
  const auto anc = genSet(s, n);
  c.desc(bits(anc));
  auto e = p->createInitialMatrix(anc);
  const auto g = ddx::toMat(e, n);
  for (std::size_t i = 0; i < g.n; ++i) for (std::size_t j = 0; j < g.n; ++j)
    require(std::abs(g(i, j) - C(i == j && !(i & mask(anc)) ? 1 : 0)) < 1e-12, "createInitialMatrix has a wrong entry for ancillaries " + bits(anc));
  c.nontrivial = mask(anc) != 0;
}
} // namespace

int main(int argc, char** argv) {
  Suite su;
  su.property = "C28";
  su.rule = "one case = one matrix or state (gate products, arbitrary structured entries, identities, zero, skipped levels above, between and below) with one set of ancillary or garbage qubits, or a history of such reductions in one package; entries compared with the definition, references checked after release; non-trivial = at least one declared qubit";
  su.assumptions = {"without normalizeWeights only the magnitudes of garbage-reduced entries are specified", "ancillary columns (regular) or rows (inverse) are zeroed", "the reduction consumes the reference of its operand"};
  su.props = {{"ancillae", ancillae, 200000, 4000000}, {"garbage-matrix", garbageM, 200000, 4000000}, {"garbage-state", garbageV, 150000, 3000000}, {"history", history, 60000, 1200000}, {"initial", initial, 1000, 10000}};
  return mainImpl(su, argc, argv);
}
