// build: {"libs": ["ir", "dd"]}
// C21: the functionality built from a circuit is the product of its gates.
#include "ddx.hpp"
using namespace pbt;
using ddx::Layout;
using ref::C;
using ref::Mat;
using ref::Vec;

namespace {
constexpr double TOL = 1e-8;
spec::GenCfg cfg() { spec::GenCfg g; g.barriers = true; g.compounds = true; g.gphaseOps = true; return g; }

Mat refMatrix(const spec::Circ& c, const Layout& l) {
  Mat m(std::size_t{1} << c.nq);
  for (std::size_t k = 0; k < m.n; ++k) {
    Vec v = ddx::runLayout(c, l, spec::basis(c.nq, k));
    for (unsigned i = 0; i < c.nq; ++i) if (l.anc[i] && ((k >> i) & 1U)) spec::scale(v, 0);
    for (std::size_t r = 0; r < m.n; ++r) m(r, k) = v[r];
  }
  return m;
}
void compare(const char* what, const dd::mEdge& e, const Mat& want, const Layout& l, unsigned n, const std::string& d) {
  Mat got = ddx::toMat(e, n);
  if (std::none_of(l.garb.begin(), l.garb.end(), [](bool b) { return b; })) {
    require(ref::dist(got, want) < TOL, std::string(what) + " differs from the product of the gates by " + spec::num(ref::dist(got, want)) + ": " + d);
    return;
  }
  for (std::size_t k = 0; k < want.n; ++k) {
    Vec g(want.n), w(want.n);
    for (std::size_t r = 0; r < want.n; ++r) { g[r] = got(r, k); w[r] = want(r, k); }
    auto m = ddx::garbageMag(w, l.garb);
    require(ddx::magDist(g, m) < TOL, std::string(what) + ": column " + std::to_string(k) + " has wrong magnitudes after garbage reduction: " + d);
  }
}
void check(Src& s, Ctx& c, const spec::Circ& circ, const Layout& l) {
  auto q = spec::build(circ, s.coin());
  ddx::setLayout(q, l);
  const unsigned n = circ.nq;
  const std::string d = ddx::show(l) + " " + spec::show(circ);
  c.desc(d);
  auto want = refMatrix(circ, l);
  const int gc = s.range(0, 2);
  auto p = ddx::mkPackage(n, s.pick<std::size_t>({256, 16, 1024}));
  if (gc == 1) p->garbageCollect(true);
  auto a = dd::buildFunctionality(q, *p);
  compare("buildFunctionality", a, want, l, n, d);
  auto b = dd::buildFunctionalityRecursive(q, *p);
  compare("buildFunctionalityRecursive", b, want, l, n, d);
  // both are owned by the caller: a collection must not touch them
  p->garbageCollect(true);
  compare("buildFunctionality (after a garbage collection)", a, want, l, n, d);
  compare("buildFunctionalityRecursive (after a garbage collection)", b, want, l, n, d);
  // and in a package of its own
  auto p2 = ddx::mkPackage(n, 64);
  auto b2 = dd::buildFunctionalityRecursive(q, *p2);
  compare("buildFunctionalityRecursive (fresh package)", b2, want, l, n, d);
  c.nontrivial = circ.ops.size() >= 2;
  c.label("qubits:" + std::to_string(n));
  c.label(circ.ops.size() <= 1 ? "operations:" + std::to_string(circ.ops.size()) : circ.ops.size() < 8 ? "operations:2-7" : "operations:8+");
  if (l.initial != l.output) c.label("permuted layout");
  if (std::any_of(l.anc.begin(), l.anc.end(), [](bool x) { return x; })) c.label("ancillae");
  if (std::any_of(l.garb.begin(), l.garb.end(), [](bool x) { return x; })) c.label("garbage");
}
void small(Src& s, Ctx& c) {
  spec::Circ circ; circ.nq = static_cast<unsigned>(s.range(1, 4));
  circ.ops = spec::genOps(s, circ.nq, 0, cfg(), 18);
  if (s.chance(1, 4)) circ.gphase = spec::genAngle(s);
  auto l = ddx::genLayout(s, circ.nq, true, false);
  check(s, c, circ, l);
}
void swaps(Src& s, Ctx& c) { // many uncontrolled SWAPs: executed by relabelling
  spec::Circ circ; circ.nq = static_cast<unsigned>(s.range(2, 5));
  auto g = cfg(); g.gates = {"swap", "swap", "swap", "x", "h", "t", "p", "rx", "rzx", "dcx", "iswap"}; g.maxControls = 1;
  circ.ops = spec::genOps(s, circ.nq, 0, g, 16);
  auto l = ddx::genLayout(s, circ.nq, true, false);
  check(s, c, circ, l);
  c.label("swap-heavy");
}
void ancillaGarbage(Src& s, Ctx& c) {
  spec::Circ circ; circ.nq = static_cast<unsigned>(s.range(1, 4));
  circ.ops = spec::genOps(s, circ.nq, 0, cfg(), 10);
  if (s.chance(1, 4)) circ.gphase = spec::genAngle(s);
  auto l = ddx::genLayout(s, circ.nq, true, true);
  check(s, c, circ, l);
}
// small gate sets produce identities, Cliffords and reversible circuits with skipped levels
void structured(Src& s, Ctx& c) {
  spec::Circ circ; circ.nq = static_cast<unsigned>(s.range(2, 5));
  auto g = cfg(); g.compounds = false; g.gphaseOps = false;
  g.gates = s.coin() ? std::vector<std::string>{"x"} : s.coin() ? std::vector<std::string>{"h", "s", "sdg", "x", "z"} : std::vector<std::string>{"h", "p", "x", "swap"};
  circ.ops = spec::genOps(s, circ.nq, 0, g, 24);
  if (s.chance(1, 3)) { // followed by (part of) its mirror image
    auto k = s.below(circ.ops.size() + 1);
    auto o = circ.ops;
    for (std::size_t i = 0; i < k; ++i) {
      auto x = o[o.size() - 1 - i];
      if (x.g == "s") x.g = "sdg"; else if (x.g == "sdg") x.g = "s"; else if (x.g == "p") x.p[0] = -x.p[0];
      circ.ops.push_back(x);
    }
    c.label("mirrored");
  }
  auto l = ddx::genLayout(s, circ.nq, s.coin(), s.coin());
  check(s, c, circ, l);
}
void wide(Src& s, Ctx& c) {
  spec::Circ circ; circ.nq = static_cast<unsigned>(s.range(6, 9));
  auto g = cfg(); g.maxControls = 8;
  circ.ops = spec::genOps(s, circ.nq, 0, g, 12);
  if (s.chance(1, 4)) circ.gphase = spec::genAngle(s);
  auto l = ddx::genLayout(s, circ.nq, true, false);
  auto q = spec::build(circ, s.coin());
  ddx::setLayout(q, l);
  auto p = ddx::mkPackage(circ.nq, 1024);
  auto a = dd::buildFunctionality(q, *p);
  auto b = dd::buildFunctionalityRecursive(q, *p);
  const std::string d = ddx::show(l) + " " + spec::show(circ);
  c.desc(d);
  for (int k = 0; k < 6; ++k) {
    std::size_t col = s.below(std::size_t{1} << circ.nq);
    auto w = ddx::runLayout(circ, l, spec::basis(circ.nq, col));
    require(ref::dist(ddx::column(a, circ.nq, col), w) < TOL, "buildFunctionality: column " + std::to_string(col) + " differs: " + d);
    require(ref::dist(ddx::column(b, circ.nq, col), w) < TOL, "buildFunctionalityRecursive: column " + std::to_string(col) + " differs: " + d);
  }
  c.nontrivial = circ.ops.size() >= 2;
  c.label("wide");
}
} // namespace

int main(int argc, char** argv) {
  Suite su;
  su.property = "C21";
  su.rule = "one case = one unitary circuit with initial layout, output permutation and optionally ancillary/garbage qubits; both construction procedures are compared column by column with a dense product of independently defined gate matrices (magnitudes only where garbage is summed out), again after a forced garbage collection; non-trivial = at least two operations; distinct by printed circuit and layout";
  su.assumptions = {"absolute tolerance 1e-8", "qubits marked garbage have no output position; all others have one"};
  su.props = {{"small", small, 12000, 400000}, {"swaps", swaps, 6000, 200000}, {"ancilla-garbage", ancillaGarbage, 8000, 300000}, {"structured", structured, 6000, 200000}, {"wide", wide, 1500, 40000}};
  return mainImpl(su, argc, argv);
}
