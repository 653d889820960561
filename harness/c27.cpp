// build: {"libs": ["ir", "dd"], "config": "asan"}
// C27: saved and transferred decision diagrams come back unchanged.
#include "ddx.hpp"

#include "dd/Export.hpp"
using namespace pbt;
using ref::C;
using ref::Mat;
using ref::Vec;

namespace {
constexpr double TOL = 1e-9;
template <class E> constexpr bool isVec = std::is_same_v<E, dd::vEdge>;

spec::GenCfg cfg() { spec::GenCfg g; g.compounds = true; return g; }
// a state: from amplitudes, from a circuit, or a scalar multiple of one
dd::vEdge genState(Src& s, dd::Package& p, unsigned n, std::string& d) {
  dd::vEdge e;
  switch (s.below(4)) {
  case 0: { auto v = ddx::genVec(s, n); d = ddx::show(v); e = p.makeStateFromVector(ddx::toCVec(v)); break; }
  case 1: { auto v = ddx::genVec(s, n, false); d = ddx::show(v); e = p.makeStateFromVector(ddx::toCVec(v)); break; }
  default: {
    spec::Circ c; c.nq = n; c.ops = spec::genOps(s, n, 0, cfg(), 25); c.gphase = s.coin() ? 0 : spec::genAngle(s);
    d = spec::show(c); e = dd::simulate(spec::build(c), p.makeZeroState(n), p); break; }
  }
  return e;
}
dd::mEdge genOperator(Src& s, dd::Package& p, unsigned n, std::string& d) {
  switch (s.below(5)) {
  case 0: { auto m = ddx::genMat(s, n); d = ref::show(m.a); return p.makeDDFromMatrix(ddx::toCMat(m)); }
  case 1: { C f = ddx::genAmp(s); d = "scalar " + spec::num(f.real()) + "," + spec::num(f.imag()); auto e = dd::Package::makeIdent(); e.w = p.cn.lookup(f.real(), f.imag()); return e; }
  case 2: { auto o = spec::genGate(s, n, cfg()); d = spec::show(o); return dd::getDD(*spec::makeOp(o), p); }
  default: {
    spec::Circ c; c.nq = n; c.ops = spec::genOps(s, n, 0, cfg(), 14); c.gphase = s.coin() ? 0 : spec::genAngle(s);
    d = spec::show(c); return dd::buildFunctionality(spec::build(c), p); }
  }
}
template <class E> E gen(Src& s, dd::Package& p, unsigned n, std::string& d) { if constexpr (isVec<E>) return genState(s, p, n, d); else return genOperator(s, p, n, d); }
template <class E> std::vector<C> dense(const E& e, unsigned n) { if constexpr (isVec<E>) return ddx::toVec(e, n); else return ddx::toMat(e, n).a; }
template <class E> E read(dd::Package& p, std::istream& is, bool bin) { if constexpr (isVec<E>) return p.deserialize<dd::vNode>(is, bin); else return p.deserialize<dd::mNode>(is, bin); }
double scaleOf(const std::vector<C>& v) { double m = 1; for (auto& x : v) m = std::max(m, std::abs(x)); return m; }
template <class E> void checkDense(const E& e, const std::vector<C>& want, unsigned n, const std::string& what) {
  auto got = dense(e, n);
  require(ref::dist(got, want) < TOL * scaleOf(want), what + " represents " + ref::show(got) + " instead of " + ref::show(want));
}
// no weight close to the numerical tolerance, no two weights of a node of almost the same magnitude: only then
// has the diagram one canonical form that rounding cannot change
template <class E> bool robust(const E& e) {
  std::set<const void*> seen; bool ok = true;
  std::function<void(const E&)> walk = [&](const E& x) {
    for (double c : {ddx::val(x.w).real(), ddx::val(x.w).imag()}) ok &= c == 0 || std::abs(c) > 1e-5;
    if (x.isTerminal() || !seen.insert(x.p).second) return;
    std::vector<double> mags;
    for (auto& y : x.p->e) { mags.push_back(std::abs(ddx::val(y.w))); walk(y); }
    for (auto a : mags) for (auto b : mags) ok &= std::abs(a - b) < 1e-14 || std::abs(a - b) > 1e-6;
  };
  walk(e);
  return ok;
}
template <class E> void serialization(Src& s, Ctx& c) {
  const unsigned n = static_cast<unsigned>(isVec<E> ? s.sized(1, 7) : s.sized(1, 4));
  auto p = ddx::mkPackage(n), other = ddx::mkPackage(n + static_cast<unsigned>(s.below(3)));
  std::string d; auto e = gen<E>(s, *p, n, d);
  c.desc(d);
  p->incRef(e);
  const auto want = dense(e, n);
  const bool firm = robust(e);
  if (firm) c.label("canonical form required");
  // the other package already holds something
  for (int i = s.range(0, 2); i > 0; --i) { std::string x; auto y = gen<E>(s, *other, n, x); other->incRef(y); }
  for (bool bin : {false, true}) {
    const std::string fmt = bin ? "binary" : "text";
    std::stringstream ss;
    dd::serialize(e, ss, bin);
    const std::string image = ss.str();
    auto f = read<E>(*p, ss, bin);
    checkDense(f, want, n, "diagram read back from " + fmt + " (" + d + ")");
    require(!firm || f.p == e.p, "reading back from " + fmt + " into the same package gives a different node: " + d);
    require(!firm || f.w.approximatelyEquals(e.w), "reading back from " + fmt + " into the same package gives a different root weight: " + d);
    std::stringstream s2(image);
    auto g = read<E>(*other, s2, bin);
    other->incRef(g);
    checkDense(g, want, n, "diagram read from " + fmt + " into another package (" + d + ")");
    std::stringstream s3;
    dd::serialize(g, s3, bin);
    std::stringstream s4(s3.str());
    auto h = read<E>(*p, s4, bin);
    checkDense(h, want, n, "diagram written and read through another package (" + d + ")");
    require(!firm || h.p == e.p, "writing and reading through another package gives a different node: " + d);
    if (s.coin()) { p->garbageCollect(true); std::stringstream s5(image); auto k = read<E>(*p, s5, bin); require(!firm || k.p == e.p, "reading from " + fmt + " after a collection gives a different node: " + d); }
  }
  c.nontrivial = e.size() > 2;
  c.label(isVec<E> ? "vectors" : "matrices");
  if (e.isTerminal()) c.label("terminal root");
  c.label("nodes", e.size());
}
template <class E> void transfer(Src& s, Ctx& c) {
  const unsigned n = static_cast<unsigned>(isVec<E> ? s.sized(1, 7) : s.sized(1, 4));
  auto p = ddx::mkPackage(n), other = ddx::mkPackage(n + static_cast<unsigned>(s.below(3)));
  std::string d; auto e = gen<E>(s, *p, n, d);
  c.desc(d);
  p->incRef(e);
  const auto want = dense(e, n);
  const bool firm = robust(e);
  if (firm) c.label("canonical form required");
  for (int i = s.range(0, 2); i > 0; --i) { std::string x; auto y = gen<E>(s, *other, n, x); other->incRef(y); }
  auto f = other->transfer(e);
  other->incRef(f);
  checkDense(f, want, n, "transferred diagram (" + d + ")");
  checkDense(e, want, n, "original after the transfer (" + d + ")");
  require(!firm || f.size() == e.size(), "the transferred diagram has " + std::to_string(f.size()) + " nodes, the original " + std::to_string(e.size()) + ": " + d);
  auto again = other->transfer(e);
  require(!firm || again.p == f.p && again.w.approximatelyEquals(f.w), "transferring twice gives different diagrams: " + d);
  auto back = p->transfer(f);
  checkDense(back, want, n, "diagram transferred there and back (" + d + ")");
  require(!firm || back.p == e.p && back.w.approximatelyEquals(e.w), "transferring there and back gives a different diagram: " + d);
  other->garbageCollect(true);
  checkDense(f, want, n, "transferred diagram after a collection (" + d + ")");
  c.nontrivial = e.size() > 2;
  c.label(isVec<E> ? "vectors" : "matrices");
}
// every style of the Dot export shows exactly the nodes and edges of the diagram
template <class E> void dot(Src& s, Ctx& c) {
  const unsigned n = static_cast<unsigned>(isVec<E> ? s.sized(1, 6) : s.sized(1, 4));
  auto p = ddx::mkPackage(n);
  std::string d; auto e = gen<E>(s, *p, n, d);
  c.desc(d);
  std::set<const void*> nodes; std::size_t edges = 0, edgesMem = 0;
  std::function<void(const E&)> walk = [&](const E& x) {
    if (x.isTerminal() || !nodes.insert(x.p).second) return;
    for (auto& y : x.p->e) { if (!y.w.approximatelyZero()) { ++edges; } if (!y.w.exactlyZero()) ++edgesMem; if (!y.w.exactlyZero()) walk(y); }
  };
  walk(e);
  for (int style = 0; style < 32; ++style) {
    const bool colored = style & 1, labels = style & 2, classic = style & 4, memory = style & 8, polar = style & 16;
    std::ostringstream os;
    dd::toDot(e, os, colored, labels, classic, memory, polar);
    const std::string t = os.str();
    std::istringstream is(t); std::string line; std::size_t nn = 0, ne = 0; bool close = false;
    while (std::getline(is, line)) {
      if (line.find("root->") == 0) continue;
      if (line.find("->") != std::string::npos && line.find("digraph") == std::string::npos) ++ne;
      else if (!line.empty() && isdigit(static_cast<unsigned char>(line[0]))) ++nn;
      if (line == "}") close = true;
    }
    require(close, "Dot export is not closed: " + d);
    require(nn == nodes.size(), "Dot export (style " + std::to_string(style) + ") defines " + std::to_string(nn) + " nodes instead of " + std::to_string(nodes.size()) + ": " + d);
    require(ne == (memory ? edgesMem : edges), "Dot export (style " + std::to_string(style) + ") has " + std::to_string(ne) + " edges instead of " + std::to_string(memory ? edgesMem : edges) + ": " + d);
  }
  std::ostringstream os; dd::exportEdgeWeights(e, os);
  std::istringstream is(os.str()); std::string line; std::size_t lines = 0; while (std::getline(is, line)) ++lines;
  require(lines == edges + 1, "export of the edge weights has " + std::to_string(lines) + " lines for " + std::to_string(edges) + " edges: " + d);
  require(nodes.size() + 1 == e.size(), "size() is " + std::to_string(e.size()) + " for " + std::to_string(nodes.size()) + " nodes: " + d);
  c.nontrivial = e.size() > 2;
}
// damaged images are refused or give a well-formed diagram of existing levels
template <class E> void wellFormed(const E& e, int level, unsigned n, std::set<const void*>& seen) {
  if (e.isTerminal()) { if constexpr (isVec<E>) require(level == -1 || e.w.exactlyZero() || e.w.approximatelyZero(), "accepted an image with a terminal above level 0"); return; }
  require(e.p->v < n, "accepted an image with a node on level " + std::to_string(e.p->v) + " in a package for " + std::to_string(n) + " qubits");
  if constexpr (isVec<E>) require(static_cast<int>(e.p->v) == level, "accepted an image with a node on level " + std::to_string(e.p->v) + " where level " + std::to_string(level) + " is expected");
  else require(static_cast<int>(e.p->v) <= level, "accepted an image that violates the level order");
  if (!seen.insert(e.p).second) return;
  for (auto& x : e.p->e) wellFormed(x, static_cast<int>(e.p->v) - 1, n, seen);
}
template <class E> void damaged(Src& s, Ctx& c) {
  const unsigned n = static_cast<unsigned>(s.range(1, 4));
  auto p = ddx::mkPackage(n);
  std::string d; auto e = gen<E>(s, *p, n, d);
  p->incRef(e);
  const auto want = dense(e, n);
  const bool bin = s.coin();
  std::stringstream ss; dd::serialize(e, ss, bin);
  std::string image = ss.str();
  const std::string orig = image;
  int k = s.range(1, 3);
  for (int i = 0; i < k && !image.empty(); ++i) {
    std::size_t at = s.below(image.size());
    switch (s.below(bin ? 5 : 7)) {
    case 0: image.resize(at); break;
    case 1: image[at] = static_cast<char>(bin ? s.below(256) : 32 + s.below(95)); break;
    case 2: image.erase(at, 1 + s.below(20)); break;
    case 3: image.insert(at, std::string(1 + s.below(9), bin ? static_cast<char>(s.below(256)) : "0123456789-() "[s.below(14)])); break;
    case 4: { std::size_t b = s.below(image.size()); image.insert(at, image.substr(b, 1 + s.below(40))); break; }
    default: { // change a number
      std::vector<std::size_t> starts; for (std::size_t j = 0; j < image.size(); ++j) if (isdigit(static_cast<unsigned char>(image[j])) && (j == 0 || image[j - 1] == ' ' || image[j - 1] == '(' || image[j - 1] == '\n')) starts.push_back(j);
      if (starts.empty()) break;
      std::size_t j = s.pick(starts), l = 0; while (j + l < image.size() && isdigit(static_cast<unsigned char>(image[j + l]))) ++l;
      image.replace(j, l, s.pick<std::string>({"0", "1", "2", "3", "5", "17", "300", "65536", "99999999999999999999", "-1", "-2", "1e400"})); break; }
    }
  }
  c.desc((bin ? "binary " : "text ") + std::to_string(n) + "q " + d + " damaged to " + image);
  std::stringstream in(image);
  bool refused = false;
  E f{};
  try { f = read<E>(*p, in, bin); } catch (const std::exception&) { refused = true; }
  c.label(refused ? "refused" : "accepted");
  if (!refused) { std::set<const void*> seen; if (!f.isTerminal()) { if (isVec<E>) wellFormed(f, static_cast<int>(f.p->v), n, seen); else wellFormed(f, static_cast<int>(n) - 1, n, seen); } }
  // nothing else in the package is disturbed
  checkDense(e, want, n, "diagram after reading a damaged image (" + c.description + ")");
  p->garbageCollect(true);
  checkDense(e, want, n, "diagram after reading a damaged image and a collection (" + c.description + ")");
  std::stringstream again(orig);
  auto g = read<E>(*p, again, bin);
  require(!robust(e) || g.p == e.p, "the undamaged image is read differently after a damaged one: " + c.description);
  c.nontrivial = image != orig;
}
} // namespace

int main(int argc, char** argv) {
  Suite su;
  su.property = "C27";
  su.rule = "one case = one generated vector or matrix diagram that is written and read in both formats within and across packages, transferred, exported in every Dot style, or read from a damaged image, under the address and undefined-behaviour sanitizers; non-trivial = a diagram of at least two nodes (or an image that was really changed)";
  su.assumptions = {"dense comparison at 1e-9 (relative to the largest entry)", "files are replaced by string streams"};
  su.props = {{"vectors", serialization<dd::vEdge>, 800, 60000}, {"matrices", serialization<dd::mEdge>, 700, 60000}, {"transfer-vectors", transfer<dd::vEdge>, 1500, 60000}, {"transfer-matrices", transfer<dd::mEdge>, 1500, 60000},
              {"dot-vectors", dot<dd::vEdge>, 500, 20000}, {"dot-matrices", dot<dd::mEdge>, 500, 20000}, {"damaged-vectors", damaged<dd::vEdge>, 2500, 200000}, {"damaged-matrices", damaged<dd::mEdge>, 2500, 200000}};
  return mainImpl(su, argc, argv);
}
