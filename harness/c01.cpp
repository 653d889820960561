// build: {"libs": ["ir"]}
// C01: copies are faithful and independent; equality and hashing agree with meaning.
#include "spec.hpp"
#include "symspec.hpp"
using namespace pbt;
using spec::Op;

namespace {
constexpr double TOL = 1e-9;

// ------------------------------------------------------------------ fingerprints: every observable detail of an object
std::string fp(const qc::Operation& op) {
  std::ostringstream s; s.precision(17);
  s << "[" << qc::toString(op.getType()) << " name=" << op.getName();
  if (const auto* cc = dynamic_cast<const qc::ClassicControlledOperation*>(&op)) {
    if (cc->getControlRegister()) s << " reg " << cc->getControlRegister()->getName() << "@" << cc->getControlRegister()->getStartIndex() << "+" << cc->getControlRegister()->getSize();
    if (cc->getControlBit()) s << " bit " << *cc->getControlBit();
    s << " " << static_cast<int>(cc->getComparisonKind()) << " " << cc->getExpectedValue() << " " << fp(*cc->getOperation()) << "]";
    return s.str();
  }
  s << " c:";
  for (auto& c : op.getControls()) s << c.qubit << (c.type == qc::Control::Type::Pos ? "+" : "-");
  if (const auto* co = dynamic_cast<const qc::CompoundOperation*>(&op)) {
    for (auto& x : *co) s << " " << fp(*x);
    s << "]";
    return s.str();
  }
  s << " t:"; for (auto t : op.getTargets()) s << t << ",";
  s << " p:"; for (auto p : op.getParameter()) s << p << ",";
  if (const auto* nu = dynamic_cast<const qc::NonUnitaryOperation*>(&op); nu && op.getType() == qc::Measure) { s << " b:"; for (auto b : nu->getClassics()) s << b << ","; }
  if (const auto* sy = dynamic_cast<const qc::SymbolicOperation*>(&op)) {
    s << " sym:";
    for (auto& p : sy->getParameters()) {
      if (std::holds_alternative<qc::fp>(p)) s << std::get<qc::fp>(p) << ";";
      else { auto& e = std::get<qc::Symbolic>(p); for (auto& t : e) s << t.getCoeff() << "*" << t.getVar().getName() << "+"; s << e.getConst() << ";"; }
    }
  }
  s << "]";
  return s.str();
}
std::string fp(const qc::QuantumComputation& q) {
  std::ostringstream s; s.precision(17);
  s << q.getName() << " " << q.getNqubits() << "/" << q.getNancillae() << "/" << q.getNcbits() << "/" << q.getNgarbageQubits() << " gp=" << q.getGlobalPhase() << "\n";
  std::set<std::string> regs;
  auto reg = [&](const char* k, auto& m) { for (auto& [n, r] : m) { std::ostringstream o; o << k << n << "=" << r.getName() << "@" << r.getStartIndex() << "+" << r.getSize(); regs.insert(o.str()); } };
  reg("q ", q.getQuantumRegisters()); reg("a ", q.getAncillaRegisters()); reg("c ", q.getClassicalRegisters());
  for (auto& r : regs) s << r << "; ";
  s << "\nin:"; for (auto& [a, b] : q.initialLayout) s << a << ">" << b << " ";
  s << "out:"; for (auto& [a, b] : q.outputPermutation) s << a << ">" << b << " ";
  s << "anc:"; for (bool b : q.getAncillary()) s << b;
  s << " garb:"; for (bool b : q.getGarbage()) s << b;
  std::set<std::string> vars;
  for (auto& v : q.getVariables()) vars.insert(v.getName());
  s << " vars:"; for (auto& v : vars) s << v << ",";
  s << "\n";
  for (auto& op : q) s << fp(*op) << "\n";
  return s.str();
}

// ------------------------------------------------------------------ generation
struct GOp { bool sym = false; Op o; symspec::SymOp so; };
std::unique_ptr<qc::Operation> make(const GOp& g, const qc::QuantumComputation* q = nullptr) { return g.sym ? symspec::make(g.so) : spec::makeOp(g.o, q); }
std::string show(const GOp& g) { return g.sym ? symspec::show(g.so) : spec::show(g.o); }
Op eval(const GOp& g, const std::map<std::string, double>& a) { return g.sym ? symspec::eval(g.so, a) : g.o; }

spec::GenCfg cfg() {
  spec::GenCfg g;
  g.gphaseOps = g.barriers = g.compounds = g.measures = g.resets = g.ifs = g.multiMeasure = g.cmpKinds = g.compoundNonUnitary = g.ifCompound = true;
  return g;
}
GOp genOp(Src& s, unsigned nq, unsigned nc) {
  GOp g;
  if (s.chance(1, 5)) { g.sym = true; g.so = symspec::gen(s, nq); }
  else g.o = spec::genOp(s, nq, nc, cfg());
  return g;
}

// the effect on a random state and random bits: one density matrix per value of the bits
using Ens = std::map<std::vector<char>, std::vector<ref::C>>;
Ens effect(const Op& o, const ref::Vec& v, const std::vector<char>& bits) {
  std::vector<spec::Branch> bs{{v, bits}};
  spec::run(bs, o);
  Ens e;
  for (auto& b : bs) {
    auto& m = e[b.bits];
    m.resize(v.size() * v.size());
    for (std::size_t i = 0; i < v.size(); ++i) for (std::size_t j = 0; j < v.size(); ++j) m[i * v.size() + j] += b.v[i] * std::conj(b.v[j]);
  }
  return e;
}
double ensDist(const Ens& a, const Ens& b) {
  double d = 0;
  auto one = [&](const Ens& x, const Ens& y) { for (auto& [k, m] : x) { auto it = y.find(k); for (std::size_t i = 0; i < m.size(); ++i) d = std::max(d, std::abs(m[i] - (it == y.end() ? ref::C{} : it->second[i]))); } };
  one(a, b); one(b, a);
  return d;
}
bool pureUnitary(const Op& o) { return !spec::anyOp({o}, [](const Op& x) { return x.kind == Op::Measure || x.kind == Op::Reset || x.kind == Op::If; }); }
ref::Vec randState(Src& s, unsigned nq) {
  ref::Vec v(std::size_t{1} << nq);
  double n = 0;
  for (auto& c : v) { c = {s.real(-1, 1) + 0.01, s.real(-1, 1)}; n += std::norm(c); }
  for (auto& c : v) c /= std::sqrt(n);
  return v;
}

// a related operation
Op editOp(Src& s, Op o, unsigned nq, unsigned nc, std::string& what) {
  switch (o.kind) {
  case Op::U: {
    std::vector<int> k{0, 1, 2};
    if (!o.cs.empty()) { k.push_back(3); k.push_back(3); k.push_back(4); k.push_back(5); }
    if (o.ts.size() == 2) k.push_back(6);
    if (!o.p.empty()) { k.push_back(7); k.push_back(7); }
    if (o.g == "gphase") k = {0, 7};
    switch (s.pick(k)) {
    case 0: what = "same"; return o;
    case 1: { what = "moved target"; auto& t = s.pick(std::vector<unsigned>{0}) == 0 ? o.ts[0] : o.ts[0]; unsigned n = static_cast<unsigned>(s.below(nq)); bool used = false; for (auto x : o.ts) used |= x == n; for (auto& c : o.cs) used |= c.q == n; if (!used) t = n; return o; }
    case 2: { what = "other gate"; std::vector<std::string> same; for (auto& g : spec::allGates()) if (ref::isTwoTarget(g) == ref::isTwoTarget(o.g) && ref::numParams(g) == ref::numParams(o.g)) same.push_back(g); o.g = s.pick(same); return o; }
    case 3: { what = "control and target exchanged"; auto i = s.below(o.cs.size()); std::swap(o.cs[i].q, o.ts[s.below(o.ts.size())]); std::sort(o.cs.begin(), o.cs.end()); return o; }
    case 4: { what = "polarity"; auto& c = o.cs[s.below(o.cs.size())]; c.pos = !c.pos; return o; }
    case 5: { what = "control dropped"; o.cs.erase(o.cs.begin() + static_cast<long>(s.below(o.cs.size()))); return o; }
    case 6: what = "targets exchanged"; std::swap(o.ts[0], o.ts[1]); return o;
    default: { what = "parameter"; auto& p = o.p[s.below(o.p.size())]; switch (s.below(3)) { case 0: p = -p; break; case 1: p += 2 * M_PI; break; default: p += 0.5; } return o; }
    } }
  case Op::Measure: {
    switch (s.below(4)) {
    case 0: what = "same"; return o;
    case 1: { what = "measurement pairs reordered"; std::vector<std::size_t> p; for (std::size_t i = 0; i < o.ts.size(); ++i) p.push_back(i); s.shuffle(p); Op n = o; for (std::size_t i = 0; i < p.size(); ++i) { n.ts[i] = o.ts[p[i]]; n.bits[i] = o.bits[p[i]]; } return n; }
    case 2: { what = "measured bits permuted"; s.shuffle(o.bits); return o; }
    default: { what = "measured bit"; auto b = static_cast<unsigned>(s.below(nc)); bool used = false; for (auto x : o.bits) used |= x == b; if (!used) o.bits[s.below(o.bits.size())] = b; return o; }
    } }
  case Op::Reset: case Op::Barrier: {
    if (s.coin()) { what = "targets reordered"; s.shuffle(o.ts); return o; }
    what = "kind"; o.kind = o.kind == Op::Reset ? Op::Barrier : Op::Reset; return o; }
  case Op::Compound: {
    switch (s.below(4)) {
    case 0: what = "same"; return o;
    case 1: what = "compound reordered"; s.shuffle(o.body); return o;
    case 2: what = "compound shortened"; if (o.body.size() > 1) o.body.pop_back(); return o;
    default: { auto& b = o.body[s.below(o.body.size())]; b = editOp(s, b, nq, nc, what); what = "compound: " + what; return o; }
    } }
  case Op::If: {
    switch (s.below(6)) {
    case 0: what = "same"; return o;
    case 1: what = "expected value"; if (o.condReg) o.val ^= 1; else o.val = 1 - o.val; return o;
    case 2: what = "comparison"; if (o.condReg) o.cmp = s.range(0, 5); return o;
    case 3: what = "condition bit"; if (!o.condReg) o.condStart = static_cast<unsigned>(s.below(nc)); return o;
    case 4: what = "condition range"; if (o.condReg) { o.condStart = static_cast<unsigned>(s.below(nc)); o.condSize = static_cast<unsigned>(s.range(1, static_cast<int>(nc - o.condStart))); } return o;
    default: o.body[0] = editOp(s, o.body[0], nq, nc, what); what = "if: " + what; return o;
    } }
  }
  return o;
}
GOp edit(Src& s, const GOp& a, unsigned nq, unsigned nc, std::string& what) {
  GOp b = a;
  if (!a.sym) {
    if (a.o.kind == Op::U && ref::numParams(a.o.g) > 0 && a.o.g != "gphase" && s.chance(1, 4)) { // the same gate with a symbol
      b.sym = true; b.so = symspec::fromOp(a.o); what = "numbers as symbolic operation";
      if (s.coin()) { auto& p = b.so.p[s.below(b.so.p.size())]; p = symspec::genExpr(s); what = "a symbol in place of a number"; }
      return b;
    }
    b.o = editOp(s, a.o, nq, nc, what);
    return b;
  }
  switch (s.below(5)) {
  case 0: what = "same"; break;
  case 1: { what = "symbolic parameter"; auto& p = b.so.p[s.below(b.so.p.size())]; p = symspec::editExpr(s, p); break; }
  case 2: { what = "number in place of a symbol"; b.so.p[s.below(b.so.p.size())] = symspec::Expr{{}, s.pick({0.0, 0.5, 1.0}), false}; break; }
  default: { Op o = symspec::eval(b.so, {}); o.p.assign(o.p.size(), 0.25); Op n = editOp(s, o, nq, nc, what); if (n.p == o.p) { b.so.g = n.g; b.so.cs = n.cs; b.so.ts = n.ts; } else what = "same"; what = "symbolic: " + what; break; }
  }
  return b;
}
std::size_t hashOf(const qc::Operation& o) {
  if (auto* x = dynamic_cast<const qc::ClassicControlledOperation*>(&o)) return std::hash<qc::ClassicControlledOperation>{}(*x);
  if (auto* x = dynamic_cast<const qc::CompoundOperation*>(&o)) return std::hash<qc::CompoundOperation>{}(*x);
  if (auto* x = dynamic_cast<const qc::NonUnitaryOperation*>(&o)) return std::hash<qc::NonUnitaryOperation>{}(*x);
  if (auto* x = dynamic_cast<const qc::SymbolicOperation*>(&o)) return std::hash<qc::SymbolicOperation>{}(*x);
  return std::hash<qc::Operation>{}(o);
}

void pairs(Src& s, Ctx& c) {
  unsigned nq = static_cast<unsigned>(s.range(1, 4)), nc = static_cast<unsigned>(s.range(1, 3));
  std::vector<GOp> g{genOp(s, nq, nc)};
  std::string whats;
  for (int i = 0; i < 2; ++i) { std::string w; g.push_back(edit(s, g[s.below(g.size())], nq, nc, w)); whats += w + "; "; c.label("edit:" + w); }
  std::string d; for (auto& x : g) d += show(x) + "  |  ";
  c.desc(d + " (" + whats + ")");
  std::vector<std::unique_ptr<qc::Operation>> ops;
  for (auto& x : g) ops.push_back(make(x));
  auto name = [&](std::size_t i, std::size_t j) { return show(g[i]) + " and " + show(g[j]); };
  bool eq[3][3];
  for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j) {
    eq[i][j] = ops[i]->equals(*ops[j]);
    require((*ops[i] == *ops[j]) == eq[i][j] && (*ops[i] != *ops[j]) != eq[i][j], "operator== or != disagrees with equals for " + name(i, j));
  }
  for (std::size_t i = 0; i < 3; ++i) {
    require(eq[i][i], "operation is not equal to itself: " + show(g[i]));
    auto cl = ops[i]->clone();
    require(cl->equals(*ops[i]) && ops[i]->equals(*cl), "clone is not equal: " + show(g[i]));
    require(fp(*cl) == fp(*ops[i]), "clone differs:\n" + fp(*cl) + "\n" + fp(*ops[i]));
    for (std::size_t j = 0; j < 3; ++j) {
      require(eq[i][j] == eq[j][i], "equality is not symmetric for " + name(i, j));
      if (fp(*ops[i]) == fp(*ops[j])) require(eq[i][j], "identical operations are not equal: " + name(i, j));
      for (std::size_t k = 0; k < 3; ++k) if (eq[i][j] && eq[j][k]) require(eq[i][k], "equality is not transitive for " + name(i, j) + " and " + show(g[k]));
    }
  }
  int unequal = 0, equal = 0;
  for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = i + 1; j < 3; ++j) {
    if (!eq[i][j]) { ++unequal; continue; }
    ++equal;
    for (int k = 0; k < 3; ++k) {
      std::map<std::string, double> as; for (auto& v : symspec::vars()) as[v] = s.real(-4, 4);
      auto v = randState(s, nq);
      std::vector<char> bits; for (unsigned b = 0; b < nc; ++b) bits.push_back(static_cast<char>(s.below(2)));
      auto a = eval(g[i], as), b = eval(g[j], as);
      require(ensDist(effect(a, v, bits), effect(b, v, bits)) < TOL, "equal operations have different effects: " + name(i, j));
      if (pureUnitary(a) && pureUnitary(b)) { // phases are part of the operation
        auto x = v, y = v; spec::applyUnitary(x, a); spec::applyUnitary(y, b);
        require(ref::dist(x, y) < TOL, "equal operations have different unitaries: " + name(i, j));
      }
    }
    require(std::hash<qc::Operation>{}(*ops[i]) == std::hash<qc::Operation>{}(*ops[j]), "equal operations hash differently: " + name(i, j));
    if (typeid(*ops[i]) == typeid(*ops[j])) require(hashOf(*ops[i]) == hashOf(*ops[j]), "equal operations hash differently (own class): " + name(i, j));
  }
  // equality under permutations is equality of the relabelled operations
  std::vector<unsigned> p1(nq), p2(nq); for (unsigned i = 0; i < nq; ++i) p1[i] = p2[i] = i;
  s.shuffle(p1); if (s.coin()) p2 = p1; else s.shuffle(p2);
  qc::Permutation q1, q2; for (unsigned i = 0; i < nq; ++i) { q1[i] = p1[i]; q2[i] = p2[i]; }
  if (s.coin()) { // a pair that agrees after relabelling
    auto a = ops[0]->clone(), b = ops[0]->clone();
    qc::Permutation inv; for (unsigned i = 0; i < nq; ++i) inv[p2[i]] = i;
    b->apply(q1); b->apply(inv);
    require(a->equals(*b, q1, q2), "operations that agree after relabelling are not equal under the permutations: " + show(g[0]));
  }
  auto a = ops[0]->clone(), b = ops[1]->clone();
  bool e = a->equals(*b, q1, q2);
  a->apply(q1); b->apply(q2);
  require(e == a->equals(*b), "equality under permutations differs from equality of the relabelled operations: " + name(0, 1));
  c.nontrivial = unequal > 0 && equal > 0;
  if (equal) c.label("has equal pair");
}

struct Full { spec::Circ circ; std::vector<GOp> ops; };
qc::QuantumComputation genCircuit(Src& s, std::string& d, unsigned& nq, unsigned& nc) {
  spec::Circ f;
  nq = 0; nc = 0;
  int nr = s.range(1, 3);
  std::vector<std::string> qn{"q", "a", "zz"}, cn{"c", "b", "yy"};
  for (int i = 0; i < nr; ++i) { spec::Reg r{qn[static_cast<std::size_t>(i)], static_cast<unsigned>(s.range(1, 2)), i == 2 && s.coin()}; nq += r.size; f.qregs.push_back(r); }
  nr = s.range(1, 2);
  for (int i = 0; i < nr; ++i) { spec::Reg r{cn[static_cast<std::size_t>(i)], static_cast<unsigned>(s.range(1, 2)), false}; nc += r.size; f.cregs.push_back(r); }
  f.nq = nq; f.nc = nc;
  auto q = spec::frame(f);
  q.setName(s.pick<std::string>({"", "circ", "x y"}));
  if (s.coin()) q.gphase(s.pick({0.5, -1.0, 2.0}));
  int n = s.sized(0, 8);
  for (int i = 0; i < n; ++i) {
    auto g = genOp(s, nq, nc);
    d += show(g) + "; ";
    if (g.sym) symspec::append(q, g.so);
    else if (s.coin()) spec::appendViaApi(q, g.o);
    else q.emplace_back(spec::makeOp(g.o, &q));
  }
  if (s.coin()) for (auto& op : q) if (op->isCompoundOperation()) for (unsigned i = 0; i < nq; ++i) if (!op->actsOn(i)) {
    // controls of the compound operation itself
    try { op->addControl(qc::Control{static_cast<qc::Qubit>(i), s.coin() ? qc::Control::Type::Pos : qc::Control::Type::Neg}); d += "controlled; "; } catch (const std::exception&) {}
    break;
  }
  if (s.coin()) { std::vector<unsigned> p(nq); for (unsigned i = 0; i < nq; ++i) p[i] = i; s.shuffle(p); for (unsigned i = 0; i < nq; ++i) q.initialLayout[i] = p[i]; d += "layout; "; }
  if (s.coin()) { std::vector<unsigned> p(nq); for (unsigned i = 0; i < nq; ++i) p[i] = i; s.shuffle(p); for (unsigned i = 0; i < nq; ++i) q.outputPermutation[i] = p[i]; d += "output; "; }
  if (s.chance(1, 3)) { q.setLogicalQubitGarbage(static_cast<qc::Qubit>(s.below(nq))); d += "garbage; "; }
  if (s.chance(1, 3)) { q.setLogicalQubitAncillary(static_cast<qc::Qubit>(s.below(nq))); d += "ancilla; "; }
  return q;
}

void circuits(Src& s, Ctx& c) {
  std::string d; unsigned nq, nc;
  auto q = genCircuit(s, d, nq, nc);
  const auto ref = fp(q);
  auto check = [&](const qc::QuantumComputation& x, const std::string& how) {
    require(fp(x) == ref, how + " differs:\n" + fp(x) + "---\n" + ref);
    require(x == q && q == x && !(x != q), how + " is not equal to the original");
  };
  qc::QuantumComputation copy(q);
  check(copy, "copy");
  std::string dd; unsigned a, b;
  auto other = genCircuit(s, dd, a, b);
  const auto otherFp = fp(other);
  require((other == q) == (q == other), "circuit equality is not symmetric");
  if (q == other) { auto x = fp(q), y = fp(other); (void)x; (void)y; }
  auto keepOther = other;
  other = q;
  check(other, "assigned circuit");
  require(fp(keepOther) == otherFp, "assigning to a circuit changed its earlier copy");
  other = static_cast<const qc::QuantumComputation&>(other); // self-assignment
  check(other, "self-assigned circuit");
  qc::QuantumComputation moved(std::move(other));
  check(moved, "moved circuit");
  auto third = keepOther;
  third = std::move(moved);
  check(third, "move-assigned circuit");
  // cloning operation by operation
  for (auto& op : q) {
    auto cl = op->clone();
    require(fp(*cl) == fp(*op) && *cl == *op, "clone of an operation differs: " + fp(*cl) + " from " + fp(*op));
    if (auto* x = dynamic_cast<qc::ClassicControlledOperation*>(op.get())) {
      qc::ClassicControlledOperation y(std::make_unique<qc::StandardOperation>(0, qc::X), qc::Bit{0});
      y = *x;
      require(fp(y) == fp(*op) && y == *op, "copy-assigned conditional operation differs: " + fp(y) + " from " + fp(*op));
      qc::ClassicControlledOperation z(*x);
      require(fp(z) == fp(*op), "copied conditional operation differs");
    }
    if (auto* x = dynamic_cast<qc::CompoundOperation*>(op.get())) { qc::CompoundOperation y; y = *x; require(fp(y) == fp(*op) && y == *op, "copy-assigned compound operation differs"); }
  }
  // changing one detail of the copy: the original stays and the two become different
  qc::QuantumComputation x(q);
  std::vector<int> k{0, 1, 2, 3, 4, 5, 6};
  if (!q.empty()) { k.insert(k.end(), {7, 8, 9, 10, 10, 10, 10}); }
  std::string what;
  bool changed = true;
  switch (s.pick(k)) {
  case 0: what = "global phase"; x.gphase(0.25); break;
  case 1: what = "additional operation"; x.x(static_cast<qc::Qubit>(s.below(nq))); break;
  case 2: { what = "initial layout"; if (nq < 2) { changed = false; break; } auto i = x.initialLayout.begin(); auto j = std::next(i); std::swap(i->second, j->second); break; }
  case 3: { what = "output permutation"; if (x.outputPermutation.size() < 2) { changed = false; break; } auto i = x.outputPermutation.begin(); auto j = std::next(i); std::swap(i->second, j->second); break; }
  case 4: { what = "garbage"; changed = false; for (unsigned i = 0; i < nq; ++i) if (!x.logicalQubitIsGarbage(i)) { x.setLogicalQubitGarbage(i); changed = true; break; } break; }
  case 5: { what = "classical register"; x.addClassicalRegister(1, "extra"); break; }
  case 6: { what = "ancilla"; changed = false; for (unsigned i = 0; i < nq; ++i) if (!x.logicalQubitIsAncillary(i)) { x.setLogicalQubitAncillary(i); changed = true; break; } break; }
  case 7: what = "operation removed"; x.erase(x.begin() + static_cast<long>(s.below(x.size()))); break;
  case 8: { what = "operation relabelled"; auto& op = x.at(s.below(x.size())); qc::Permutation p; for (unsigned i = 0; i < nq; ++i) p[i] = i; if (nq >= 2) { p[0] = 1; p[1] = 0; } op->apply(p); changed = false; break; }
  case 9: { what = "operation inverted"; auto& op = x.at(s.below(x.size())); if (dynamic_cast<qc::StandardOperation*>(op.get())) op->invert(); changed = false; break; }
  default: { what = "inner detail of an operation";
    qc::Operation* op = x.at(s.below(x.size())).get();
    changed = false;
    for (int depth = 0; depth < 4; ++depth) {
      if (auto* co = dynamic_cast<qc::CompoundOperation*>(op)) { if (co->empty()) break; op = co->getOps()[s.below(co->size())].get(); continue; }
      if (auto* cc = dynamic_cast<qc::ClassicControlledOperation*>(op)) { op = cc->getOperation(); continue; }
      break;
    }
    if (op->isUnitary() && !op->getTargets().empty()) {
      unsigned free = nq; for (unsigned i = 0; i < nq; ++i) if (!op->actsOn(i)) free = i;
      if (free < nq && op->getType() != qc::Barrier) { op->addControl(qc::Control{static_cast<qc::Qubit>(free)}); changed = true; what += " (control)"; }
    }
    break; }
  }
  require(fp(q) == ref, "changing a copy (" + what + ") changed the original:\n" + fp(q) + "---\n" + ref);
  if (changed) require(x != q && q != x, "circuits that differ in a detail (" + what + ") compare equal:\n" + fp(x) + "---\n" + ref);
  if (changed) require(fp(x) != ref, "harness: nothing changed for " + what);
  c.label("change:" + what);
  c.desc(std::to_string(nq) + "q " + std::to_string(nc) + "c " + d + " change: " + what);
  c.nontrivial = q.size() >= 2;
}

// registers: same names and sizes, different order
void registers(Src& s, Ctx& c) {
  std::vector<std::pair<std::string, unsigned>> r{{"a", static_cast<unsigned>(s.range(1, 2))}, {"b", static_cast<unsigned>(s.range(1, 2))}, {"c", static_cast<unsigned>(s.range(1, 2))}};
  auto t = r; s.shuffle(t);
  if (s.chance(1, 4)) t[0].second = 3 - t[0].second;
  int kind = s.range(0, 2);
  auto mk = [&](auto& v) { qc::QuantumComputation q; if (kind == 1) q.addQubitRegister(1, "z"); for (auto& [n, k] : v) { if (kind == 0) q.addQubitRegister(k, n); else if (kind == 1) q.addClassicalRegister(k, n); else q.addAncillaryRegister(k, n); } return q; };
  auto x = mk(r), y = mk(t);
  bool same = r == t;
  require((x == y) == same && (y == x) == same && (x != y) == !same, "registers declared in a different order or size are not told apart");
  auto x2 = x; require(x2 == x, "copy differs");
  std::string d; for (auto& [n, k] : r) d += n + ":" + std::to_string(k) + " "; d += "| "; for (auto& [n, k] : t) d += n + ":" + std::to_string(k) + " ";
  c.desc(d + " kind " + std::to_string(kind));
  c.nontrivial = !same;
}
} // namespace

int main(int argc, char** argv) {
  Suite su;
  su.property = "C01";
  su.rule = "pairs: at least one equal and one unequal pair in the triple; circuits: at least two operations; registers: the declarations differ";
  su.assumptions = {"the bits of one measurement operation are pairwise distinct", "comparison of coefficients within the library's tolerance is exercised only with identical or clearly different coefficients"};
  su.props = {{"pairs", pairs, 150000, 4000000}, {"circuits", circuits, 30000, 800000}, {"registers", registers, 1500, 20000}};
  return mainImpl(su, argc, argv);
}
