// build: {"libs": ["ir"]}
// C05: editing operations (controls, relabelling, compound contents) and what they report about themselves.
#include "spec.hpp"
#include "symspec.hpp"
using namespace pbt;
using spec::Op;

namespace {
constexpr double TOL = 1e-8;
constexpr unsigned NC = 2;
struct GOp { bool sym = false; Op o; symspec::SymOp so; std::vector<GOp> body; };
std::unique_ptr<qc::Operation> make(const GOp& g) {
  if (!g.body.empty()) { std::vector<std::unique_ptr<qc::Operation>> v; for (auto& b : g.body) v.push_back(make(b)); return std::make_unique<qc::CompoundOperation>(std::move(v)); }
  return g.sym ? symspec::make(g.so) : spec::makeOp(g.o);
}
std::string show(const GOp& g) {
  if (!g.body.empty()) { std::string s = "{"; for (auto& b : g.body) s += show(b) + "; "; return s + "}"; }
  return g.sym ? symspec::show(g.so) : spec::show(g.o);
}
Op eval(const GOp& g, const symspec::Assign& a) {
  if (!g.body.empty()) { Op o; o.kind = Op::Compound; for (auto& b : g.body) o.body.push_back(eval(b, a)); return o; }
  return g.sym ? symspec::eval(g.so, a) : g.o;
}
void relabel(Op& o, const std::vector<unsigned>& m) {
  for (auto& t : o.ts) t = m[t];
  for (auto& c : o.cs) c.q = m[c.q];
  std::sort(o.cs.begin(), o.cs.end());
  for (auto& b : o.body) relabel(b, m);
}
void relabel(GOp& g, const std::vector<unsigned>& m) {
  relabel(g.o, m);
  for (auto& t : g.so.ts) t = m[t];
  for (auto& c : g.so.cs) c.q = m[c.q];
  std::sort(g.so.cs.begin(), g.so.cs.end());
  for (auto& b : g.body) relabel(b, m);
}
struct Kinds { bool sym = true, nonUnitary = false, ifs = true, barriers = true; };
GOp gen(Src& s, unsigned nq, const Kinds& k, int depth = 0) {
  GOp g;
  if (depth < 3 && s.chance(1, depth == 0 ? 3 : 5)) { int n = s.range(1, 4); for (int i = 0; i < n; ++i) g.body.push_back(gen(s, nq, k, depth + 1)); return g; }
  if (k.sym && s.chance(1, 5)) { g.sym = true; g.so = symspec::gen(s, nq); return g; }
  spec::GenCfg c;
  c.gphaseOps = true; c.barriers = k.barriers; c.ifs = k.ifs; c.ifCompound = true; c.cmpKinds = true; c.compoundNonUnitary = true;
  c.measures = c.resets = c.multiMeasure = k.nonUnitary;
  g.o = spec::genOp(s, nq, NC, c);
  return g;
}
symspec::Assign assign(Src& s) { symspec::Assign a; for (auto& v : symspec::vars()) a[v] = s.real(-4, 4); return a; }
bool hasNonUnitary(const Op& o) { return spec::anyOp({o}, [](const Op& x) { return x.kind == Op::Measure || x.kind == Op::Reset; }); }
std::set<unsigned> qubitsOf(const Op& o) {
  std::set<unsigned> r(o.ts.begin(), o.ts.end());
  for (auto& c : o.cs) r.insert(c.q);
  for (auto& b : o.body) { auto x = qubitsOf(b); r.insert(x.begin(), x.end()); }
  return r;
}
ref::Vec randState(Src& s, unsigned nq) { ref::Vec v(std::size_t{1} << nq); for (auto& x : v) x = {s.real(-1, 1), s.real(-1, 1)}; return v; }
// the operation, only where the controls are satisfied (no measurements)
ref::Vec runOn(const Op& o, ref::Vec v, const std::vector<char>& bits, const std::vector<ref::Ctrl>& cs = {}) {
  ref::Vec rest(v.size());
  for (std::size_t i = 0; i < v.size(); ++i) for (auto& c : cs) if ((((i >> c.q) & 1U) != 0) != c.pos) { rest[i] = v[i]; v[i] = 0; break; }
  std::vector<spec::Branch> b{{v, bits}};
  spec::run(b, o);
  require(b.size() == 1, "harness: branches");
  for (std::size_t i = 0; i < v.size(); ++i) b[0].v[i] += rest[i];
  return b[0].v;
}
bool ifsOf(const Op& o) { return spec::anyOp({o}, [](const Op& x) { return x.kind == Op::If; }); }
// extraction that evaluates symbols inside of conditions as well
Op extract(const qc::Operation& op, const symspec::Assign& a) { return symspec::extract(op, a); }

// ---------------------------------------------------------------- controls
void controls(Src& s, Ctx& c) {
  const unsigned nq = 5;
  const unsigned k = static_cast<unsigned>(s.range(1, 4));
  Kinds kinds; kinds.nonUnitary = s.chance(1, 6);
  auto g = gen(s, k, kinds);
  std::vector<unsigned> m(nq); for (unsigned i = 0; i < nq; ++i) m[i] = i;
  s.shuffle(m); relabel(g, m);
  const auto a = assign(s);
  const auto base = eval(g, a);
  auto op = make(g);
  std::string d = show(g) + ":";
  // operations of a circuit bring their own controls, an edit can remove those of a plain gate
  const bool plain = g.body.empty() && (g.sym || base.kind == Op::U);
  Op core = base;
  std::vector<ref::Ctrl> own;
  if (plain) { own = core.cs; core.cs.clear(); }
  if (g.body.empty() && base.kind == Op::If && base.body[0].kind == Op::U) { own = core.body[0].cs; core.body[0].cs.clear(); }
  const bool nonUnitary = hasNonUnitary(base);
  int ok = 0, refusedN = 0;
  const int n = s.sized(1, 8);
  for (int i = 0; i < n; ++i) {
    const auto before = extract(*op, a);
    const auto used = [&] { auto u = qubitsOf(core); for (auto& x : own) u.insert(x.q); return u; }();
    const ref::Ctrl x{static_cast<unsigned>(s.below(nq)), s.coin()};
    const auto qx = spec::qctrl(x);
    const auto which = s.below(8);
    bool legal = !nonUnitary, threw = false;
    auto want = own;
    auto contains = [&](const ref::Ctrl& y) { return std::find(own.begin(), own.end(), y) != own.end(); };
    std::vector<ref::Ctrl> y = own;
    if (which <= 2) { // add one
      d += " add " + std::string(x.pos ? "c" : "n") + std::to_string(x.q);
      c.desc(d);
      legal = legal && used.count(x.q) == 0;
      want.push_back(x);
      try { op->addControl(qx); } catch (const std::exception&) { threw = true; }
    } else if (which <= 4) { // remove one
      auto r = !own.empty() && s.chance(3, 4) ? own[s.below(own.size())] : x;
      d += " remove " + std::string(r.pos ? "c" : "n") + std::to_string(r.q);
      c.desc(d);
      legal = legal && contains(r);
      want.erase(std::remove(want.begin(), want.end(), r), want.end());
      if (legal && s.coin()) {
        const auto& cs = op->getControls();
        auto it = cs.find(spec::qctrl(r));
        require(it != cs.end(), "an added control is not among the controls");
        try { auto nx = op->removeControl(it); auto left = op->getControls(); (void)nx; require(left.size() + 1 == own.size(), "removing a control by iterator leaves " + std::to_string(left.size())); } catch (const std::exception&) { threw = true; }
      } else try { op->removeControl(spec::qctrl(r)); } catch (const std::exception&) { threw = true; }
    } else if (which == 5) { // replace all
      std::vector<ref::Ctrl> nw;
      auto coreQ = qubitsOf(core);
      for (unsigned q = 0; q < nq; ++q) if (!coreQ.count(q) && s.chance(1, 3)) nw.push_back({q, s.coin()});
      d += " set " + std::to_string(nw.size()) + " controls";
      c.desc(d);
      want = nw;
      try { op->setControls(spec::qctrls(nw)); } catch (const std::exception&) { threw = true; }
    } else if (which == 6) { d += " clear"; c.desc(d); want.clear(); try { op->clearControls(); } catch (const std::exception&) { threw = true; } }
    else { d += " clone"; c.desc(d); op = op->clone(); legal = true; }
    if (threw) {
      ++refusedN;
      require(!legal, "a legal change of the controls was refused: " + d);
      require(spec::same(extract(*op, a), before), "a refused change of the controls altered the operation: " + d + " -> " + spec::show(extract(*op, a)));
      continue;
    }
    if (nonUnitary && which >= 5) continue; // nothing to do may be accepted
    require(legal, "an illegal change of the controls was accepted: " + d);
    own = want;
    std::sort(own.begin(), own.end());
    ++ok;
    require(op->getNcontrols() == own.size() && op->getControls() == spec::qctrls(own), "wrong set of controls after " + d);
    require(op->isControlled() == !own.empty() || base.kind == Op::If, "isControlled after " + d);
    for (unsigned q = 0; q < nq; ++q) {
      auto u = qubitsOf(core); for (auto& z : own) u.insert(z.q);
      bool empty = spec::anyOp({core}, [](const Op& z) { return z.g == "gphase"; });
      (void)empty;
      require(op->actsOn(q) == (u.count(q) > 0), "actsOn(" + std::to_string(q) + ") after " + d);
    }
    const auto v = randState(s, nq);
    std::vector<char> bits; for (unsigned b = 0; b < NC; ++b) bits.push_back(static_cast<char>(s.below(2)));
    if (!nonUnitary) {
      const auto got = runOn(extract(*op, a), v, bits);
      const auto exp = runOn(core, v, bits, own);
      require(ref::dist(got, exp) < TOL, "the controlled operation does not act exactly where its controls are satisfied: " + d + " -> " + spec::show(extract(*op, a)));
    }
  }
  if (refusedN) c.label("refused");
  c.nontrivial = ok >= 2;
}
// ---------------------------------------------------------------- relabelling
void relabelling(Src& s, Ctx& c) {
  const auto nq = static_cast<unsigned>(s.range(1, 5));
  Kinds kinds; kinds.nonUnitary = s.chance(1, 3); kinds.barriers = s.coin();
  auto g = gen(s, nq, kinds);
  auto op = make(g);
  if (!g.body.empty() && !kinds.barriers && s.coin()) { // controls of the compound operation itself
    for (unsigned q = 0; q < nq; ++q) if (!op->actsOn(q) && !hasNonUnitary(g.o)) { try { op->addControl(qc::Control{q}); } catch (const std::exception&) {} break; }
  }
  const auto a = assign(s);
  auto want = extract(*op, a);
  std::vector<unsigned> p(nq); for (unsigned i = 0; i < nq; ++i) p[i] = i;
  s.shuffle(p);
  qc::Permutation perm;
  const auto& eff = p;
  for (unsigned i = 0; i < nq; ++i) perm[i] = p[i];
  std::string d = show(g) + " relabelled";
  for (unsigned i = 0; i < nq; ++i) d += " " + std::to_string(i) + ">" + std::to_string(eff[i]);
  c.desc(d);
  std::set<unsigned> wantQ; for (auto q : qubitsOf(want)) wantQ.insert(eff[q]);
  auto viaPerm = op->getUsedQubitsPermuted(perm);
  require(std::set<unsigned>(viaPerm.begin(), viaPerm.end()) == wantQ, "getUsedQubitsPermuted");
  auto ownC = op->getControls();
  auto moved = op->clone();
  moved->apply(perm);
  relabel(want, eff);
  auto got = extract(*moved, a);
  // barriers and resets may sort their qubits
  std::function<void(Op&)> norm = [&](Op& o) { if (o.kind == Op::Barrier || o.kind == Op::Reset) std::sort(o.ts.begin(), o.ts.end()); for (auto& b : o.body) norm(b); };
  norm(got); norm(want);
  require(spec::same(got, want), "relabelling gives " + spec::show(got));
  if (!g.body.empty()) { std::set<unsigned> x, y; for (auto& k : ownC) x.insert(eff[k.qubit] * 2 + (k.type == qc::Control::Type::Pos)); for (auto& k : moved->getControls()) y.insert(k.qubit * 2 + (k.type == qc::Control::Type::Pos)); require(x == y, "the compound operation's own controls are not relabelled"); }
  auto u = moved->getUsedQubits();
  require(std::set<unsigned>(u.begin(), u.end()) == wantQ && moved->getNqubits() == wantQ.size(), "getUsedQubits after relabelling");
  // back again
  qc::Permutation inv; for (unsigned i = 0; i < nq; ++i) inv[eff[i]] = i;
  moved->apply(inv);
  auto back = extract(*moved, a), orig = extract(*op, a);
  norm(back); norm(orig);
  require(spec::same(back, orig), "relabelling back does not restore the operation");
  c.nontrivial = eff != [&] { std::vector<unsigned> id(nq); for (unsigned i = 0; i < nq; ++i) id[i] = i; return id; }();
}
// ---------------------------------------------------------------- reports
bool diagonal(const ref::Mat& m) { for (std::size_t i = 0; i < m.n; ++i) for (std::size_t j = 0; j < m.n; ++j) if (i != j && std::abs(m(i, j)) > TOL) return false; return true; }
void reports(Src& s, Ctx& c) {
  const auto nq = static_cast<unsigned>(s.range(1, 4));
  Kinds kinds; kinds.nonUnitary = s.chance(1, 4);
  auto g = gen(s, nq, kinds);
  auto op = make(g);
  c.desc(show(g));
  c.nontrivial = true;
  const auto a = assign(s);
  const auto x = extract(*op, a);
  const auto used = qubitsOf(x);
  auto u = op->getUsedQubits();
  require(std::set<unsigned>(u.begin(), u.end()) == used && op->getNqubits() == used.size(), "getUsedQubits");
  for (unsigned q = 0; q < nq + 2; ++q) require(op->actsOn(q) == (used.count(q) > 0), "actsOn(" + std::to_string(q) + ")");
  const bool comp = x.kind == Op::Compound, cond = x.kind == Op::If, nonU = x.kind == Op::Measure || x.kind == Op::Reset;
  require(op->isCompoundOperation() == comp && op->isClassicControlledOperation() == cond && (comp || op->isNonUnitaryOperation() == nonU), "class of the operation");
  if (cond || nonU) require(!op->isUnitary(), "isUnitary");
  if (x.kind == Op::U) require(op->isUnitary(), "a gate is not unitary");
  std::function<bool(const GOp&)> anySym = [&](const GOp& z) { if (z.sym) return true; return std::any_of(z.body.begin(), z.body.end(), anySym); };
  require(op->isSymbolicOperation() == anySym(g), "isSymbolicOperation");
  std::function<bool(const Op&)> anyNonU = [&](const Op& z) { return z.kind == Op::Measure || z.kind == Op::Reset || (z.kind == Op::Compound && std::any_of(z.body.begin(), z.body.end(), anyNonU)); };
  if (comp) require(op->isNonUnitaryOperation() == std::any_of(x.body.begin(), x.body.end(), anyNonU), "isNonUnitaryOperation of a compound operation");
  if (x.kind == Op::U && x.g != "gphase") {
    require(op->isSingleQubitGate() == (x.cs.empty() && x.ts.size() == 1), "isSingleQubitGate");
    const auto m = spec::unitary({x}, nq);
    if (op->isDiagonalGate()) require(diagonal(m), "a gate that is not diagonal is reported to be diagonal");
    else if (!diagonal(spec::unitary({Op{Op::U, x.g, x.p, {}, x.ts, {}, {}}}, nq))) c.label("not diagonal");
    if (op->hasInterchangeableControls()) {
      require(x.ts.size() == 1, "interchangeable controls of a two-qubit gate");
      for (auto& k : x.cs) if (k.pos) { Op y = x; y.ts[0] = k.q; for (auto& z : y.cs) if (z.q == k.q) z.q = x.ts[0]; require(ref::dist(spec::unitary({y}, nq), m) < TOL, "exchanging control and target changes a gate reported to allow it"); c.label("exchanged"); }
    }
    require(op->getNcontrols() == x.cs.size() && op->getNtargets() == x.ts.size() && op->isControlled() == !x.cs.empty(), "numbers of controls and targets");
  }
  // depth
  std::vector<std::size_t> dep(nq), wantD(nq);
  for (auto& z : dep) z = s.below(4);
  wantD = dep;
  std::function<void(const Op&)> add = [&](const Op& o) {
    switch (o.kind) {
    case Op::Barrier: return;
    case Op::Measure: case Op::Reset: for (auto t : o.ts) ++wantD[t]; return;
    case Op::Compound: case Op::If: for (auto& b : o.body) add(b); return;
    case Op::U: { std::size_t mx = 0; auto qs = qubitsOf(o); for (auto q : qs) mx = std::max(mx, wantD[q]); for (auto q : qs) wantD[q] = mx + 1; return; }
    }
  };
  add(x);
  op->addDepthContribution(dep);
  require(dep == wantD, "addDepthContribution");
  // global: the same uncontrolled gate on every qubit
  for (std::size_t n = 0; n <= nq; ++n) {
    const bool gl = op->isGlobal(n);
    if (comp && gl && x.body.size() > 1) {
      require(used.size() == n, "a compound operation on " + std::to_string(used.size()) + " qubits is global on " + std::to_string(n));
      for (auto& b : x.body) require(b.kind == x.body[0].kind && (b.kind == Op::U || b.kind == Op::Barrier) && b.cs.empty() && b.g == x.body[0].g && b.p == x.body[0].p, "a compound operation of different gates is global");
      c.label("global compound");
    }
    if (x.kind == Op::U && !g.sym) require(gl == (used.size() == n), "isGlobal of a gate");
  }
  // printing never fails
  std::ostringstream os; op->print(os, nq);
}
// ---------------------------------------------------------------- commutation
void commuting(Src& s, Ctx& c) {
  const auto nq = static_cast<unsigned>(s.range(1, 4));
  Kinds kinds; kinds.ifs = s.chance(1, 4);
  GOp g[2];
  g[0] = gen(s, nq, kinds);
  if (s.chance(1, 2)) g[1] = gen(s, nq, kinds);
  else { // a variation of the same operation
    g[1] = g[0];
    GOp* t = &g[1];
    while (!t->body.empty()) t = &t->body[s.below(t->body.size())];
    Op& o = t->o;
    switch (s.below(5)) {
    case 0: if (t->sym) { for (auto& p : t->so.p) if (s.coin()) p = symspec::editExpr(s, p); } else for (auto& p : o.p) if (s.coin()) p = spec::genAngle(s); break;
    case 1: { auto& cs = t->sym ? t->so.cs : o.cs; for (auto& k : cs) if (s.coin()) k.pos = !k.pos; break; }
    case 2: { auto& cs = t->sym ? t->so.cs : o.cs; if (!cs.empty()) cs.pop_back(); break; }
    case 3: { std::vector<unsigned> m(nq); for (unsigned i = 0; i < nq; ++i) m[i] = i; s.shuffle(m); relabel(*t, m); break; }
    default: { auto& ts = t->sym ? t->so.ts : o.ts; std::reverse(ts.begin(), ts.end()); break; }
    }
  }
  auto a = make(g[0]), b = make(g[1]);
  c.desc(show(g[0]) + " and " + show(g[1]));
  bool all = true, some = false;
  for (unsigned q = 0; q < nq; ++q) {
    const bool x = a->commutesAtQubit(*b, q);
    if (!a->isClassicControlledOperation() && !b->isClassicControlledOperation() && !ifsOf(eval(g[0], {})) && !ifsOf(eval(g[1], {})))
      require(x == b->commutesAtQubit(*a, q), "commutesAtQubit is not symmetric at qubit " + std::to_string(q));
    all = all && x;
    some = some || (x && a->actsOn(q) && b->actsOn(q));
  }
  c.nontrivial = some;
  if (!all) return;
  c.label("commuting at every qubit");
  for (int k = 0; k < 3; ++k) {
    const auto as = assign(s);
    const auto x = eval(g[0], as), y = eval(g[1], as);
    const auto v = randState(s, nq);
    std::vector<char> bits; for (unsigned i = 0; i < NC; ++i) bits.push_back(static_cast<char>(s.below(2)));
    require(ref::dist(runOn(y, runOn(x, v, bits), bits), runOn(x, runOn(y, v, bits), bits)) < TOL, "operations that are said to commute at every qubit do not commute");
  }
}
// ---------------------------------------------------------------- compound operations as sequences
void sequence(Src& s, Ctx& c) {
  const auto nq = static_cast<unsigned>(s.range(1, 3));
  Kinds kinds; kinds.nonUnitary = true; kinds.sym = false;
  qc::CompoundOperation op;
  std::vector<Op> model;
  auto one = [&] { auto g = gen(s, nq, kinds, 2); return extract(*make(g), {}); };
  std::string d;
  const int n = s.sized(1, 12);
  for (int i = 0; i < n; ++i) {
    const auto k = s.below(9);
    const auto at = s.below(model.size() + 1);
    const auto pos = static_cast<std::ptrdiff_t>(at);
    auto x = one();
    switch (k) {
    case 0: case 1: { d += " append " + spec::show(x); auto u = spec::makeOp(x); if (s.coin()) op.emplace_back(std::move(u)); else op.emplace_back(u); model.push_back(x); break; }
    case 2: { d += " insert " + std::to_string(at) + " " + spec::show(x); auto u = spec::makeOp(x); auto it = op.insert(op.cbegin() + pos, std::move(u)); require(it - op.begin() == pos, "insert returns another position"); model.insert(model.begin() + pos, x); break; }
    case 3: if (at < model.size()) { d += " erase " + std::to_string(at); op.erase(op.cbegin() + pos); model.erase(model.begin() + pos); } break;
    case 4: if (at < model.size()) { auto e = at + s.below(model.size() - at + 1); d += " erase " + std::to_string(at) + ".." + std::to_string(e); op.erase(op.cbegin() + pos, op.cbegin() + static_cast<std::ptrdiff_t>(e)); model.erase(model.begin() + pos, model.begin() + static_cast<std::ptrdiff_t>(e)); } break;
    case 5: if (!model.empty()) { d += " pop"; op.pop_back(); model.pop_back(); } break;
    case 6: { // merge
      qc::CompoundOperation other;
      int m = s.range(0, 3);
      d += " merge " + std::to_string(m);
      for (int j = 0; j < m; ++j) { auto y = one(); other.emplace_back(spec::makeOp(y)); model.push_back(y); d += " " + spec::show(y); }
      op.merge(other);
      require(other.empty(), "merging leaves operations behind");
      break; }
    case 7: if (s.chance(1, 4)) { d += " clear"; op.clear(); model.clear(); } break;
    default: if (at < model.size()) { d += " replace " + std::to_string(at) + " " + spec::show(x); op[at] = spec::makeOp(x); model[at] = x; } break;
    }
    c.desc(d);
    require(spec::same(extract(op, {}).body, model), "the contents are " + spec::show(extract(op, {})));
    require(op.size() == model.size() && op.empty() == model.empty(), "size");
    Op whole; whole.kind = Op::Compound; whole.body = model;
    auto used = qubitsOf(whole);
    auto u = op.getUsedQubits();
    require(std::set<unsigned>(u.begin(), u.end()) == used, "getUsedQubits of the changed compound operation");
    const qc::CompoundOperation copy(op);
    require(copy == op && spec::same(extract(copy, {}), whole), "copy of the changed compound operation");
    // exactly one elementary operation inside
    std::function<const Op*(const Op&)> single = [&](const Op& o) -> const Op* { if (o.kind != Op::Compound) return &o; if (o.body.size() != 1) return nullptr; return single(o.body[0]); };
    const auto* o1 = single(whole);
    require(op.isConvertibleToSingleOperation() == (o1 != nullptr), "isConvertibleToSingleOperation");
    if (o1) { qc::CompoundOperation z(op); auto r = z.collapseToSingleOperation(); require(r && spec::same(extract(*r, {}), *o1), "collapseToSingleOperation"); c.label("collapsed"); }
  }
  c.nontrivial = n >= 3;
}
} // namespace

int main(int argc, char** argv) {
  pbt::Suite su;
  su.property = "C05";
  su.rule = "controls: at least two accepted changes; relabelling: not the identity; commuting: the operations share a qubit at which they are said to commute; sequence: at least three edits; reports: every case";
  su.assumptions = {"up to 5 qubits, 2 classical bits, compound nesting up to depth 3", "contents of a compound operation with own controls are not edited"};
  su.props = {{"controls", controls, 60000, 3000000}, {"relabelling", relabelling, 40000, 2000000}, {"reports", reports, 60000, 3000000}, {"commuting", commuting, 80000, 5000000}, {"sequence", sequence, 20000, 1000000}};
  return pbt::mainImpl(su, argc, argv);
}
