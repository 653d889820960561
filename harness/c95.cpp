// build: {"libs": ["ir"], "config": "asan", "mlir": true}
// C95: passes and translation of the MLIR dialect.
#include "mlirx.hpp"
using namespace pbt;

namespace {
const std::vector<std::string> G1 = {"x", "y", "z", "H", "I", "s", "sdg", "t", "tdg", "v", "vdg", "sx", "sxdg"};
const std::vector<std::string> G1P = {"p", "rx", "ry", "rz", "u2", "u"};
const std::vector<std::string> G2 = {"swap", "iswap", "iswapdg", "peres", "peresdg", "dcx", "ecr"};
const std::vector<std::string> G2P = {"rxx", "ryy", "rzz", "rzx", "xxminusyy", "xxplusyy"};
std::size_t nparams(const std::string& g) { return g == "u" ? 3 : g == "u2" || g == "xxminusyy" || g == "xxplusyy" ? 2 : 1; }
std::string inverseName(const std::string& g) {
  static const std::map<std::string, std::string> m = {{"s", "sdg"}, {"sdg", "s"}, {"t", "tdg"}, {"tdg", "t"}, {"v", "vdg"}, {"vdg", "v"}, {"sx", "sxdg"}, {"sxdg", "sx"}, {"iswap", "iswapdg"}, {"iswapdg", "iswap"}, {"peres", "peresdg"}, {"peresdg", "peres"}};
  auto it = m.find(g); return it == m.end() ? g : it->second;
}

// Writes a random function. Qubits are tracked by the name of their current value.
struct Gen {
  Src& s;
  std::string o;                 // text of the function body
  std::vector<std::string> q;    // current value of each live qubit
  std::vector<char> active;      // qubits that may be touched here
  std::vector<std::string> bits; // bits visible here
  std::vector<std::string> fs;   // floats visible everywhere
  int nv = 0, nb = 0, stmts = 0, measures = 0, branches = 0, gates = 0;
  bool flow, loops, repeat;
  std::vector<std::string> lastIn; std::string lastGate, lastShape; std::vector<unsigned> lastQ; std::size_t lastPos = 0;
  explicit Gen(Src& x, bool fl, bool lo, bool re) : s(x), flow(fl), loops(lo), repeat(re) {}
  std::string v() { return "%v" + std::to_string(nv++); }
  static std::string join(const std::vector<std::string>& l, const char* sep = ", ") { std::string r; for (auto& x : l) r += (r.empty() ? "" : sep) + x; return r; }
  std::vector<unsigned> pickQ() { std::vector<unsigned> r; for (unsigned i = 0; i < q.size(); ++i) if (active[i]) r.push_back(i); s.shuffle(r); return r; }
  void emitGate(const std::string& g, const std::vector<unsigned>& qs, std::size_t nt, std::size_t np, std::size_t nn, const std::string& params) {
    std::vector<std::string> outs, ins, ps, ns, ty;
    for (std::size_t i = 0; i < qs.size(); ++i) { auto& l = i < nt ? ins : i < nt + np ? ps : ns; l.push_back(q[qs[i]]); outs.push_back(v()); ty.push_back("!mqtopt.Qubit"); }
    (void)nn;
    if (!outs.empty()) o += "    " + join(outs) + " = "; else o += "    ";
    o += "mqtopt." + g + "(" + params + ") " + join(ins) + (ps.empty() ? "" : " ctrl " + join(ps)) + (ns.empty() ? "" : " nctrl " + join(ns)) + " : " + join(ty) + "\n";
    for (std::size_t i = 0; i < qs.size(); ++i) q[qs[i]] = outs[i];
    ++gates;
  }
  std::string num() { static const char* l[] = {"3.000000e-01", "-1.200000e+00", "1.570796e+00", "2.500000e+00", "-4.000000e-01"}; return l[s.below(5)]; }
  std::string paramText(std::size_t n) {
    std::vector<std::string> st, dy, mask; bool mixed = false;
    int how = static_cast<int>(s.below(3)); // static, dynamic, mixed
    for (std::size_t i = 0; i < n; ++i) {
      bool stat = how == 0 || (how == 2 && s.coin()) || fs.empty();
      if (stat) st.push_back(num()); else dy.push_back(s.pick(fs));
      mask.push_back(stat ? "true" : "false");
    }
    mixed = !st.empty() && !dy.empty();
    std::string r = join(dy);
    if (!st.empty()) r += (r.empty() ? "" : " ") + std::string("static [") + join(st) + "]";
    if (mixed || (!st.empty() && s.chance(1, 3))) r += " mask [" + join(mask) + "]";
    return r;
  }
  void gphase() {
    const bool st = fs.empty() || s.coin();
    o += "    \"mqtopt.GPhase\"(" + (st ? "" : s.pick(fs)) + ") <{operandSegmentSizes = array<i32: " + (st ? "0" : "1") + ", 0, 0, 0>" + (st ? ", static_params = array<f64: " + num() + ">" : "") + "}> : (" + (st ? "" : "f64") + ") -> ()\n";
    ++gates;
  }
  struct Rec { std::string g; std::vector<unsigned> qs; std::size_t nt = 0, np = 0, nn = 0; std::string params; };
  std::vector<Rec> history;
  void gate() {
    if (repeat && !history.empty() && s.chance(1, 2)) { // undo or nearly undo an earlier gate
      Rec r = history[history.size() - 1 - s.below(std::min<std::size_t>(history.size(), 3))];
      bool ok = true;
      for (auto x : r.qs) if (!active[x]) ok = false;
      if (ok) {
        if (s.chance(4, 5)) r.g = inverseName(r.g);
        if (s.chance(1, 5)) s.shuffle(r.qs);
        if (s.chance(1, 8) && r.np + r.nn > 0) { std::size_t t = r.np + r.nn; r.np = s.below(t + 1); r.nn = t - r.np; }
        emitGate(r.g, r.qs, r.nt, r.np, r.nn, r.params);
        history.push_back(r);
        return;
      }
    }
    auto qs = pickQ();
    if (qs.empty()) return;
    Rec r;
    int k = static_cast<int>(s.below(20));
    if (k == 0) { gphase(); return; }
    if (k == 1) { r.g = "barrier"; r.nt = 1 + s.below(qs.size()); qs.resize(r.nt); emitGate(r.g, qs, r.nt, 0, 0, ""); return; }
    if (k < 4 && qs.size() >= 2) { r.g = s.pick(G2); r.nt = 2; }
    else if (k < 5 && qs.size() >= 2) { r.g = s.pick(G2P); r.nt = 2; }
    else if (k < 8) { r.g = s.pick(G1P); r.nt = 1; }
    else { r.g = s.pick(G1); r.nt = 1; }
    std::size_t left = qs.size() - r.nt;
    std::size_t c = s.chance(1, 2) ? 0 : s.below(std::min<std::size_t>(left, 2) + 1);
    r.np = s.below(c + 1); r.nn = c - r.np;
    qs.resize(r.nt + c);
    r.qs = qs;
    bool par = std::find(G1P.begin(), G1P.end(), r.g) != G1P.end() || std::find(G2P.begin(), G2P.end(), r.g) != G2P.end();
    if (par) r.params = paramText(nparams(r.g));
    emitGate(r.g, qs, r.nt, r.np, r.nn, r.params);
    history.push_back(r);
  }
  std::string measure() {
    auto qs = pickQ();
    if (qs.empty()) return "";
    std::size_t k = s.chance(1, 6) && qs.size() > 1 ? 2 : 1;
    std::vector<std::string> outs, bs, ins, tq, tb;
    for (std::size_t i = 0; i < k; ++i) { ins.push_back(q[qs[i]]); outs.push_back(v()); bs.push_back(v()); tq.push_back("!mqtopt.Qubit"); tb.push_back("i1"); q[qs[i]] = outs[i]; }
    o += "    " + join(outs) + ", " + join(bs) + " = \"mqtopt.measure\"(" + join(ins) + ") : (" + join(tq) + ") -> (" + join(tq) + ", " + join(tb) + ")\n";
    for (auto& b : bs) bits.push_back(b);
    measures += static_cast<int>(k);
    return bs[0];
  }
  struct Edge { std::vector<std::string> args; };
  // arguments of a new block: the chosen qubits plus pass-through bits, in random order
  struct Param { bool qubit = true; unsigned i = 0; };
  static std::string branchTo(const std::string& label, const std::vector<std::string>& args, const std::vector<Param>& ps) {
    if (args.empty()) return label;
    std::string r = label + "(" + join(args) + " : ";
    for (std::size_t i = 0; i < ps.size(); ++i) r += (i ? ", " : "") + std::string(ps[i].qubit ? "!mqtopt.Qubit" : "i1");
    return r + ")";
  }
  std::vector<Param> params(const std::vector<char>& must, bool optional) {
    std::vector<Param> r;
    for (unsigned i = 0; i < q.size(); ++i) if (must[i] || (optional && active[i] && s.coin())) { Param p; p.i = i; r.push_back(p); }
    if (!bits.empty() && s.chance(1, 4)) { Param p; p.qubit = false; r.push_back(p); }
    s.shuffle(r);
    return r;
  }
  std::vector<std::string> args(const std::vector<Param>& ps) { std::vector<std::string> r; for (auto& p : ps) r.push_back(p.qubit ? q[p.i] : s.pick(bits)); return r; }
  void open(const std::string& label, const std::vector<Param>& ps) {
    o += "  " + label;
    std::string l;
    for (auto& p : ps) { auto n = v(); l += (l.empty() ? "" : ", ") + n + " : " + (p.qubit ? "!mqtopt.Qubit" : "i1"); if (p.qubit) q[p.i] = n; else bits.push_back(n); }
    if (!l.empty()) o += "(" + l + ")";
    o += ":\n";
  }
  std::string label() { return "^b" + std::to_string(nb++); }
  void branch(int depth) {
    if (bits.empty()) { if (measures < 4) measure(); if (bits.empty()) return; }
    ++branches;
    auto cond = s.pick(bits);
    auto snapQ = q, snapB = bits;
    int shape = static_cast<int>(s.below(4)); // both, then only, else only, neither
    auto tl = label(), el = label(), kl = label();
    const std::vector<char> none(q.size(), 0);
    struct Side { bool present = false; std::string entry, text; std::vector<std::string> q, bits; } side[2];
    std::string saved = std::move(o);
    for (int i = 0; i < 2; ++i) {
      side[i].present = shape == 0 || shape == 1 + i;
      q = snapQ; bits = snapB; o.clear();
      if (side[i].present) {
        auto ps = params(none, true);
        side[i].entry = branchTo(i ? el : tl, args(ps), ps);
        open(i ? el : tl, ps);
        seq(depth - 1, static_cast<int>(s.below(4)));
      }
      side[i].text = o; side[i].q = q; side[i].bits = bits;
    }
    // parameters of the block where the paths meet
    std::vector<char> must(q.size(), 0);
    for (unsigned i = 0; i < snapQ.size(); ++i) must[i] = side[0].q[i] != snapQ[i] || side[1].q[i] != snapQ[i];
    q = snapQ; bits = snapB;
    auto ps = params(must, s.coin());
    // a path may hand two qubits over in exchanged order
    for (int i = 0; i < 2; ++i) {
      q = side[i].q; bits = side[i].bits;
      if (s.chance(1, 6)) { std::vector<unsigned> m; for (auto& p : ps) if (p.qubit) m.push_back(p.i); if (m.size() > 1) std::swap(q[m[0]], q[m[1]]); }
      auto a = args(ps);
      auto t = branchTo(kl, a, ps);
      if (side[i].present) side[i].text += "    cf.br " + t + "\n"; else side[i].entry = t;
    }
    o = std::move(saved) + "    cf.cond_br " + cond + ", " + side[0].entry + ", " + side[1].entry + "\n" + side[0].text + side[1].text;
    q = snapQ; bits = snapB;
    open(kl, ps);
  }
  void loop(int depth) {
    ++branches;
    auto hl = label(), bl = label(), xl = label();
    std::vector<char> in(q.size(), 0), before = active;
    bool any = false;
    for (unsigned i = 0; i < q.size(); ++i) if (active[i] && s.chance(2, 3)) { in[i] = 1; any = true; }
    if (!any) return;
    active = in;
    auto hp = params(in, false);
    auto snapB = bits;
    o += "    cf.br " + branchTo(hl, args(hp), hp) + "\n";
    open(hl, hp);
    seq(0, static_cast<int>(s.below(3)));
    auto cond = measure();
    auto headQ = q, headB = bits;
    const std::vector<char> none(q.size(), 0);
    auto xp = params(none, true);
    auto bp = params(none, true);
    auto xe = branchTo(xl, args(xp), xp), be = branchTo(bl, args(bp), bp);
    const bool neg = s.coin();
    o += "    cf.cond_br " + cond + ", " + (neg ? xe : be) + ", " + (neg ? be : xe) + "\n";
    open(bl, bp);
    seq(std::min(depth - 1, 1), static_cast<int>(s.below(3)));
    o += "    cf.br " + branchTo(hl, args(hp), hp) + "\n";
    q = headQ; bits = headB;
    open(xl, xp);
    active = before;
  }
  void seq(int depth, int n) {
    for (int i = 0; i < n; ++i) {
      if (++stmts > 24) return;
      int k = static_cast<int>(s.below(10));
      if (flow && depth > 0 && k >= 7) { if (loops && k == 9 && measures < 4) loop(depth); else branch(depth); }
      else if (k == 6 && measures < 4) measure();
      else if (k == 5 && bits.size() >= 2) { auto n2 = v(); static const char* l[] = {"xori", "andi", "ori"}; o += "    " + n2 + " = arith." + l[s.below(3)] + " " + s.pick(bits) + ", " + s.pick(bits) + " : i1\n"; bits.push_back(n2); }
      else gate();
    }
  }
  std::string function() {
    std::string head = "func.func @f(";
    std::vector<std::string> a;
    unsigned nargs = s.range(0, 2), nbits = s.range(0, 2), nalloc = s.range(nargs ? 0 : 1, 2);
    for (unsigned i = 0; i < nargs; ++i) { a.push_back("%q" + std::to_string(i) + ": !mqtopt.Qubit"); q.push_back("%q" + std::to_string(i)); }
    for (unsigned i = 0; i < nbits; ++i) { a.push_back("%c" + std::to_string(i) + ": i1"); bits.push_back("%c" + std::to_string(i)); }
    if (s.coin()) { a.push_back("%p0: f64"); fs.push_back("%p0"); }
    if (s.coin()) { auto c = v(); o += "    " + c + " = arith.constant " + num() + " : f64\n"; fs.push_back(c); }
    std::string reg;
    unsigned regSize = 0;
    if (nalloc) {
      regSize = nalloc;
      reg = v();
      if (s.coin()) o += "    " + reg + " = \"mqtopt.allocQubitRegister\"() <{size_attr = " + std::to_string(nalloc) + " : i64}> : () -> !mqtopt.QubitRegister\n";
      else { auto c = v(); o += "    " + c + " = arith.constant " + std::to_string(nalloc) + " : i64\n    " + reg + " = \"mqtopt.allocQubitRegister\"(" + c + ") : (i64) -> !mqtopt.QubitRegister\n"; }
      std::vector<unsigned> idx; for (unsigned i = 0; i < nalloc; ++i) idx.push_back(i);
      s.shuffle(idx);
      for (auto i : idx) {
        auto r2 = v(), x = v();
        if (s.chance(3, 4)) o += "    " + r2 + ", " + x + " = \"mqtopt.extractQubit\"(" + reg + ") <{index_attr = " + std::to_string(i) + " : i64}> : (!mqtopt.QubitRegister) -> (!mqtopt.QubitRegister, !mqtopt.Qubit)\n";
        else { auto c = v(); o += "    " + c + " = arith.constant " + std::to_string(i) + " : i64\n    " + r2 + ", " + x + " = \"mqtopt.extractQubit\"(" + reg + ", " + c + ") : (!mqtopt.QubitRegister, i64) -> (!mqtopt.QubitRegister, !mqtopt.Qubit)\n"; }
        reg = r2; q.push_back(x);
      }
    }
    active.assign(q.size(), 1);
    seq(flow ? 2 : 0, s.sized(1, 14));
    // end: put qubits into the register or return them
    std::vector<std::string> ret, ty;
    std::vector<unsigned> order; for (unsigned i = 0; i < q.size(); ++i) order.push_back(i);
    s.shuffle(order);
    unsigned slot = 0;
    for (auto i : order) {
      int k = static_cast<int>(s.below(4));
      if (k == 0 && slot < regSize) { auto r2 = v(); o += "    " + r2 + " = \"mqtopt.insertQubit\"(" + reg + ", " + q[i] + ") <{index_attr = " + std::to_string(slot++) + " : i64}> : (!mqtopt.QubitRegister, !mqtopt.Qubit) -> !mqtopt.QubitRegister\n"; reg = r2; }
      else if (k != 1 || ret.empty()) { ret.push_back(q[i]); ty.push_back("!mqtopt.Qubit"); }
    }
    if (!reg.empty()) { if (s.chance(3, 4)) { ret.push_back(reg); ty.push_back("!mqtopt.QubitRegister"); } else o += "    \"mqtopt.deallocQubitRegister\"(" + reg + ") : (!mqtopt.QubitRegister) -> ()\n"; }
    for (auto& b : bits) if (s.chance(2, 3) && ret.size() < 9) { ret.push_back(b); ty.push_back("i1"); }
    o += "    return" + (ret.empty() ? "" : " " + join(ret) + " : " + join(ty)) + "\n";
    return head + join(a) + ") -> (" + join(ty) + ") {\n" + o + "}\n";
  }
};
std::string mod(const std::string& f) { return "module {\n" + f + "}\n"; }

std::vector<mlirx::Meaning> meaningOf(mlir::ModuleOp m, const char* when) {
  std::size_t paths = 0;
  try { return mlirx::meaning(m, paths); }
  catch (const std::exception& e) { fail(std::string(when) + ": " + e.what()); }
}
void runPass(mlirx::Session& ss, mlir::ModuleOp m, std::unique_ptr<mlir::Pass> p) {
  mlir::PassManager pm(&ss.ctx);
  pm.enableVerifier(true);
  pm.addPass(std::move(p));
  ss.diag.clear();
  if (mlir::failed(pm.run(m))) fail("the pass fails or yields invalid IR: " + ss.diag);
  if (mlir::failed(mlir::verify(m))) fail("invalid IR after the pass: " + ss.diag);
}
void transformed(Ctx& c, const std::string& text, const std::function<std::unique_ptr<mlir::Pass>()>& mk, const std::function<void(mlir::ModuleOp)>& post) {
  mlirx::Session ss;
  auto m = ss.parse(text);
  if (!m) fail("harness: program refused: " + ss.diag + "\n" + text);
  auto before = meaningOf(*m, "harness: original program");
  const auto p0 = mlirx::print(*m);
  runPass(ss, *m, mk());
  const auto p1 = mlirx::print(*m);
  if (p0 != p1) { c.nontrivial = true; c.label("changed"); }
  auto after = meaningOf(*m, "after the pass");
  auto e = mlirx::compare(before, after);
  if (!e.empty()) fail(e + "\nafter the pass:\n" + p1);
  if (post) post(*m);
}
void cancel(Src& s, Ctx& c) {
  Gen g(s, s.chance(1, 3), s.chance(1, 2), true);
  auto t = mod(g.function());
  c.desc(t);
  transformed(c, t, [] { return mqt::ir::opt::createCancelConsecutiveInverses(); }, [](mlir::ModuleOp m) {
    m.walk([&](mqt::ir::opt::UnitaryInterface u) {
      if (u->getNumResults() == 0) return;
      auto g1 = mlirx::Interp::gateName(u);
      if (g1.size() && (ref::numParams(g1) > 0 || g1 == "barrier" || g1 == "dcx")) return;
      mlir::Operation* next = nullptr;
      for (auto r : u->getResults()) { if (!r.hasOneUse()) return; auto* w = *r.getUsers().begin(); if (next && w != next) return; next = w; }
      auto n = mlir::dyn_cast<mqt::ir::opt::UnitaryInterface>(next);
      if (!n || mlirx::Interp::gateName(n) != inverseName(g1) || n->getNumOperands() != u->getNumResults()) return;
      for (unsigned i = 0; i < u->getNumResults(); ++i) if (n->getOperand(i) != u->getResult(i)) return;
      if (n.getPosCtrlQubits().size() != u.getPosCtrlQubits().size() || n.getNegCtrlQubits().size() != u.getNegCtrlQubits().size()) return;
      fail("two consecutive inverse gates remain (" + g1 + ")\n" + mlirx::print(m));
    });
  });
}
void sink(Src& s, Ctx& c) {
  Gen g(s, true, s.chance(1, 2), false);
  auto t = mod(g.function());
  c.desc(t);
  transformed(c, t, [] { return mqt::ir::opt::createQuantumSinkPass(); }, nullptr);
}
void both(Src& s, Ctx& c) {
  Gen g(s, true, s.chance(1, 2), true);
  auto t = mod(g.function());
  c.desc(t);
  mlirx::Session ss;
  auto m = ss.parse(t);
  if (!m) fail("harness: program refused: " + ss.diag + "\n" + t);
  auto before = meaningOf(*m, "harness: original program");
  int n = 1 + static_cast<int>(s.below(3));
  for (int i = 0; i < n; ++i) { if (s.coin()) runPass(ss, *m, mqt::ir::opt::createQuantumSinkPass()); else runPass(ss, *m, mqt::ir::opt::createCancelConsecutiveInverses()); }
  auto e = mlirx::compare(before, meaningOf(*m, "after the passes"));
  if (!e.empty()) fail(e + "\nafter the passes:\n" + mlirx::print(*m));
  c.nontrivial = g.branches > 0;
}
struct Quiet { // the pass prints to the standard output
  int saved;
  Quiet() { llvm::outs().flush(); fflush(stdout); saved = dup(1); int n = ::open("/dev/null", O_WRONLY); dup2(n, 1); close(n); }
  ~Quiet() { llvm::outs().flush(); dup2(saved, 1); close(saved); }
};
void roundTrip(Src& s, Ctx& c) {
  unsigned n = s.range(1, 4);
  std::vector<std::string> q(n);
  std::string o;
  int nv = 0;
  auto v = [&] { return "%v" + std::to_string(nv++); };
  auto reg = v();
  o += "    " + reg + " = \"mqtopt.allocQubitRegister\"() <{size_attr = " + std::to_string(n) + " : i64}> : () -> !mqtopt.QubitRegister\n";
  std::vector<unsigned> order; for (unsigned i = 0; i < n; ++i) order.push_back(i);
  if (s.chance(1, 3)) s.shuffle(order);
  std::size_t extracted = 0;
  auto extract = [&] { auto i = order[extracted++]; auto r2 = v(); q[i] = v(); o += "    " + r2 + ", " + q[i] + " = \"mqtopt.extractQubit\"(" + reg + ") <{index_attr = " + std::to_string(i) + " : i64}> : (!mqtopt.QubitRegister) -> (!mqtopt.QubitRegister, !mqtopt.Qubit)\n"; reg = r2; };
  const bool late = s.chance(1, 3);
  if (!late) while (extracted < n) extract();
  std::vector<std::string> bit(n);
  std::vector<char> live(n, 0);
  int ng = s.sized(0, 12), gates = 0, ctrls = 0;
  auto measure = [&](unsigned i) { auto r = v(); bit[i] = v(); o += "    " + r + ", " + bit[i] + " = \"mqtopt.measure\"(" + q[i] + ") : (!mqtopt.Qubit) -> (!mqtopt.Qubit, i1)\n"; q[i] = r; };
  for (int k = 0; k < ng; ++k) {
    if (late && extracted < n && s.chance(1, 2)) extract();
    std::vector<unsigned> av; for (unsigned i = 0; i < n; ++i) if (!q[i].empty()) av.push_back(i);
    if (av.empty()) continue;
    s.shuffle(av);
    if (s.chance(1, 8)) { if (bit[av[0]].empty()) measure(av[0]); continue; }
    static const char* gs[] = {"x", "H", "z", "y"};
    std::size_t nc = s.chance(1, 2) ? s.below(std::min<std::size_t>(av.size() - 1, 3) + 1) : 0;
    std::size_t np = s.chance(2, 3) ? nc : s.below(nc + 1);
    std::vector<std::string> outs, ps, ns, ty;
    std::string line;
    for (std::size_t j = 0; j <= nc; ++j) { outs.push_back(v()); ty.push_back("!mqtopt.Qubit"); if (j > 0) (j <= np ? ps : ns).push_back(q[av[j]]); }
    o += "    " + Gen::join(outs) + " = mqtopt." + gs[s.below(4)] + "() " + q[av[0]] + (ps.empty() ? "" : " ctrl " + Gen::join(ps)) + (ns.empty() ? "" : " nctrl " + Gen::join(ns)) + " : " + Gen::join(ty) + "\n";
    for (std::size_t j = 0; j <= nc; ++j) q[av[j]] = outs[j];
    ++gates; ctrls += static_cast<int>(nc);
  }
  while (extracted < n) extract();
  std::vector<unsigned> mo; for (unsigned i = 0; i < n; ++i) if (bit[i].empty()) mo.push_back(i);
  s.shuffle(mo);
  for (auto i : mo) measure(i);
  std::vector<std::string> ret{reg}, ty{"!mqtopt.QubitRegister"};
  for (auto& b : bit) { ret.push_back(b); ty.push_back("i1"); }
  auto t = mod("func.func @f() -> (" + Gen::join(ty) + ") {\n" + o + "    return " + Gen::join(ret) + " : " + Gen::join(ty) + "\n}\n");
  c.desc(t);
  c.nontrivial = gates >= 2;
  if (ctrls) c.label("controls");
  mlirx::Session ss;
  auto m = ss.parse(t);
  if (!m) fail("harness: program refused: " + ss.diag);
  auto before = meaningOf(*m, "harness: original program");
  {
    Quiet quiet;
    try { runPass(ss, *m, mqt::ir::opt::createMQTCoreRoundTrip()); }
    catch (const Fail&) { throw; }
    catch (const std::exception& e) { fail(std::string("the pass throws ") + e.what()); }
  }
  auto e = mlirx::compare(before, meaningOf(*m, "after the round trip"));
  if (!e.empty()) fail(e + "\nafter the round trip:\n" + mlirx::print(*m));
  int g2 = 0;
  m->walk([&](mqt::ir::opt::UnitaryInterface) { ++g2; });
  require(g2 == gates, "number of gates after the round trip: " + std::to_string(g2) + " instead of " + std::to_string(gates));
}
void text(Src& s, Ctx& c) {
  Gen g(s, s.coin(), s.coin(), false);
  auto t = mod(g.function());
  c.desc(t);
  mlirx::Session ss;
  auto m = ss.parse(t);
  if (!m) fail("a valid program is refused: " + ss.diag);
  auto before = meaningOf(*m, "harness: original program");
  std::string p;
  { llvm::raw_string_ostream os(p); mlir::OpPrintingFlags f; if (s.coin()) f.printGenericOpForm(); m->print(os, f); }
  auto m2 = ss.parse(p);
  if (!m2) fail("the printed program is refused: " + ss.diag + "\n" + p);
  require(mlirx::print(*m2) == mlirx::print(*m), "printing and parsing changes the program:\n" + p);
  auto e = mlirx::compare(before, meaningOf(*m2, "after printing"));
  require(e.empty(), e);
  c.nontrivial = g.gates >= 2;
}
// operations with wrong numbers of targets, controls, results or parameters are refused, others accepted
void verifier(Src& s, Ctx& c) {
  std::vector<std::string> all = G1;
  all.insert(all.end(), G1P.begin(), G1P.end()); all.insert(all.end(), G2.begin(), G2.end()); all.insert(all.end(), G2P.begin(), G2P.end());
  all.push_back("GPhase"); all.push_back("barrier");
  auto g = s.pick(all);
  const bool two = std::find(G2.begin(), G2.end(), g) != G2.end() || std::find(G2P.begin(), G2P.end(), g) != G2P.end();
  const bool par = std::find(G1P.begin(), G1P.end(), g) != G1P.end() || std::find(G2P.begin(), G2P.end(), g) != G2P.end() || g == "GPhase";
  const std::size_t wantT = g == "GPhase" ? 0 : two ? 2 : 1, wantP = par ? (g == "GPhase" ? 1 : nparams(g)) : 0;
  auto vary = [&](std::size_t x) { return s.chance(4, 5) ? x : s.below(4); };
  std::size_t nt = g == "barrier" ? s.below(4) : vary(wantT), np = s.chance(2, 3) ? 0 : s.below(2), nn = s.chance(2, 3) ? 0 : s.below(2), nst = 0, ndy = 0;
  std::size_t total = vary(wantP);
  nst = s.below(total + 1); ndy = total - nst;
  const bool mask = s.chance(nst && ndy ? 4 : 1, 5);
  std::vector<std::string> ml;
  std::size_t mtrue = 0, msize = 0;
  if (mask) { msize = vary(total); std::size_t left = vary(nst); for (std::size_t i = 0; i < msize; ++i) { bool b = left > 0 && (s.coin() || msize - i <= left); if (b) { --left; ++mtrue; } ml.push_back(b ? "true" : "false"); } }
  std::size_t nr = vary(nt + np + nn);
  bool ok = nr == nt + np + nn && total == wantP;
  if (g == "barrier") ok = ok && np + nn == 0; else ok = ok && nt == wantT;
  if (g == "GPhase") ok = ok && np + nn == 0 && nr == 0;
  if (mask) ok = ok && msize == wantP && mtrue == nst;
  else ok = ok && !(nst > 0 && ndy > 0);
  std::vector<std::string> a, ins, tin, tout, sp;
  for (std::size_t i = 0; i < ndy; ++i) { a.push_back("%p" + std::to_string(i) + ": f64"); ins.push_back("%p" + std::to_string(i)); tin.push_back("f64"); }
  for (std::size_t i = 0; i < nt + np + nn; ++i) { a.push_back("%q" + std::to_string(i) + ": !mqtopt.Qubit"); ins.push_back("%q" + std::to_string(i)); tin.push_back("!mqtopt.Qubit"); }
  for (std::size_t i = 0; i < nr; ++i) tout.push_back("!mqtopt.Qubit");
  for (std::size_t i = 0; i < nst; ++i) sp.push_back("0.5");
  std::string props = "operandSegmentSizes = array<i32: " + std::to_string(ndy) + ", " + std::to_string(nt) + ", " + std::to_string(np) + ", " + std::to_string(nn) + ">";
  if (nst) props += ", static_params = array<f64: " + Gen::join(sp) + ">";
  if (mask) props += ml.empty() ? ", params_mask = array<i1>" : ", params_mask = array<i1: " + Gen::join(ml) + ">";
  std::string t = mod("func.func @f(" + Gen::join(a) + ") {\n    " + (nr ? "%r:" + std::to_string(nr) + " = " : "") + "\"mqtopt." + g + "\"(" + Gen::join(ins) + ") <{" + props + "}> : (" + Gen::join(tin) + ") -> (" + Gen::join(tout) + ")\n    return\n}\n");
  c.desc(std::string(ok ? "valid " : "invalid ") + t);
  c.label(ok ? "valid" : "invalid");
  c.nontrivial = true;
  mlirx::Session ss;
  auto m = ss.parse(t);
  if (ok) require(static_cast<bool>(m), "a valid operation is refused: " + ss.diag); else require(!m, "an invalid operation is accepted");
}
} // namespace

int main(int argc, char** argv) {
  pbt::Suite su;
  su.property = "C95";
  su.rule = "a case is non-trivial if the pass changes the program (cancellation, sinking), there is control flow (sequences of passes), or the program has at least two gates (round trip, text); every verified operation";
  su.assumptions = {"up to 4 qubits, 24 statements, branches and loops nested up to depth 2, at most 9 measurements on a path", "round trip: one register, x/y/z/h with controls, every qubit measured once, register and bits returned in order (as documented)"};
  su.props = {{"cancel-inverses", cancel, 15000, 200000}, {"sink", sink, 20000, 300000}, {"sequences", both, 15000, 100000}, {"round-trip", roundTrip, 12000, 150000}, {"text", text, 4000, 40000}, {"verifier", verifier, 10000, 60000}};
  return pbt::mainImpl(su, argc, argv);
}
