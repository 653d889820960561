// Random OpenQASM 2/3 programs together with their meaning (a spec circuit).
#pragma once
#include "spec.hpp"

#include <functional>
#include <map>
#include <memory>

namespace qgen {
using namespace spec;

// ------------------------------------------------------------ expressions
struct Val { bool isInt = true; int64_t i = 0; double d = 0; double real() const { return isInt ? static_cast<double>(i) : d; } };
struct Expr {
  enum K { Int, Float, Name, Neg, Bin, Fun } k = Int;
  std::string text;  // literal, name, function
  char op = 0;
  int64_t i = 0; double d = 0;
  std::vector<std::shared_ptr<Expr>> kids;
};
using E = std::shared_ptr<Expr>;
using Env = std::map<std::string, Val>;
struct Undefined {};

inline Val eval(const Expr& e, const Env& env, bool v2) {
  auto chk = [](Val v) { if (v.isInt ? std::abs(static_cast<double>(v.i)) > 1e6 : !(std::abs(v.d) < 1e3)) throw Undefined{}; return v; };
  auto flt = [](double d) { Val v; v.isInt = false; v.d = d; return v; };
  auto itg = [](int64_t i) { Val v; v.i = i; return v; };
  switch (e.k) {
  case Expr::Int: return itg(e.i);
  case Expr::Float: return flt(e.d);
  case Expr::Name: { auto it = env.find(e.text); if (it == env.end()) throw std::logic_error("name " + e.text); return it->second; }
  case Expr::Neg: { Val v = eval(*e.kids[0], env, v2); if (v.isInt) v.i = -v.i; else v.d = -v.d; return v; }
  case Expr::Fun: {
    const double x = eval(*e.kids[0], env, v2).real();
    double r = 0;
    if (e.text == "sin") r = std::sin(x); else if (e.text == "cos") r = std::cos(x);
    else if (e.text == "tan") { if (std::abs(std::cos(x)) < 0.05) throw Undefined{}; r = std::tan(x); }
    else if (e.text == "exp") r = std::exp(x);
    else if (e.text == "ln") { if (x < 1e-2) throw Undefined{}; r = std::log(x); }
    else { if (x < 0) throw Undefined{}; r = std::sqrt(x); }
    return chk(flt(r)); }
  case Expr::Bin: {
    const Val a = eval(*e.kids[0], env, v2), b = eval(*e.kids[1], env, v2);
    const bool ints = a.isInt && b.isInt;
    switch (e.op) {
    case '+': return chk(ints ? itg(a.i + b.i) : flt(a.real() + b.real()));
    case '-': return chk(ints ? itg(a.i - b.i) : flt(a.real() - b.real()));
    case '*': return chk(ints ? itg(a.i * b.i) : flt(a.real() * b.real()));
    case '/':
      if (std::abs(b.real()) < 1e-2) throw Undefined{};
      if (ints && !v2) return itg(a.i / b.i);
      if (ints && a.i % b.i == 0) return itg(a.i / b.i);
      return chk(flt(a.real() / b.real()));
    default: { // power
      if (b.real() < 0 || b.real() > 4 || a.real() < 0 || std::abs(a.real()) < 1e-6) throw Undefined{};
      if (ints) { int64_t r = 1; for (int64_t n = 0; n < b.i; ++n) r *= a.i; return chk(itg(r)); }
      return chk(flt(std::pow(a.real(), b.real()))); }
    } }
  }
  throw std::logic_error("eval");
}

struct Gate { std::string name; std::vector<std::string> params, qubits; std::vector<Op> (*std)(const std::vector<double>&, const std::vector<unsigned>&) = nullptr; };

// standard gates: name -> (number of controls, base gate in spec, number of targets)
struct StdGate { unsigned controls; std::string base; unsigned targets; std::size_t params; };
inline const std::map<std::string, StdGate>& stdGates() {
  static const std::map<std::string, StdGate> m{
    {"p", {0, "p", 1, 1}}, {"u1", {0, "p", 1, 1}}, {"phase", {0, "p", 1, 1}}, {"cphase", {1, "p", 1, 1}}, {"cp", {1, "p", 1, 1}},
    {"id", {0, "i", 1, 0}}, {"u2", {0, "u2", 1, 2}}, {"u3", {0, "u", 1, 3}}, {"u", {0, "u", 1, 3}}, {"U", {0, "u", 1, 3}},
    {"x", {0, "x", 1, 0}}, {"cx", {1, "x", 1, 0}}, {"CX", {1, "x", 1, 0}}, {"ccx", {2, "x", 1, 0}}, {"c3x", {3, "x", 1, 0}}, {"c4x", {4, "x", 1, 0}},
    {"rx", {0, "rx", 1, 1}}, {"crx", {1, "rx", 1, 1}}, {"y", {0, "y", 1, 0}}, {"cy", {1, "y", 1, 0}}, {"ry", {0, "ry", 1, 1}}, {"cry", {1, "ry", 1, 1}},
    {"z", {0, "z", 1, 0}}, {"cz", {1, "z", 1, 0}}, {"rz", {0, "rz", 1, 1}}, {"crz", {1, "rz", 1, 1}}, {"h", {0, "h", 1, 0}}, {"ch", {1, "h", 1, 0}},
    {"s", {0, "s", 1, 0}}, {"sdg", {0, "sdg", 1, 0}}, {"t", {0, "t", 1, 0}}, {"tdg", {0, "tdg", 1, 0}}, {"sx", {0, "sx", 1, 0}}, {"sxdg", {0, "sxdg", 1, 0}},
    {"swap", {0, "swap", 2, 0}}, {"cswap", {1, "swap", 2, 0}}, {"iswap", {0, "iswap", 2, 0}}, {"iswapdg", {0, "iswapdg", 2, 0}},
    {"rxx", {0, "rxx", 2, 1}}, {"ryy", {0, "ryy", 2, 1}}, {"rzz", {0, "rzz", 2, 1}}, {"rzx", {0, "rzx", 2, 1}}, {"dcx", {0, "dcx", 2, 0}}, {"ecr", {0, "ecr", 2, 0}},
    {"xx_minus_yy", {0, "xx_minus_yy", 2, 2}}, {"xx_plus_yy", {0, "xx_plus_yy", 2, 2}}};
  return m;
}
inline Op inverse(Op o) {
  if (o.kind == Op::Barrier) return o;
  static const std::map<std::string, std::string> dual{{"s", "sdg"}, {"sdg", "s"}, {"t", "tdg"}, {"tdg", "t"}, {"sx", "sxdg"}, {"sxdg", "sx"}, {"iswap", "iswapdg"}, {"iswapdg", "iswap"}};
  if (auto it = dual.find(o.g); it != dual.end()) { o.g = it->second; return o; }
  if (o.g == "dcx") { std::swap(o.ts[0], o.ts[1]); return o; }
  if (o.g == "u2") { o.p = {-o.p[1] - M_PI, -o.p[0] + M_PI}; return o; }
  if (o.g == "u") { o.p = {-o.p[0], -o.p[2], -o.p[1]}; return o; }
  if (o.g == "xx_minus_yy" || o.g == "xx_plus_yy") { o.p[0] = -o.p[0]; return o; }
  for (auto& p : o.p) p = -p;
  return o;
}
inline std::vector<Op> inverse(const std::vector<Op>& ops) { std::vector<Op> r; for (auto it = ops.rbegin(); it != ops.rend(); ++it) r.push_back(inverse(*it)); return r; }
inline std::vector<Op> controlled(std::vector<Op> ops, const std::vector<Ctrl>& cs) {
  for (auto& o : ops) if (o.kind == Op::U) { o.cs.insert(o.cs.end(), cs.begin(), cs.end()); std::sort(o.cs.begin(), o.cs.end()); }
  return ops;
}

// A call of a gate, with operands given by name (in a gate body) or by index.
struct Call {
  bool barrier = false;
  std::string gate;
  std::vector<E> args;
  struct Mod { char kind; int n; }; // 'i' inv, 'c' ctrl, 'n' negctrl; n = 0: without number
  std::vector<Mod> mods;
  std::vector<unsigned> qs;         // index into the qubits of the surrounding scope
};
struct UserGate { std::string name; std::vector<std::string> params, qubits; std::vector<Call> body; };

struct Program {
  bool v2 = false;
  Circ circ;                                  // expected meaning
  std::vector<std::string> lines;             // statements
  std::string head;
  Env consts;
  std::map<std::string, UserGate> user;
  bool qelib = false;
  std::map<std::string, unsigned> labels;
  std::string text(bool extra = true) const { std::string r = head; for (auto& l : lines) r += l + "\n"; (void)extra; return r; }
};

struct Gen {
  pbt::Src& s;
  Program p;
  unsigned maxQ;
  bool dynamic;
  std::vector<std::string> names;
  std::size_t nextName = 0;

  Gen(pbt::Src& src, unsigned mq, bool dyn) : s(src), maxQ(mq), dynamic(dyn) {
    names = {"q", "a", "b", "c", "reg", "foo", "cfoo", "x1", "theta", "lambda", "_t", "N", "gx", "ccg", "my_gate", "Q", "d0", "aux", "phi", "measured", "k", "w", "u4", "cx2", "rot", "beta2", "zz", "cnot", "r", "\xCE\xB8", "data", "cr1"};
    s.shuffle(names);
  }
  std::string fresh() { if (nextName >= names.size()) return "n" + std::to_string(nextName++); return names[nextName++]; }
  void label(const std::string& l) { p.labels[l]++; }

  // white space or a comment between two tokens
  std::string gap(bool required = false) {
    switch (s.below(24)) {
    case 0: return "  ";
    case 1: return "\n";
    case 2: return "\t ";
    case 3: return s.pick<std::string>({"/* i 1 0 */", "/**/", "/* x q[0]; */ ", " /* a * b / c ** / */ "});
    case 4: return s.pick<std::string>({" // apply pi 2 times\n", " // see o 1 2 3 there\n", "// to do 1\n", " //\n", " // x q[0]; */ /*\n"});
    default: return required ? " " : s.chance(1, 3) ? " " : "";
    }
  }

  // ---------------- expressions
  E lit(bool integer) {
    auto e = std::make_shared<Expr>();
    if (integer) {
      e->k = Expr::Int;
      e->i = s.chance(3, 4) ? s.range(0, 6) : s.range(0, 300);
      char buf[64];
      switch (p.v2 ? 0 : s.below(8)) {
      case 1: std::snprintf(buf, sizeof buf, s.coin() ? "0x%lx" : "0X%lX", static_cast<unsigned long>(e->i)); e->text = buf; break;
      case 2: std::snprintf(buf, sizeof buf, "0o%lo", static_cast<unsigned long>(e->i)); e->text = buf; break;
      case 3: { std::string b; for (auto v = e->i; v > 0; v /= 2) b = (v % 2 ? "1" : "0") + b; e->text = (s.coin() ? "0b" : "0B") + (b.empty() ? "0" : b); break; }
      case 4: e->text = std::to_string(e->i); if (e->text.size() > 1) e->text.insert(1, "_"); break;
      default: e->text = std::to_string(e->i);
      }
    } else {
      e->k = Expr::Float;
      e->text = s.pick<std::string>({"0.5", ".25", "2.", "1e-1", "1.5E0", "3.0", "0.125", "25e-2", "0.7", "1.1", "2.5e+0", "0.0", "12.75", "1E1", "00.5"});
      e->d = std::stod(e->text);
    }
    return e;
  }
  E expr(const Env& env, int depth) {
    auto e = std::make_shared<Expr>();
    if (depth <= 0 || s.chance(1, 5)) {
      switch (s.below(6)) {
      case 0: case 1: return lit(true);
      case 2: return lit(false);
      default: {
        e->k = Expr::Name;
        std::vector<std::string> ns;
        for (auto& [n, v] : env) ns.push_back(n);
        e->text = s.chance(1, 3) ? std::string("pi") : s.pick(ns);
        return e; }
      }
    }
    switch (s.below(8)) {
    case 0: e->k = Expr::Neg; e->kids = {expr(env, depth - 1)}; return e;
    case 1: e->k = Expr::Fun; e->text = s.pick<std::string>({"sin", "cos", "tan", "exp", "ln", "sqrt"}); e->kids = {expr(env, depth - 1)}; return e;
    default:
      e->k = Expr::Bin;
      e->op = s.pick<char>({'+', '-', '*', '/', '+', '-', '*', '/', p.v2 ? '^' : '-'});
      e->kids = {expr(env, depth - 1), expr(env, depth - 1)};
      return e;
    }
  }
  static int prec(const Expr& e) { return e.k == Expr::Bin ? (e.op == '+' || e.op == '-' ? 1 : e.op == '^' ? 4 : 2) : e.k == Expr::Neg ? 3 : 9; }
  std::string render(const Expr& e) {
    auto par = [&](const Expr& k, bool need) { return need || s.chance(1, 8) ? "(" + gapx() + render(k) + gapx() + ")" : render(k); };
    switch (e.k) {
    case Expr::Neg: { auto& k = *e.kids[0]; return "-" + gapx() + par(k, prec(k) <= 2 || k.k == Expr::Neg || prec(k) == 4); }
    case Expr::Fun: return e.text + gapx() + "(" + render(*e.kids[0]) + ")";
    case Expr::Bin: {
      const int pr = prec(e);
      auto& a = *e.kids[0]; auto& b = *e.kids[1];
      const bool pa = pr == 4 ? prec(a) < 9 : (prec(a) < pr);
      const bool pb = pr == 4 ? prec(b) < 9 : (prec(b) <= pr);
      std::string r = par(a, pa), t = par(b, pb);
      const std::string g1 = s.chance(1, 3) ? " " : "", g2 = (t[0] == '-' || t[0] == '/' || s.chance(1, 3)) ? " " : "";
      // a literal directly before the operator must not swallow it
      return r + g1 + e.op + g2 + t; }
    default: return e.text;
    }
  }
  std::string gapx() { return s.chance(1, 10) ? " " : ""; }

  static Env withPi(Env e) { Val v; v.isInt = false; v.d = M_PI; e["pi"] = v; v.d = 2 * M_PI; e["tau"] = v; v.d = M_E; e["euler"] = v; v.d = M_PI; e["\xCF\x80"] = v; return e; }
  static Env withPi2(Env e) { Val v; v.isInt = false; v.d = M_PI; e["pi"] = v; return e; }
  Env globals() { return p.v2 ? withPi2(p.consts) : withPi(p.consts); }

  E defined(const Env& env, int depth) {
    for (int t = 0; t < 6; ++t) {
      auto e = expr(env, depth);
      try { if (std::abs(eval(*e, env, p.v2).real()) < 1e3) return e; } catch (const Undefined&) {}
    }
    return lit(false);
  }

  // ---------------- gates
  struct Sig { unsigned params, qubits; };
  bool isMc(const std::string& g) { return g == "mcx" || g == "mcx_gray" || g == "mcphase" || g == "mcx_vchain" || g == "mcx_recursive"; }
  // implicit controls of OpenQASM 2 names: ccz, csx, cu3, ...
  // the operations of a call on concrete qubits
  std::vector<Op> expand(const Call& c, const Env& env, const std::vector<unsigned>& scope) {
    std::vector<unsigned> qs;
    for (auto i : c.qs) qs.push_back(scope.at(i));
    if (c.barrier) { Op o; o.kind = Op::Barrier; o.ts = qs; return {o}; }
    std::vector<Ctrl> cs;
    std::size_t pos = 0;
    bool inv = false;
    for (auto& m : c.mods) {
      if (m.kind == 'i') { inv = !inv; continue; }
      for (int k = 0; k < std::max(1, m.n); ++k) cs.push_back({qs.at(pos++), m.kind == 'c'});
    }
    std::vector<unsigned> rest(qs.begin() + static_cast<long>(pos), qs.end());
    std::vector<double> args;
    for (auto& a : c.args) args.push_back(eval(*a, env, p.v2).real());
    std::vector<Op> r;
    if (auto it = p.user.find(c.gate); it != p.user.end()) {
      Env inner = globals();
      for (std::size_t i = 0; i < it->second.params.size(); ++i) { Val v; v.isInt = false; v.d = args[i]; inner[it->second.params[i]] = v; }
      for (auto& b : it->second.body) for (auto& o : expand(b, inner, rest)) r.push_back(o);
    } else if (c.gate == "gphase") {
      Op o; o.g = "gphase"; o.p = args; r = {o};
    } else if (c.gate == "cu") {
      Op a; a.g = "p"; a.p = {args.at(3)}; a.ts = {rest.at(0)};
      Op b; b.g = "u"; b.p = {args[0], args[1], args[2]}; b.cs = {{rest[0], true}}; b.ts = {rest.at(1)};
      r = {a, b};
    } else if (c.gate == "rccx" || c.gate == "rc3x") {
      r = lib(c.gate, rest);
    } else if (isMc(c.gate)) {
      std::size_t n = rest.size();
      if (c.gate == "mcx_vchain") n = (n + 1) / 2 + 1; // k controls, a target, k - 2 ancillas
      if (c.gate == "mcx_recursive" && n > 5) n -= 1;
      Op o; o.g = c.gate == "mcphase" ? "p" : "x"; o.p = args;
      for (std::size_t i = 0; i + 1 < n; ++i) o.cs.push_back({rest[i], true});
      o.ts = {rest[n - 1]};
      std::sort(o.cs.begin(), o.cs.end());
      r = {o};
    } else {
      std::string g = c.gate;
      unsigned extra = 0;
      if (!stdGates().count(g)) { while (!stdGates().count(g) || (g[0] == 'c' && stdGates().count(g.substr(1)))) { g = g.substr(1); ++extra; } }
      auto& d = stdGates().at(g);
      Op o; o.g = d.base; o.p = args;
      for (unsigned i = 0; i < d.controls + extra; ++i) o.cs.push_back({rest.at(i), true});
      for (unsigned i = 0; i < d.targets; ++i) o.ts.push_back(rest.at(d.controls + extra + i));
      std::sort(o.cs.begin(), o.cs.end());
      r = {o};
    }
    if (inv) r = inverse(r);
    return controlled(r, cs);
  }
  // relative-phase Toffoli gates as defined in qelib1.inc
  std::vector<Op> lib(const std::string& g, const std::vector<unsigned>& q) {
    std::vector<Op> r;
    auto u2 = [&](unsigned t) { Op o; o.g = "u2"; o.p = {0, M_PI}; o.ts = {t}; r.push_back(o); };
    auto u1 = [&](double a, unsigned t) { Op o; o.g = "p"; o.p = {a}; o.ts = {t}; r.push_back(o); };
    auto cx = [&](unsigned a, unsigned b) { Op o; o.g = "x"; o.cs = {{a, true}}; o.ts = {b}; r.push_back(o); };
    const double f = M_PI / 4;
    if (g == "rccx") { u2(q[2]); u1(f, q[2]); cx(q[1], q[2]); u1(-f, q[2]); cx(q[0], q[2]); u1(f, q[2]); cx(q[1], q[2]); u1(-f, q[2]); u2(q[2]); }
    else {
      u2(q[3]); u1(f, q[3]); cx(q[2], q[3]); u1(-f, q[3]); u2(q[3]); cx(q[0], q[3]); u1(f, q[3]); cx(q[1], q[3]); u1(-f, q[3]); cx(q[0], q[3]); u1(f, q[3]); cx(q[1], q[3]); u1(-f, q[3]); u2(q[3]); u1(f, q[3]); cx(q[2], q[3]); u1(-f, q[3]); u2(q[3]);
    }
    return r;
  }
  // a random call on a scope with n qubits; false if nothing fits
  Call call(unsigned n, const Env& env, bool allowBarrier) {
    Call c;
    if (allowBarrier && s.chance(1, 12)) { c.barrier = true; c.qs = distinctQubits(s, n, static_cast<unsigned>(s.range(1, static_cast<int>(n)))); return c; }
    unsigned np = 0, nq = 0;
    for (int tries = 0;; ++tries) {
      if (tries > 30) { c.gate = "h"; np = 0; nq = 1; break; }
      const auto r = s.below(20);
      if (r < 6 && !p.user.empty()) {
        std::vector<std::string> us; for (auto& [k, v] : p.user) us.push_back(k);
        c.gate = s.pick(us);
        np = static_cast<unsigned>(p.user[c.gate].params.size()); nq = static_cast<unsigned>(p.user[c.gate].qubits.size());
      } else if (r == 6) { c.gate = s.pick<std::string>({"mcx", "mcx_gray", "mcphase", "mcx_vchain", "mcx_recursive"}); np = c.gate == "mcphase" ? 1 : 0; nq = static_cast<unsigned>(s.range(2, static_cast<int>(std::max(2U, n)))); if (c.gate == "mcx_vchain" && nq != 2 && nq != 3 && nq != 5) continue; if (p.user.count(c.gate)) continue; }
      else if (r == 7 && p.v2) { // implicit controls
        c.gate = s.pick<std::string>({"csx", "ccz", "cccx", "cu3", "cu1", "crxx", "ccrz", "csdg", "cciswap", "cu2", "cecr", "cxx_plus_yy", "cch", "ccswap", "cdcx", "ct", "cid"});
        std::string g = c.gate; unsigned k = 0;
        while (!g.empty() && g[0] == 'c') { g = g.substr(1); ++k; }
        np = static_cast<unsigned>(stdGates().at(g).params); nq = k + stdGates().at(g).targets;
      } else if (r == 8 && p.qelib) { c.gate = s.coin() ? "rccx" : "rc3x"; np = 0; nq = c.gate == "rccx" ? 3 : 4; }
      else if (r == 10) { c.gate = "cu"; np = 4; nq = 2; }
      else if (r == 9 && !p.v2) { c.gate = "gphase"; np = 1; nq = 0; }
      else {
        std::vector<std::string> gs; for (auto& [k, v] : stdGates()) gs.push_back(k);
        c.gate = s.pick(gs);
        auto& d = stdGates().at(c.gate); np = static_cast<unsigned>(d.params); nq = d.controls + d.targets;
      }
      if (nq <= n) break;
    }
    for (unsigned i = 0; i < np; ++i) c.args.push_back(defined(env, s.range(0, 3)));
    if (!p.v2) {
      unsigned left = n - nq;
      while (s.chance(3, 10)) {
        const auto k = s.below(3);
        if (k == 0) { c.mods.push_back({'i', 0}); continue; }
        if (left == 0) continue;
        const int m = s.chance(1, 3) ? s.range(1, static_cast<int>(left)) : 0;
        c.mods.push_back({k == 1 ? 'c' : 'n', m});
        const unsigned use = static_cast<unsigned>(std::max(1, m));
        left -= use; nq += use;
      }
    }
    c.qs = distinctQubits(s, n, nq);
    return c;
  }
  std::string mods(const Call& c) {
    std::string r;
    for (auto& m : c.mods) {
      r += m.kind == 'i' ? "inv" : m.kind == 'c' ? "ctrl" : "negctrl";
      if (m.n > 0) r += "(" + (s.chance(1, 4) ? std::to_string(m.n + 1) + "-1" : std::to_string(m.n)) + ")";
      r += gap() + "@" + gap(true);
    }
    return r;
  }
  std::string renderCall(const Call& c, const std::vector<std::string>& operand) {
    std::string r = c.barrier ? "barrier" : mods(c) + c.gate;
    if (!c.args.empty() || (!c.barrier && s.chance(1, 20))) {
      r += gap() + "(";
      for (std::size_t i = 0; i < c.args.size(); ++i) r += (i ? "," : "") + gap() + render(*c.args[i]);
      r += gap() + ")";
    }
    for (std::size_t i = 0; i < operand.size(); ++i) r += (i ? "," : "") + gap(i == 0) + operand[i];
    return r + gap() + ";";
  }

  // ---------------- registers
  std::string indexText(unsigned i) { return s.chance(1, 8) ? std::to_string(i + 1) + "-1" : s.chance(1, 10) ? "0+" + std::to_string(i) : std::to_string(i); }
  std::string qubitRef(unsigned q, bool = false) {
    unsigned st = 0;
    for (auto& r : p.circ.qregs) {
      if (q < st + r.size) { if (r.size == 1 && s.chance(1, 4)) return r.name; return r.name + gapx() + "[" + (p.v2 ? std::to_string(q - st) : indexText(q - st)) + "]"; }
      st += r.size;
    }
    throw std::logic_error("qubitRef");
  }
  std::string bitRef(unsigned b) {
    unsigned st = 0;
    for (auto& r : p.circ.cregs) {
      if (b < st + r.size) { if (r.size == 1 && s.chance(1, 4)) return r.name; return r.name + "[" + (p.v2 ? std::to_string(b - st) : indexText(b - st)) + "]"; }
      st += r.size;
    }
    throw std::logic_error("bitRef");
  }
  static unsigned startOf(const std::vector<Reg>& rs, std::size_t k) { unsigned st = 0; for (std::size_t i = 0; i < k; ++i) st += rs[i].size; return st; }
  void declQ(unsigned size) {
    const auto n = fresh();
    std::string sz = std::to_string(size);
    if (p.v2 || s.chance(1, 5)) p.lines.push_back("qreg" + gap(true) + n + gap() + "[" + sz + "];");
    else if (size == 1 && s.coin()) p.lines.push_back("qubit" + gap(true) + n + ";");
    else p.lines.push_back("qubit" + gap() + "[" + (s.chance(1, 6) ? "2*" + std::to_string(size) + "-" + sz : sz) + "]" + gap(true) + n + ";");
    p.circ.qregs.push_back({n, size, false}); p.circ.nq += size;
  }
  void declC(unsigned size) {
    const auto n = fresh();
    const std::string sz = std::to_string(size);
    // a declaration initialised with a measurement
    std::vector<std::size_t> fit;
    for (std::size_t k = 0; k < p.circ.qregs.size(); ++k) if (p.circ.qregs[k].size == size) fit.push_back(k);
    const bool init = dynamic && !p.v2 && !fit.empty() && s.chance(1, 4);
    std::string l;
    if (p.v2 || (s.chance(1, 5) && !init)) l = "creg" + gap(true) + n + gap() + "[" + sz + "]";
    else if (size == 1 && s.coin()) l = "bit" + gap(true) + n;
    else l = "bit" + gap() + "[" + sz + "]" + gap(true) + n;
    const unsigned st = p.circ.nc;
    p.circ.cregs.push_back({n, size, false}); p.circ.nc += size;
    if (init) {
      const auto k = s.pick(fit);
      l += gap() + "=" + gap() + "measure" + gap(true) + p.circ.qregs[k].name;
      Op o; o.kind = Op::Measure;
      for (unsigned i = 0; i < size; ++i) { o.ts.push_back(startOf(p.circ.qregs, k) + i); o.bits.push_back(st + i); }
      p.circ.ops.push_back(o);
      label("declaration with measurement");
    }
    p.lines.push_back(l + ";");
  }
  void declConst() {
    const auto n = fresh();
    const auto env = globals();
    auto e = defined(env, s.range(0, 3));
    Val v = eval(*e, env, false);
    v.d = v.real(); v.isInt = false;
    p.lines.push_back("const" + gap(true) + (s.coin() ? "float" : "float[64]") + gap(true) + n + gap() + "=" + gap() + render(*e) + ";");
    p.consts[n] = v;
    label("constants");
  }
  void declGate() {
    UserGate g;
    g.name = fresh();
    std::vector<std::string> used;
    auto local = [&] { // local names may shadow global ones
      for (int t = 0; t < 10; ++t) {
        std::string n;
        std::vector<std::string> glob;
        for (auto& [k, v] : p.consts) glob.push_back(k);
        for (auto& r : p.circ.qregs) glob.push_back(r.name);
        for (auto& r : p.circ.cregs) glob.push_back(r.name);
        for (auto& [k, u] : p.user) for (auto& x : u.params) glob.push_back(x);
        if (!glob.empty() && s.chance(1, 3)) { n = s.pick(glob); label("shadowing"); }
        else n = s.pick<std::string>({"a", "b", "c", "t", "p0", "th", "ph", "la", "q0", "q1", "z_", "e"});
        if (std::find(used.begin(), used.end(), n) == used.end() && n != g.name) { used.push_back(n); return n; }
      }
      auto n = "v" + std::to_string(used.size()); used.push_back(n); return n;
    };
    const int np = s.range(0, 3);
    const int nq = s.range(1, static_cast<int>(std::min(3U, maxQ)));
    for (int i = 0; i < np; ++i) g.params.push_back(local());
    for (int i = 0; i < nq; ++i) g.qubits.push_back(local());
    // names visible in the body: parameters, constants that are not shadowed
    Env env = globals();
    for (auto& q : g.qubits) env.erase(q);
    const std::vector<double> sample{0.7, 1.9, 0.3};
    for (std::size_t i = 0; i < g.params.size(); ++i) { Val v; v.isInt = false; v.d = sample[i]; env[g.params[i]] = v; }
    std::string t = "gate" + gap(true) + g.name;
    if (np > 0) { t += gap() + "("; for (int i = 0; i < np; ++i) t += (i ? "," : "") + gap() + g.params[static_cast<std::size_t>(i)]; t += ")"; }
    for (int i = 0; i < nq; ++i) t += (i ? "," : "") + gap(i == 0) + g.qubits[static_cast<std::size_t>(i)];
    t += gap() + "{";
    const int nb = s.chance(1, 3) ? 1 : s.range(0, 4);
    for (int i = 0; i < nb; ++i) {
      auto c = call(static_cast<unsigned>(nq), env, true);
      std::vector<std::string> on;
      for (auto q : c.qs) on.push_back(g.qubits[q]);
      t += gap(true) + renderCall(c, on);
      g.body.push_back(c);
    }
    t += gap() + "}";
    p.lines.push_back(t);
    p.user[g.name] = g;
    label("gate definitions");
  }
  // expressions of gate bodies must stay defined for the actual arguments
  bool valid(const Call& c, const Env& env) {
    try { std::vector<unsigned> all(16); for (unsigned i = 0; i < 16; ++i) all[i] = i; (void)expand(c, env, all); return true; } catch (const Undefined&) { return false; }
  }
  Call validCall() {
    const auto env = globals();
    for (int t = 0; t < 8; ++t) { auto c = call(p.circ.nq, env, false); if (valid(c, env)) return c; }
    Call c; c.gate = "x"; c.qs = {static_cast<unsigned>(s.below(p.circ.nq))}; return c;
  }
  std::vector<Op> concrete(const Call& c) {
    std::vector<unsigned> all(p.circ.nq);
    for (unsigned i = 0; i < p.circ.nq; ++i) all[i] = i;
    return expand(c, globals(), all);
  }
  // a call as text together with its operations, possibly broadcasting over registers
  std::string gateStatement(std::vector<Op>& ops) {
    auto c = validCall();
    for (auto& m : c.mods) label(m.kind == 'i' ? "inv" : m.kind == 'c' ? "ctrl" : "negctrl");
    if (p.user.count(c.gate)) label("calls of defined gates");
    if (isMc(c.gate)) label("mcx/mcphase");
    // broadcasting
    std::map<unsigned, std::vector<std::size_t>> bySize;
    for (std::size_t k = 0; k < p.circ.qregs.size(); ++k) if (p.circ.qregs[k].size > 1) bySize[p.circ.qregs[k].size].push_back(k);
    if (!bySize.empty() && !c.qs.empty() && s.chance(1, 3)) {
      std::vector<unsigned> sizes; for (auto& [k, v] : bySize) sizes.push_back(k);
      const auto w = s.pick(sizes);
      auto regs = bySize[w];
      s.shuffle(regs);
      std::vector<int> reg(c.qs.size(), -1);
      std::set<std::size_t> taken;
      std::size_t nextReg = 0;
      for (std::size_t i = 0; i < c.qs.size() && nextReg < regs.size(); ++i) if (nextReg == 0 ? (i + 1 == c.qs.size() || s.coin()) : s.coin()) { reg[i] = static_cast<int>(regs[nextReg]); taken.insert(regs[nextReg]); ++nextReg; }
      // single operands outside of the broadcast registers
      std::vector<unsigned> free;
      for (std::size_t k = 0; k < p.circ.qregs.size(); ++k) if (!taken.count(k)) for (unsigned i = 0; i < p.circ.qregs[k].size; ++i) free.push_back(startOf(p.circ.qregs, k) + i);
      s.shuffle(free);
      std::vector<unsigned> qs = c.qs;
      bool ok = !taken.empty();
      std::size_t f = 0;
      for (std::size_t i = 0; i < qs.size(); ++i) if (reg[i] < 0) { if (f >= free.size()) { ok = false; break; } qs[i] = free[f++]; }
      if (ok) {
        std::vector<std::string> on;
        for (std::size_t i = 0; i < qs.size(); ++i) {
          if (reg[i] >= 0) on.push_back(p.circ.qregs[static_cast<std::size_t>(reg[i])].name);
          else { unsigned st = 0; for (auto& r : p.circ.qregs) { if (qs[i] < st + r.size) { on.push_back(r.name + "[" + std::to_string(qs[i] - st) + "]"); break; } st += r.size; } }
        }
        for (unsigned j = 0; j < w; ++j) {
          Call cc = c;
          for (std::size_t i = 0; i < qs.size(); ++i) cc.qs[i] = reg[i] >= 0 ? startOf(p.circ.qregs, static_cast<std::size_t>(reg[i])) + j : qs[i];
          for (auto& o : concrete(cc)) ops.push_back(o);
        }
        label("broadcasting");
        return renderCall(c, on);
      }
    }
    std::vector<std::string> on;
    for (auto q : c.qs) on.push_back(qubitRef(q));
    for (auto& o : concrete(c)) ops.push_back(o);
    return renderCall(c, on);
  }
  Op compound(std::vector<Op> ops) { Op o; o.kind = Op::Compound; o.body = std::move(ops); return o; }

  void statement() {
    const auto r = s.below(20);
    if (dynamic && r < 3 && p.circ.nc > 0) { // measurement
      Op o; o.kind = Op::Measure;
      std::string a, b;
      std::vector<std::pair<std::size_t, std::size_t>> fit;
      for (std::size_t i = 0; i < p.circ.qregs.size(); ++i) for (std::size_t j = 0; j < p.circ.cregs.size(); ++j) if (p.circ.qregs[i].size == p.circ.cregs[j].size) fit.push_back({i, j});
      if (!fit.empty() && s.coin()) {
        auto [i, j] = s.pick(fit);
        a = p.circ.qregs[i].name; b = p.circ.cregs[j].name;
        for (unsigned k = 0; k < p.circ.qregs[i].size; ++k) { o.ts.push_back(startOf(p.circ.qregs, i) + k); o.bits.push_back(startOf(p.circ.cregs, j) + k); }
      } else {
        o.ts = {static_cast<unsigned>(s.below(p.circ.nq))}; o.bits = {static_cast<unsigned>(s.below(p.circ.nc))};
        a = qubitRef(o.ts[0], true); b = bitRef(o.bits[0]);
      }
      p.lines.push_back(p.v2 || s.coin() ? "measure" + gap(true) + a + gap() + "->" + gap() + b + gap() + ";" : b + gap() + "=" + gap() + "measure" + gap(true) + a + gap() + ";");
      p.circ.ops.push_back(o);
      label("measurements");
    } else if (dynamic && r < 5) {
      Op o; o.kind = Op::Reset;
      if (s.chance(1, 3)) { auto k = s.below(p.circ.qregs.size()); for (unsigned i = 0; i < p.circ.qregs[k].size; ++i) o.ts.push_back(startOf(p.circ.qregs, k) + i); p.lines.push_back("reset" + gap(true) + p.circ.qregs[k].name + ";"); }
      else { o.ts = {static_cast<unsigned>(s.below(p.circ.nq))}; p.lines.push_back("reset" + gap(true) + qubitRef(o.ts[0], true) + ";"); }
      p.circ.ops.push_back(o);
      label("resets");
    } else if (r == 5) {
      Op o; o.kind = Op::Barrier;
      std::string t = "barrier";
      if (!p.v2 && s.chance(1, 5)) { for (unsigned i = 0; i < p.circ.nq; ++i) o.ts.push_back(i); }
      else {
        std::set<unsigned> got;
        const int n = s.range(1, 3);
        bool first = true;
        for (int i = 0; i < n; ++i) {
          std::vector<unsigned> qs; std::string ref;
          if (s.chance(1, 3)) { auto k = s.below(p.circ.qregs.size()); for (unsigned j = 0; j < p.circ.qregs[k].size; ++j) qs.push_back(startOf(p.circ.qregs, k) + j); ref = p.circ.qregs[k].name; }
          else { qs = {static_cast<unsigned>(s.below(p.circ.nq))}; ref = qubitRef(qs[0], true); }
          if (std::any_of(qs.begin(), qs.end(), [&](auto q) { return got.count(q); })) continue;
          for (auto q : qs) { got.insert(q); o.ts.push_back(q); }
          t += (first ? gap(true) : "," + gap()) + ref; first = false;
        }
      }
      p.lines.push_back(t + ";");
      p.circ.ops.push_back(o);
    } else if (dynamic && r < 9 && p.circ.nc > 0) condition();
    else if (r == 9 && p.circ.nq < maxQ) declQ(static_cast<unsigned>(s.range(1, static_cast<int>(maxQ - p.circ.nq))));
    else if (r == 10) declGate();
    else if (r == 11 && !p.v2) declConst();
    else p.lines.push_back(gateStatement(p.circ.ops));
  }
  void condition() {
    Op o; o.kind = Op::If;
    Op e; e.kind = Op::If;
    std::string cond;
    static const char* CMP[] = {"==", "!=", "<", "<=", ">", ">="};
    static const int MIRROR[] = {0, 1, 4, 5, 2, 3};
    static const int NEGATED[] = {1, 0, 5, 4, 3, 2};
    const auto k = s.below(p.circ.cregs.size());
    if (p.v2) {
      o.condReg = true; o.condStart = startOf(p.circ.cregs, k); o.condSize = p.circ.cregs[k].size;
      o.val = s.below((1ULL << o.condSize) + (s.chance(1, 8) ? 1 : 0));
      cond = p.circ.cregs[k].name + gap() + "==" + gap() + std::to_string(o.val);
    } else if (s.coin()) {
      o.condReg = true; o.condStart = startOf(p.circ.cregs, k); o.condSize = p.circ.cregs[k].size; o.cmp = s.range(0, 5);
      o.val = s.below((1ULL << o.condSize) + (s.chance(1, 8) ? 1 : 0));
      if (s.chance(1, 3)) { cond = std::to_string(o.val) + gap() + CMP[MIRROR[o.cmp]] + gap() + p.circ.cregs[k].name; label("flipped comparison"); }
      else cond = p.circ.cregs[k].name + gap() + CMP[o.cmp] + gap() + std::to_string(o.val);
      label("register condition");
    } else {
      const auto b = static_cast<unsigned>(s.below(p.circ.nc));
      o.condStart = b; o.condSize = 1;
      unsigned st = 0; std::string ref;
      for (auto& r : p.circ.cregs) { if (b < st + r.size) { ref = r.name + "[" + std::to_string(b - st) + "]"; break; } st += r.size; }
      switch (s.below(4)) {
      case 0: o.val = 1; cond = ref; break;
      case 1: o.val = 0; cond = s.pick<std::string>({"!", "~"}) + ref; break;
      case 2: o.val = s.below(2); cond = ref + gap() + "==" + gap() + std::to_string(o.val); break;
      default: { const auto v = s.below(2); o.val = 1 - v; cond = s.coin() ? ref + gap() + "!=" + gap() + std::to_string(v) : std::to_string(v) + gap() + "!=" + gap() + ref; break; }
      }
      label("bit condition");
    }
    e = o;
    if (o.condReg) e.cmp = NEGATED[o.cmp]; else e.val = 1 - o.val;
    auto block = [&](bool single, std::vector<Op>& ops) {
      if (single) return gateStatement(ops);
      std::string t = "{";
      for (int i = s.range(0, 3); i > 0; --i) t += gap() + gateStatement(ops);
      return t + gap() + "}";
    };
    std::vector<Op> then, els;
    std::string t = "if" + gap() + "(" + gap() + cond + gap() + ")" + gap(true) + block(p.v2 || s.coin(), then);
    if (!p.v2 && s.chance(1, 3)) { t += gap(true) + "else" + gap(true) + block(s.coin(), els); label("else"); }
    p.lines.push_back(t);
    if (!then.empty()) { o.body = {compound(then)}; p.circ.ops.push_back(o); }
    if (!els.empty()) { e.body = {compound(els)}; p.circ.ops.push_back(e); }
    label("conditions");
  }
  Program program() {
    p.v2 = s.chance(2, 5);
    p.head = p.v2 ? s.pick<std::string>({"OPENQASM 2.0;\n", "// a program\nOPENQASM 2.0;\n"}) : s.pick<std::string>({"OPENQASM 3.0;\n", "", "/* a program */ OPENQASM 3.1;"});
    if (s.chance(1, 3)) { p.lines.push_back("include \"qelib1.inc\";"); p.qelib = true; }
    if (s.chance(1, 4)) p.lines.push_back("include \"stdgates.inc\";");
    if (!p.v2 && s.coin()) declConst();
    if (s.coin()) declGate();
    declQ(static_cast<unsigned>(s.range(1, static_cast<int>(maxQ))));
    while (p.circ.nq < maxQ && s.coin()) declQ(static_cast<unsigned>(s.range(1, static_cast<int>(maxQ - p.circ.nq))));
    if (dynamic || s.chance(1, 6)) while (p.circ.nc < 4 && (p.circ.nc == 0 || s.coin())) declC(static_cast<unsigned>(s.range(1, static_cast<int>(4 - p.circ.nc))));
    const int n = s.sized(1, 9);
    for (int i = 0; i < n; ++i) statement();
    return p;
  }
};
} // namespace qgen
