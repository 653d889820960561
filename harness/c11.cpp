// build: {"libs":["ir","qasm3"]}
// C11: importing an OpenQASM program yields what the program means.
#include "qasmgen.hpp"
#include "qasmcmp.hpp"

#include "qasm3/Importer.hpp"
using namespace spec;
using namespace qgen;

namespace {
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };
NullBuf nullBuf;
void quiet() { static bool done = false; if (!done) { std::cout.rdbuf(&nullBuf); std::cerr.rdbuf(&nullBuf); done = true; } }

void check(pbt::Src& s, pbt::Ctx& c, bool dynamic) {
  quiet();
  Gen g(s, static_cast<unsigned>(s.sized(1, dynamic ? 4 : 6)), dynamic);
  auto p = g.program();
  const auto text = p.text();
  c.desc(text + "// meaning: " + show(p.circ));
  for (auto& [l, n] : p.labels) c.label(l);
  c.label(p.v2 ? "OpenQASM 2" : "OpenQASM 3");
  c.nontrivial = p.circ.ops.size() >= 2;
  qc::QuantumComputation q;
  try { q = qasm3::Importer::imports(text); } catch (const std::exception& e) { pbt::fail(std::string("valid program refused: ") + e.what()); }
  auto r = extract(q);
  qcmp::compareRegisters(p.circ, r);
  qcmp::compareEffect(p.circ, r);
}
void unitaryPrograms(pbt::Src& s, pbt::Ctx& c) { check(s, c, false); }
void dynamicPrograms(pbt::Src& s, pbt::Ctx& c) { check(s, c, true); }

// a qubit of another register
std::string startOther(const Program& p, std::size_t k) { for (std::size_t i = 0; i < p.circ.qregs.size(); ++i) if (i != k) return p.circ.qregs[i].name + "[0]"; return ""; }
// two registers of different sizes above one
void pair(const Program& p, std::string& a, std::string& b) { for (auto& x : p.circ.qregs) for (auto& y : p.circ.qregs) if (x.size > 1 && y.size > 1 && x.size != y.size) { a = x.name; b = y.name; } }

// a program with one violation of the rules must be refused
void invalidPrograms(pbt::Src& s, pbt::Ctx& c) {
  quiet();
  Gen g(s, 4, true);
  g.program();
  while (g.p.circ.nq < 2) g.declQ(2);
  if (g.p.circ.nc == 0) g.declC(2);
  auto& p = g.p;
  auto& qr = p.circ.qregs; auto& cr = p.circ.cregs;
  const auto qk = s.below(qr.size()), ck = s.below(cr.size());
  const auto& Q = qr[qk]; const auto& C = cr[ck];
  std::vector<std::pair<std::string, std::function<std::string()>>> rules;
  auto add = [&](const std::string& n, std::function<std::string()> f) { rules.emplace_back(n, std::move(f)); };
  const auto one = [&] { return Q.name + "[0]"; };
  auto at = [&](const std::string& n, uint64_t i) { return n + "[" + std::to_string(i) + "]"; };
  const uint64_t off = s.chance(1, 3) ? s.below(1000) : 0;
  add("undeclared gate", [&] { return "nosuchgate " + one() + ";"; });
  add("undeclared quantum register", [&] { return "x nosuch[0];"; });
  add("undeclared register in a reset", [&] { return "reset nosuch;"; });
  add("undeclared register in a barrier", [&] { return "barrier nosuch;"; });
  add("undeclared quantum register in a measurement", [&] { return "measure nosuch[0] -> " + at(C.name, 0) + ";"; });
  add("undeclared classical register in a measurement", [&] { return "measure " + one() + " -> nosuch[0];"; });
  add("undeclared register in a condition", [&] { return "if (nosuch == 1) x " + one() + ";"; });
  add("index out of range in a gate", [&] { return "x " + at(Q.name, Q.size + off) + ";"; });
  add("index out of range in a control", [&] { const auto o = startOther(p, qk); return o.empty() ? "x " + at(Q.name, Q.size + off) + ";" : "cx " + at(Q.name, Q.size + off) + ", " + o + ";"; });
  add("index out of range in a reset", [&] { return "reset " + at(Q.name, Q.size + off) + ";"; });
  add("index out of range in a barrier", [&] { return "barrier " + at(Q.name, Q.size + off) + ";"; });
  add("qubit index out of range in a measurement", [&] { return "measure " + at(Q.name, Q.size + off) + " -> " + at(C.name, 0) + ";"; });
  add("bit index out of range in a measurement", [&] { return "measure " + one() + " -> " + at(C.name, C.size + off) + ";"; });
  if (!p.v2) add("bit index out of range in a condition", [&] { return "if (" + at(C.name, C.size + off) + ") x " + one() + ";"; });
  add("too few parameters", [&] { return s.pick<std::string>({"rx", "u2(0.5)", "U(1,2)", "p()", "xx_plus_yy(1)"}) + " " + one() + ";"; });
  add("too many parameters", [&] { return s.pick<std::string>({"rx(1,2)", "u2(0.5,1,2)", "x(1)", "h(0)", "U(1,2,3,4)"}) + " " + one() + ";"; });
  add("too few qubits", [&] { return s.pick<std::string>({"cx", "swap", "ccx", "rzz(0.5)", "cswap"}) + " " + one() + ";"; });
  add("too many qubits", [&] { return s.pick<std::string>({"x", "h", "rx(0.5)", "u2(1,2)"}) + " " + g.qubitRef(0, true) + ", " + g.qubitRef(1, true) + ";"; });
  add("no qubits", [&] { return std::string("x;"); });
  add("duplicate qubit", [&] { auto n = at(Q.name, s.below(Q.size)); return s.pick<std::string>({"cx", "swap", "cz", "rxx(0.5)", "crx(1)"}) + " " + n + ", " + n + ";"; });
  if (Q.size > 1) add("duplicate qubit by broadcasting", [&] { auto n = at(Q.name, s.below(Q.size)); return s.coin() ? "cx " + Q.name + ", " + n + ";" : "cx " + n + ", " + Q.name + ";"; });
  add("duplicate register as operands", [&] { return "cx " + Q.name + ", " + Q.name + ";"; });
  add("quantum register declared twice", [&] { return (p.v2 ? "qreg " + Q.name + "[2];" : "qubit[2] " + Q.name + ";"); });
  add("classical register declared twice", [&] { return (p.v2 ? "creg " + C.name + "[2];" : "bit[2] " + C.name + ";"); });
  add("register name used for both kinds", [&] { return (p.v2 ? "creg " + Q.name + "[2];" : "bit[2] " + Q.name + ";"); });
  add("gate declared twice", [&] { return std::string("gate zzq a { x a; }\ngate zzq a { y a; }"); });
  add("gate parameter declared twice", [&] { return std::string("gate zzq(t, t) a { rx(t) a; }"); });
  add("gate qubit declared twice", [&] { return std::string("gate zzq a, a { x a; }"); });
  add("undeclared parameter in a gate", [&] { return "gate zzq(t) a { rx(nosuch) a; }\nzzq(1) " + one() + ";"; });
  add("undeclared qubit in a gate", [&] { return "gate zzq a { x nosuch; }\nzzq " + one() + ";"; });
  add("indexed qubit in a gate", [&] { return "gate zzq a { x a[0]; }\nzzq " + one() + ";"; });
  add("gate calling itself", [&] { return "gate zzq a { x a; zzq a; }\nzzq " + one() + ";"; });
  add("undeclared constant", [&] { return "rx(2*nosuch) " + one() + ";"; });
  add("division by zero", [&] { return "rx(1/" + std::string(s.coin() ? "0" : "(2-2)") + ") " + one() + ";"; });
  add("size mismatch in broadcasting", [&] { std::string a, b; pair(p, a, b); return a.empty() ? "nosuch " + one() + ";" : "cx " + a + ", " + b + ";"; });
  add("size mismatch in a measurement", [&] { for (auto& x : qr) for (auto& y : cr) if (x.size != y.size) return "measure " + x.name + " -> " + y.name + ";"; return "measure " + one() + " -> nosuch;"; });
  add("measurement of a classical register", [&] { return "measure " + C.name + " -> " + C.name + ";"; });
  add("measurement into a quantum register", [&] { return "measure " + Q.name + " -> " + Q.name + ";"; });
  add("gate on a classical register", [&] { return "x " + C.name + ";"; });
  add("reset of a classical register", [&] { return "reset " + C.name + ";"; });
  add("version declared late", [&] { return std::string("OPENQASM 2.0;"); });
  add("missing semicolon", [&] { return "x " + one() + " y " + one() + ";"; });
  add("unbalanced parenthesis", [&] { return "rx((1) " + one() + ";"; });
  add("incomplete statement", [&] { return s.pick<std::string>({"x", "cx " + Q.name + "[0],", "if (", "gate zzq a {", "rx(", "measure", "include \"qelib1.inc", "\"", "qreg"}); });
  add("missing file", [&] { return std::string("include \"no_such_file.inc\";"); });
  add("unknown opaque gate", [&] { return std::string("opaque zzq a;"); });
  if (!p.v2) {
    add("pow modifier", [&] { return "pow(2) @ x " + one() + ";"; });
    add("negative index", [&] { return "x " + Q.name + "[" + s.pick<std::string>({"-1", "1-2", "-(1)"}) + "];"; });
    add("real index", [&] { return "x " + Q.name + "[" + s.pick<std::string>({"0.0", "0.5", "pi"}) + "];"; });
    add("two indices", [&] { return "x " + Q.name + "[0][0];"; });
    add("empty index", [&] { return "x " + Q.name + "[];"; });
    add("negative size", [&] { return std::string("qubit[-1] zzq;"); });
    add("constant without value", [&] { return std::string("const float zzq;"); });
    add("assignment to a constant", [&] { return "const float[64] zzq = 1.5;\nzzq = measure " + one() + ";"; });
    add("constant that is not constant", [&] { return "const float zzq = " + C.name + ";"; });
    add("too many controls", [&] { return "ctrl(" + std::to_string(p.circ.nq + off) + ") @ x " + one() + ";"; });
    add("real number of controls", [&] { return "ctrl(1.5) @ x " + g.qubitRef(0, true) + ", " + g.qubitRef(1, true) + ";"; });
    add("control equal to the target", [&] { return "ctrl @ x " + one() + ", " + one() + ";"; });
    add("condition on a quantum register", [&] { return "if (" + Q.name + "[0]) x " + one() + ";"; });
    add("constant condition", [&] { return "if (" + s.pick<std::string>({"true", "!true", "1", "1 == 1", "pi", "-1"}) + ") x " + one() + ";"; });
    add("condition on an undeclared bit", [&] { return "if (!nosuch[0]) x " + one() + ";"; });
    add("comparison with a real number", [&] { return "if (" + C.name + " == 0.5) x " + one() + ";"; });
    add("declaration in a block", [&] { return "if (" + C.name + "[0]) { qubit zzq; }"; });
  }
  auto& [name, make] = rules[s.below(rules.size())];
  const auto bad = make();
  c.label(name);
  p.lines.push_back(bad);
  if (s.coin() && name != "incomplete statement") p.lines.push_back("x " + one() + ";");
  const auto text = p.text();
  c.desc("violated rule: " + name + "\n" + text);
  c.nontrivial = p.lines.size() >= 3;
  try { (void)qasm3::Importer::imports(text); } catch (const std::exception&) { return; }
  pbt::fail("program with " + name + " accepted: " + bad);
}
} // namespace

int main(int argc, char** argv) {
  pbt::Suite su;
  su.property = "C11";
  su.rule = "a program denoting at least two operations (valid programs) or with at least two statements besides the violation (invalid programs)";
  su.assumptions = {"`^` (power) only in OpenQASM 2, with non-negative bases and exponents", "real constants only (sized integer constants are represented as registers)", "bodies of conditions are gates"};
  su.props = {{"unitary", unitaryPrograms, 9000, 700000}, {"dynamic", dynamicPrograms, 9000, 700000}, {"invalid", invalidPrograms, 6000, 300000}};
  return pbt::mainImpl(su, argc, argv);
}
