// build: {"libs":["ir","qasm3"],"config":"asan","link":["-Wl,--wrap=_ZN2qc18QuantumComputation16addQubitRegisterEmRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE","-Wl,--wrap=_ZN2qc18QuantumComputation20addClassicalRegisterEmRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE","-Wl,--wrap=_ZN2qc18QuantumComputation8addQubitEjjSt8optionalIjE"]}
// C12: whatever text is given to the OpenQASM importer, it is accepted soundly or rejected with an exception.
#include "qasmgen.hpp"

#include "qasm3/Importer.hpp"

using namespace spec;
using namespace qgen;

// The declared sizes are bounded: requests beyond the bound end in an exception like any other failure to allocate.
namespace {
constexpr std::size_t LIMIT = 3000;
std::size_t declared = 0;
void account(std::size_t n) { ++declared; if (n > LIMIT) throw std::length_error("size bound of the harness"); }
} // namespace
#define SYM_Q "_ZN2qc18QuantumComputation16addQubitRegisterEmRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"
#define SYM_C "_ZN2qc18QuantumComputation20addClassicalRegisterEmRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"
#define SYM_A "_ZN2qc18QuantumComputation8addQubitEjjSt8optionalIjE"
const void* realQ(qc::QuantumComputation*, std::size_t, const std::string&) asm("__real_" SYM_Q);
const void* realC(qc::QuantumComputation*, std::size_t, const std::string&) asm("__real_" SYM_C);
void realA(qc::QuantumComputation*, qc::Qubit, qc::Qubit, std::optional<qc::Qubit>) asm("__real_" SYM_A);
const void* wrapQ(qc::QuantumComputation*, std::size_t, const std::string&) asm("__wrap_" SYM_Q);
const void* wrapC(qc::QuantumComputation*, std::size_t, const std::string&) asm("__wrap_" SYM_C);
void wrapA(qc::QuantumComputation*, qc::Qubit, qc::Qubit, std::optional<qc::Qubit>) asm("__wrap_" SYM_A);
const void* wrapQ(qc::QuantumComputation* q, std::size_t n, const std::string& s) { account(n); account(q->getNqubits() + n); return realQ(q, n, s); }
const void* wrapC(qc::QuantumComputation* q, std::size_t n, const std::string& s) { account(n); account(q->getNcbits() + n); return realC(q, n, s); }
void wrapA(qc::QuantumComputation* q, qc::Qubit a, qc::Qubit b, std::optional<qc::Qubit> o) { account(q->getNqubits() + 1); realA(q, a, b, o); }

namespace {
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };
NullBuf nullBuf;
void quiet() {
  static bool done = false;
  if (done) return;
  done = true;
  std::cout.rdbuf(&nullBuf); std::cerr.rdbuf(&nullBuf);
}

// ---------------------------------------------------------------- oracle
void checkOp(const qc::Operation& op, const qc::QuantumComputation& q, int depth) {
  const auto nq = q.getNqubits();
  const auto nc = q.getNcbits();
  std::set<qc::Qubit> used;
  if (!op.isCompoundOperation() && !op.isClassicControlledOperation()) {
    for (auto t : op.getTargets()) {
      pbt::require(t < nq, "an operation targets a qubit that does not exist: " + std::to_string(t));
      pbt::require(used.insert(t).second || op.getType() == qc::Barrier, "an operation uses a qubit twice");
    }
    for (auto& c : op.getControls()) {
      pbt::require(c.qubit < nq, "an operation is controlled by a qubit that does not exist: " + std::to_string(c.qubit));
      pbt::require(used.insert(c.qubit).second, "an operation uses a qubit twice");
    }
    for (auto p : op.getParameter()) (void)p;
    std::size_t need = 1;
    if (op.getType() == qc::Barrier || op.getType() == qc::Reset || op.getType() == qc::Measure) need = 0;
    else if (op.getType() == qc::GPhase) need = 0;
    else pbt::require(op.getNtargets() == (qc::isTwoQubitGate(op.getType()) ? 2U : 1U), "a gate has the wrong number of targets: " + qc::toString(op.getType()));
    pbt::require(op.getNtargets() >= need, "a gate without targets");
  }
  if (op.getType() == qc::Measure) {
    const auto& m = dynamic_cast<const qc::NonUnitaryOperation&>(op);
    pbt::require(m.getNclassics() == m.getNtargets(), "a measurement with a different number of qubits and bits");
    for (auto b : m.getClassics()) pbt::require(b < nc, "a measurement writes a bit that does not exist: " + std::to_string(b));
  }
  if (op.isCompoundOperation()) for (auto& o : dynamic_cast<const qc::CompoundOperation&>(op)) { pbt::require(o != nullptr, "null operation"); checkOp(*o, q, depth + 1); }
  if (op.isClassicControlledOperation()) {
    const auto& c = dynamic_cast<const qc::ClassicControlledOperation&>(op);
    if (const auto& reg = c.getControlRegister(); reg.has_value()) pbt::require(reg->getSize() >= 1 && reg->getStartIndex() + reg->getSize() <= nc, "a condition on bits that do not exist");
    else if (const auto& bit = c.getControlBit(); bit.has_value()) pbt::require(*bit < nc, "a condition on a bit that does not exist");
    else pbt::fail("a condition on nothing");
    pbt::require(c.getOperation() != nullptr, "a condition without operation");
    checkOp(*c.getOperation(), q, depth + 1);
  }
}
void wellFormed(const qc::QuantumComputation& q) {
  const auto nq = q.getNqubits();
  std::set<qc::Qubit> in, out;
  pbt::require(q.initialLayout.size() == nq, "the initial layout does not cover the qubits");
  for (auto& [p, l] : q.initialLayout) pbt::require(p < nq && l < nq && in.insert(l).second, "the initial layout is not a permutation of the qubits");
  pbt::require(q.outputPermutation.size() <= nq, "output permutation too large");
  for (auto& [p, l] : q.outputPermutation) pbt::require(p < nq && l < nq && out.insert(l).second, "the output permutation is not an injection within the qubits");
  // registers tile the qubits and bits
  std::vector<std::pair<std::size_t, std::size_t>> qs, cs;
  for (auto& [n, r] : q.getQuantumRegisters()) { pbt::require(r.getName() == n, "a register under another name"); qs.emplace_back(r.getStartIndex(), r.getSize()); }
  for (auto& [n, r] : q.getClassicalRegisters()) { pbt::require(r.getName() == n, "a register under another name"); cs.emplace_back(r.getStartIndex(), r.getSize()); }
  auto tile = [](std::vector<std::pair<std::size_t, std::size_t>> v, std::size_t n, const char* w) {
    std::sort(v.begin(), v.end());
    std::size_t at = 0;
    for (auto& [s, z] : v) { pbt::require(s == at && z > 0, std::string(w) + " registers overlap or leave gaps"); at += z; }
    pbt::require(at == n, std::string(w) + " registers do not cover the circuit");
  };
  tile(qs, nq, "quantum"); tile(cs, q.getNcbits(), "classical");
  for (auto& o : q) { pbt::require(o != nullptr, "null operation"); checkOp(*o, q, 0); }
}

void feed(const std::string& text, pbt::Ctx& c) {
  quiet();
  c.desc("input:\n" + text + "\n<end of input>");
  declared = 0;
  std::unique_ptr<qc::QuantumComputation> q;
  bool rejected = false;
  try { q = std::make_unique<qc::QuantumComputation>(qasm3::Importer::imports(text)); }
  catch (const pbt::Fail&) { throw; }
  catch (const std::exception&) { rejected = true; }
  c.label(rejected ? "rejected" : "accepted");
  c.nontrivial = declared > 0 || !rejected;
  if (rejected) return;
  if (declared > 0) c.label("accepted with registers");
  if (q->getNops() > 0) c.label("accepted with operations");
  wellFormed(*q);
  // a well-formed circuit can be copied and compared
  const qc::QuantumComputation copy(*q);
  pbt::require(copy.getNops() == q->getNops(), "the copy of the imported circuit differs");
}

// ---------------------------------------------------------------- generators
const std::vector<std::string>& dictionary() {
  static const std::vector<std::string> d = {
      "OPENQASM", "3.0", "2.0", "3", "include", "\"qelib1.inc\"", "\"stdgates.inc\"", "qubit", "bit", "qreg", "creg", "gate", "opaque", "const", "int", "uint", "float", "angle", "bool", "duration", "stretch", "input", "output", "let", "def", "extern", "box", "return", "break", "for", "while", "in", "switch", "case", "default", "measure", "reset", "barrier", "if", "else", "ctrl", "negctrl", "inv", "pow", "gphase", "U", "CX", "cx", "h", "x", "rz", "u3", "mcx", "mcphase", "mcx_vchain", "mcx_recursive", "ccx", "swap", "rzz", "xx_plus_yy", "peres", "ecr", "sx", "c3x", "cu", "cu3", "u2", "teleport",
      "q", "c", "a", "b", "q[0]", "q[1]", "c[0]", "$0", "$1", "$12", "$4294967295", "$99999999999999999999", "(", ")", "[", "]", "{", "}", ";", ",", "@", "->", "=", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "**", "^", "&", "|", "<<", ">>", "&&", "||", "!", "~", "+=", "-=", "++", "..", ":", ".", "_", "#pragma", "pi", "tau", "euler", "π", "τ", "ℇ", "sin", "cos", "tan", "exp", "ln", "sqrt", "true", "false", "im",
      "0", "1", "2", "3", "7", "31", "32", "63", "64", "65", "255", "1000", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "0x0", "0xff", "0XFFFFFFFFFFFFFFFF", "0x", "0b", "0b101", "0b1_0", "0o17", "0o", "1_000", "_1", "1_", "0.5", ".5", "5.", "1e3", "1e400", "1e-400", "1e", "1.5e+", "-1", "-0", "-9223372036854775808", "nan", "inf", "\"0101\"", "\"", "'", "//", "/*", "*/", "// i 0 1\n", "// o 0\n", "// i 1 0 2\n", "// i -1\n", "// o 5 5\n", "// i 99999999999999999999\n", "// i\n", "\n", "\t", "\r\n", " ", "\xc3\xa4", "\xff", std::string(1, '\0'), "5ns", "10dt", "1us", "@stretch"};
  return d;
}
std::vector<std::string> tokens(const std::string& t) {
  std::vector<std::string> r;
  for (std::size_t i = 0; i < t.size();) {
    std::size_t j = i + 1;
    auto cls = [](unsigned char ch) { return std::isalpha(ch) || ch == '_' || ch >= 128 ? 1 : (std::isdigit(ch) || ch == '.') ? 2 : std::isspace(ch) ? 3 : 4; };
    const int k = cls(static_cast<unsigned char>(t[i]));
    if (t[i] == '/' && j < t.size() && t[j] == '/') { while (j < t.size() && t[j] != '\n') ++j; }
    else if (k == 1) while (j < t.size() && (cls(static_cast<unsigned char>(t[j])) == 1 || std::isdigit(static_cast<unsigned char>(t[j])))) ++j;
    else if (k != 4) while (j < t.size() && cls(static_cast<unsigned char>(t[j])) == k) ++j;
    else if (t[i] == '"') { while (j < t.size() && t[j] != '"') ++j; if (j < t.size()) ++j; }
    r.push_back(t.substr(i, j - i)); i = j;
  }
  return r;
}
std::string number(pbt::Src& s) {
  switch (s.below(5)) {
  case 0: return std::to_string(s.below(6));
  case 1: return std::to_string((uint64_t{1} << s.below(64)) - s.below(2));
  case 2: return "-" + std::to_string(uint64_t{1} << s.below(64));
  case 3: return s.pick<std::string>({"0x", "0b", "0o", "0X", "0B", "0O"}) + std::to_string(s.below(100)) + (s.coin() ? "" : "f");
  default: return s.pick<std::string>({"1e308", "1e309", "0.0", "1e-320", "5.", "123456789012345678901234567890", "1.7976931348623157e308", "9223372036854775807", "9223372036854775808", "18446744073709551615"});
  }
}
void mutateTokens(pbt::Src& s, std::vector<std::string>& t) {
  const int n = s.chance(1, 2) ? 1 : s.sized(1, 4);
  for (int i = 0; i < n; ++i) {
    if (t.empty()) t.push_back(s.pick(dictionary()));
    const auto at = s.below(t.size());
    switch (s.below(9)) {
    case 0: t.erase(t.begin() + static_cast<long>(at)); break;
    case 1: t.insert(t.begin() + static_cast<long>(at), s.pick(dictionary())); break;
    case 2: t[at] = s.pick(dictionary()); break;
    case 3: std::swap(t[at], t[s.below(t.size())]); break;
    case 4: t.insert(t.begin() + static_cast<long>(s.below(t.size())), t[at]); break;
    case 5: { // a number becomes another one
      std::vector<std::size_t> v;
      for (std::size_t j = 0; j < t.size(); ++j) if (std::isdigit(static_cast<unsigned char>(t[j][0]))) v.push_back(j);
      if (v.empty()) t[at] = number(s); else t[v[s.below(v.size())]] = number(s);
      break; }
    case 6: { // a name becomes another name of the program
      std::vector<std::size_t> v;
      for (std::size_t j = 0; j < t.size(); ++j) if (std::isalpha(static_cast<unsigned char>(t[j][0]))) v.push_back(j);
      if (v.size() > 1) t[v[s.below(v.size())]] = t[v[s.below(v.size())]];
      break; }
    case 7: { // repeat or remove a range
      const auto e = std::min(t.size(), at + 1 + s.below(8));
      std::vector<std::string> part(t.begin() + static_cast<long>(at), t.begin() + static_cast<long>(e));
      if (s.coin()) t.erase(t.begin() + static_cast<long>(at), t.begin() + static_cast<long>(e));
      else t.insert(t.begin() + static_cast<long>(s.below(t.size())), part.begin(), part.end());
      break; }
    default: t.resize(at + 1); break; // cut off
    }
  }
}
std::string join(const std::vector<std::string>& t) { std::string r; for (auto& x : t) r += x; return r; }
std::string corpus(pbt::Src& s) {
  static const std::vector<std::string> extra = {
      "OPENQASM 3.0;\ninclude \"stdgates.inc\";\nqubit[4] q;\nbit[4] c;\nctrl(2) @ negctrl @ x q[0], q[1], q[2], q[3];\ninv @ ctrl @ rz(pi/4) q[0], q[1];\nc = measure q;\n",
      "OPENQASM 3.0;\nconst int n = 3;\nconst float f = pi / n;\nqubit[n] q;\nbit[n] c;\ngate g(a, b) x, y { ctrl @ U(a, b, -a * 2 ** b) x, y; barrier x, y; }\ng(f, 0.5) q[0], q[n - 1];\nif (c == 5) { x q[0]; } else { y q[1]; }\nif (!c[0]) reset q;\nc[0] = measure q[2];\n",
      "// i 2 0 1\n// o 1 0\nOPENQASM 2.0;\ninclude \"qelib1.inc\";\nqreg q[2];\nqreg r[1];\ncreg c[3];\nopaque magic(a) x;\ngate bell x, y { h x; cx x, y; }\nbell q[0], q[1];\nu3(sin(pi/2), -cos(0), ln(2)^2) r;\nmeasure q[0] -> c[0];\nif (c == 1) x q[0];\nbarrier q, r;\nreset q;\n",
      "OPENQASM 3.0;\nh $0;\ncx $0, $3;\nbit[2] c;\nc[0] = measure $0;\nmeasure $3 -> c[1];\nbarrier $0, $1;\nreset $2;\n",
      "qreg q[5];\nmcx q[0],q[1],q[2],q[3],q[4];\nmcx_vchain q[0],q[1],q[2],q[3],q[4];\nmcx_recursive q[0],q[1],q[2],q[3],q[4];\nmcphase(pi) q[0],q[1],q[2];\nc3x q[0],q[1],q[2],q[3];\nc4x q;\nrccx q[0],q[1],q[2];\nxx_minus_yy(0.1,0.2) q[0],q[1];\nperes q[0],q[1];\ngphase(0.3);\n",
      "OPENQASM 3.0;\nuint[8] k = 5;\nint[32] m = -2147483648;\nfloat[64] z = 1e3 / 7;\nbool b = true;\nconst uint[63] big = 9223372036854775807;\nconst int s = (1 << 3) | 2 & ~1 ^ 5 % 3;\nqubit[s] q;\n",
      "OPENQASM 3.0;\nqubit[3] q;\ngate a x { b x; }\ngate b x { U(0,0,0) x; }\na q;\ngate r x { r x; }\nr q[0];\n"};
  if (s.chance(1, 3)) return s.pick(extra);
  Gen g(s, 4, s.coin());
  return g.program().text();
}
void mutated(pbt::Src& s, pbt::Ctx& c) {
  auto t = tokens(corpus(s));
  if (s.chance(1, 6)) { auto u = tokens(corpus(s)); const auto at = s.below(t.size() + 1); t.insert(t.begin() + static_cast<long>(at), u.begin(), u.end()); c.label("spliced"); }
  mutateTokens(s, t);
  feed(join(t), c);
}
void soup(pbt::Src& s, pbt::Ctx& c) {
  std::string t;
  if (s.coin()) t += s.pick<std::string>({"qubit[3] q; bit[3] c;", "OPENQASM 2.0; qreg q[3]; creg c[3];", "gate g(a) x { ", "if (c == 1) {", "const int a ="});
  const int n = s.sized(1, 40);
  for (int i = 0; i < n; ++i) { t += s.pick(dictionary()); if (!s.chance(1, 4)) t += " "; if (s.chance(1, 5)) t += ";\n"; }
  feed(t, c);
}
void bytes(pbt::Src& s, pbt::Ctx& c) {
  std::string t = s.chance(1, 3) ? "" : corpus(s);
  const int n = s.chance(1, 2) ? 1 : s.sized(1, 6);
  for (int i = 0; i < n; ++i) {
    const auto at = s.below(t.size() + 1);
    const char b = s.coin() ? static_cast<char>(s.below(256)) : static_cast<char>(32 + s.below(95));
    switch (s.below(4)) {
    case 0: t.insert(at, 1, b); break;
    case 1: if (at < t.size()) t[at] = b; break;
    case 2: if (at < t.size()) t.erase(at, 1 + s.below(3)); break;
    default: if (at < t.size()) t[at] = static_cast<char>(t[at] ^ (1 << s.below(8))); break;
    }
  }
  feed(t, c);
}
// constant expressions over extreme values, at every place the grammar takes one
std::string extreme(pbt::Src& s, int d) {
  if (d <= 0 || s.chance(1, 4)) return s.chance(1, 5) ? s.pick<std::string>({"pi", "tau", "euler", "k", "f", "true"}) : number(s);
  switch (s.below(4)) {
  case 0: return s.pick<std::string>({"-", "~", "!", "- -", "-~"}) + extreme(s, d - 1);
  case 1: return "(" + extreme(s, d - 1) + ")";
  case 2: return s.pick<std::string>({"sin", "cos", "tan", "exp", "ln", "sqrt"}) + "(" + extreme(s, d - 1) + ")";
  default: return extreme(s, d - 1) + " " + s.pick<std::string>({"+", "-", "*", "/", "%", "**", "^", "&", "|", "<<", ">>", "==", "<", "&&", "||"}) + " " + extreme(s, d - 1);
  }
}
void expressions(pbt::Src& s, pbt::Ctx& c) {
  std::string t = s.chance(1, 3) ? "OPENQASM 2.0;\n" : "OPENQASM 3.0;\n";
  t += "qubit[3] q; bit[3] c;\n";
  if (s.coin()) t += "const int k = " + extreme(s, 2) + ";\n";
  if (s.chance(1, 3)) t += "const float f = " + extreme(s, 2) + ";\n";
  const auto e = extreme(s, s.sized(1, 4));
  const std::string ty = s.pick<std::string>({"int", "uint", "float", "int[8]", "uint[64]", "float[32]", "bool", "angle[4]", "int[" + extreme(s, 1) + "]"});
  switch (s.below(11)) {
  case 0: t += "const " + ty + " v = " + e + "; rz(v) q[0];"; break;
  case 1: t += "qubit[" + e + "] r;"; break;
  case 2: t += "bit[" + e + "] r;"; break;
  case 3: t += "x q[" + e + "];"; break;
  case 4: t += "rz(" + e + ") q[0];"; break;
  case 5: t += "ctrl(" + e + ") @ x q[0], q[1], q[2];"; break;
  case 6: t += "measure q[" + e + "] -> c[" + extreme(s, 1) + "];"; break;
  case 7: t += "if (c == " + e + ") x q[0];"; break;
  case 8: t += "gate g(a) x { rz(a * " + e + ") x; } g(" + extreme(s, 2) + ") q[1];"; break;
  case 9: t += "if (c[" + e + "]) { reset q[" + e + "]; } else x q;"; break;
  default: t += "pow(" + e + ") @ x q[0]; barrier q[" + e + "];"; break;
  }
  feed(t, c);
}
// deep nesting of every recursive construct
void nesting(pbt::Src& s, pbt::Ctx& c) {
  const int n = static_cast<int>(std::uint64_t{1} << s.below(12)) + s.range(0, 3);
  auto rep = [](const std::string& x, int k) { std::string r; for (int i = 0; i < k; ++i) r += x; return r; };
  std::string t = "qubit[2] q; bit[2] c;\n";
  if (s.chance(1, 12)) { // a long flat expression
    t += "rz(1" + rep(s.pick<std::string>({" + 1", " * 2", " - -1", " / 2", "-1", " == 1"}), 20 * n) + ") q[0];";
    feed(t, c);
    return;
  }
  const int close = s.chance(1, 5) ? s.range(0, n) : n;
  switch (s.below(9)) {
  case 0: t += "rz(" + rep("(", n) + "1" + rep(")", close) + ") q[0];"; break;
  case 1: t += "rz(" + rep(s.pick<std::string>({"-", "~", "!"}), n) + "1) q[0];"; break;
  case 2: t += rep("if (c == 1) { ", n) + "x q[0];" + rep("}", close); break;
  case 3: t += rep("if (c[0]) x q[0]; else ", n) + "x q[0];"; break;
  case 4: t += rep(s.pick<std::string>({"inv @ ", "ctrl @ ", "ctrl(0) @ ", "negctrl @ ", "pow(2) @ "}), n) + "x q[0], q[1];"; break;
  case 5: t += "rz(" + rep("sin(", n) + "1" + rep(")", close) + ") q[0];"; break;
  case 6: { // a chain of gate definitions
    t += "gate g0 x { U(1,2,3) x; }\n";
    for (int i = 1; i < std::min(n, 900); ++i) t += "gate g" + std::to_string(i) + " x { " + (s.chance(1, 2) ? "inv @ " : "") + "g" + std::to_string(i - 1) + " x; }\n";
    t += "g" + std::to_string(std::min(n, 900) - 1) + " q[0];";
    break; }
  case 7: t += "rz(1" + rep(s.pick<std::string>({" + 1", " ** 1", " - -1", " / 2", " << 1", " == 1"}), n) + ") q[0];"; break;
  default: t += rep("/*", n) + rep("*/", close) + rep("{", n % 100) + "x q[0];" + rep("\"", n % 3); break;
  }
  feed(t, c);
}
// layout comments of every form
void layouts(pbt::Src& s, pbt::Ctx& c) {
  std::string t;
  auto line = [&] {
    std::string l = s.pick<std::string>({"//", "// ", "/// ", "//\t"}) + s.pick<std::string>({"i", "o", "i ", "o ", "io", "o i"});
    const int n = s.sized(0, 6);
    for (int i = 0; i < n; ++i) l += s.pick<std::string>({" ", "  ", "\t", ",", ""}) + (s.chance(3, 4) ? std::to_string(s.below(5)) : s.pick(dictionary()));
    return l + s.pick<std::string>({"\n", "\n", "\n", "\r\n", " \n", ""});
  };
  const int k = s.range(1, 3);
  for (int i = 0; i < k; ++i) t += line();
  t += s.pick<std::string>({"OPENQASM 3.0;\n", "OPENQASM 2.0;\n", ""});
  if (s.chance(1, 4)) t += line();
  const int nq = s.range(1, 4);
  t += "qreg q[" + std::to_string(nq) + "];\n";
  if (s.coin()) t += "creg c[" + std::to_string(s.range(1, 4)) + "];\n";
  const int m = s.range(0, 3);
  for (int i = 0; i < m; ++i) t += s.coin() ? "measure q[" + std::to_string(s.below(static_cast<std::uint64_t>(nq))) + "] -> c[0];\n" : "x q[" + std::to_string(s.below(static_cast<std::uint64_t>(nq))) + "];\n";
  if (s.chance(1, 5)) t += line();
  feed(t, c);
}
} // namespace

int main(int argc, char** argv) {
  pbt::Suite su;
  su.property = "C12";
  su.rule = "a case is non-trivial if the input is accepted, or at least one register or hardware qubit was declared before it was rejected";
  su.assumptions = {"declared sizes are bounded by 3000 qubits or bits (larger requests end in an exception raised by a link-time stand-in, like an allocation failure)", "nesting depth of the input at most 4096; input length at most a few 10^4 characters", "include of files other than the built-in ones is not exercised (no such files exist)"};
  su.props = {{"mutated", mutated, 12000, 600000, 20, true}, {"soup", soup, 6000, 300000, 20, true}, {"bytes", bytes, 8000, 400000, 20, true},
              {"expressions", expressions, 8000, 400000, 20, true}, {"nesting", nesting, 800, 20000, 30, true}, {"layouts", layouts, 5000, 200000, 20, true}};
  return pbt::mainImpl(su, argc, argv);
}
