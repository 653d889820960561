// Reference interpreter for modules of the mqtopt dialect (with func, cf and arith): all measurement outcomes and
// control flow paths are followed; the meaning of a function is, for every combination of returned bits, the reduced
// (unnormalised) density matrix of the returned qubits. Qubit and register values may be used once on every path.
#pragma once
#include "pbt.hpp"
#include "ref.hpp"
#include "ir/QuantumComputation.hpp"
#include <mlir/Interfaces/SideEffectInterfaces.h>
#include <mlir/IR/BuiltinOps.h>
#include "mlir/Dialect/MQTOpt/IR/MQTOptDialect.h"
#include "mlir/Dialect/MQTOpt/Transforms/Passes.h"
#include <mlir/Dialect/Arith/IR/Arith.h>
#include <mlir/Dialect/ControlFlow/IR/ControlFlowOps.h>
#include <mlir/Dialect/Func/IR/FuncOps.h>
#include <mlir/IR/BuiltinOps.h>
#include <mlir/IR/MLIRContext.h>
#include <mlir/IR/Verifier.h>
#include <mlir/Parser/Parser.h>
#include <mlir/Pass/PassManager.h>

namespace mlirx {
using mqt::ir::opt::UnitaryInterface;
struct Val { enum K { Qubit, Reg, Int, Float } k = Int; int h = 0; std::vector<int> slots; int64_t i = 0; double f = 0; };
using Env = llvm::DenseMap<mlir::Value, Val>;
using Meaning = std::map<std::string, ref::Mat>;
struct Interp {
  std::string error; // first rule broken by the program
  Meaning result;
  int maxMeasure = 9;
  std::size_t paths = 0;
  std::map<std::string, int> ops;
  [[noreturn]] void bad(const std::string& m) { throw std::runtime_error(m); }
  static std::string opName(mlir::Operation* o) { return o->getName().getStringRef().str(); }
  static std::string gateName(mlir::Operation* o) {
    auto n = o->getName().stripDialect().str();
    for (auto& c : n) c = static_cast<char>(tolower(c));
    if (n == "xxminusyy") return "xx_minus_yy";
    if (n == "xxplusyy") return "xx_plus_yy";
    return n;
  }
  // a use of a value; qubits and registers are consumed
  Val take(Env& e, mlir::Value v) {
    auto it = e.find(v);
    if (it == e.end()) bad("a value is used that is not defined on this path or whose qubit state was already used");
    Val r = it->second;
    if (r.k == Val::Qubit || r.k == Val::Reg) e.erase(it);
    return r;
  }
  static std::vector<double> params(mlir::Operation* o, Env& e, Interp& me) {
    auto u = mlir::cast<UnitaryInterface>(o);
    const auto np = o->getNumOperands() - u.getInQubits().size() - u.getPosCtrlQubits().size() - u.getNegCtrlQubits().size();
    std::vector<double> dyn, st, r;
    for (unsigned i = 0; i < np; ++i) dyn.push_back(me.take(e, o->getOperand(i)).f);
    if (auto a = o->getInherentAttr("static_params"); a && *a) for (double d : mlir::cast<mlir::DenseF64ArrayAttr>(*a).asArrayRef()) st.push_back(d);
    if (auto a = o->getInherentAttr("params_mask"); a && *a) {
      std::size_t i = 0, j = 0;
      for (bool b : mlir::cast<mlir::DenseBoolArrayAttr>(*a).asArrayRef()) { auto& from = b ? st : dyn; auto& k = b ? i : j; if (k >= from.size()) me.bad("parameter mask"); r.push_back(from[k++]); }
      return r;
    }
    r = dyn.empty() ? st : dyn;
    return r;
  }
  struct St { ref::Vec v; std::vector<int> alloc; unsigned n = 0; int measured = 0; };
  void newQubit(St& s, ref::C a = 1, ref::C b = 0) { ref::Vec w(s.v.size() * 2); for (std::size_t i = 0; i < s.v.size(); ++i) { w[i] = s.v[i] * a; w[i + s.v.size()] = s.v[i] * b; } s.v = std::move(w); ++s.n; if (s.n > 9) bad("too many qubits"); }
  void enter(mlir::Block* b, mlir::OperandRange args, Env env, St st) {
    if (args.size() != b->getNumArguments()) bad("a block gets a wrong number of arguments");
    std::vector<Val> vals;
    for (auto a : args) vals.push_back(take(env, a));
    for (unsigned i = 0; i < vals.size(); ++i) { if (args[i].getType() != b->getArgument(i).getType()) bad("a block gets an argument of a wrong type"); env[b->getArgument(i)] = vals[i]; }
    run(b->begin(), b->end(), std::move(env), std::move(st));
  }
  void finish(mlir::Operation* ret, Env& env, const St& st) {
    std::string key;
    std::vector<int> hs;
    for (auto o : ret->getOperands()) {
      auto v = take(env, o);
      if (v.k == Val::Qubit) { key += "q "; hs.push_back(v.h); }
      else if (v.k == Val::Int) key += std::to_string(v.i & 1) + " ";
      else if (v.k == Val::Float) key += "f ";
      else { key += "r["; for (int x : v.slots) { key += x < 0 ? "-" : "q"; if (x >= 0) hs.push_back(x); } key += "] "; }
    }
    // reduced density matrix on hs
    for (std::size_t i = 0; i < hs.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (hs[i] == hs[j]) bad("one qubit is returned twice");
    const std::size_t d = std::size_t{1} << hs.size();
    auto it = result.find(key);
    if (it == result.end()) it = result.emplace(key, ref::Mat(d)).first;
    std::size_t mask = 0;
    for (int h : hs) mask |= std::size_t{1} << h;
    auto sub = [&](std::size_t idx) { std::size_t r = 0; for (std::size_t k = 0; k < hs.size(); ++k) if ((idx >> hs[k]) & 1U) r |= std::size_t{1} << k; return r; };
    std::map<std::size_t, std::vector<std::pair<std::size_t, ref::C>>> env2;
    for (std::size_t i = 0; i < st.v.size(); ++i) if (st.v[i] != ref::C{}) env2[i & ~mask].push_back({sub(i), st.v[i]});
    for (auto& [e, l] : env2) for (auto& [i, a] : l) for (auto& [j, b] : l) it->second(i, j) += a * std::conj(b);
    ++paths;
  }
  void run(mlir::Block::iterator it, mlir::Block::iterator end, Env env, St st) {
    for (; it != end; ++it) {
      mlir::Operation* o = &*it;
      const auto n = opName(o);
      ++ops[n];
      if (auto u = mlir::dyn_cast<UnitaryInterface>(o)) {
        auto p = params(o, env, *this);
        std::vector<unsigned> ts;
        std::vector<ref::Ctrl> cs;
        std::vector<int> order;
        for (auto v : u.getInQubits()) { auto x = take(env, v); ts.push_back(static_cast<unsigned>(x.h)); order.push_back(x.h); }
        for (auto v : u.getPosCtrlQubits()) { auto x = take(env, v); cs.push_back({static_cast<unsigned>(x.h), true}); order.push_back(x.h); }
        for (auto v : u.getNegCtrlQubits()) { auto x = take(env, v); cs.push_back({static_cast<unsigned>(x.h), false}); order.push_back(x.h); }
        if (order.size() != o->getNumResults()) bad("numbers of input and output qubits differ");
        const auto g = gateName(o);
        if (g != "barrier") {
          if (g != "gphase" && ts.size() != (ref::isTwoTarget(g) ? 2U : 1U)) bad("number of targets of " + g);
          if (p.size() != ref::numParams(g)) bad("number of parameters of " + g);
          ref::apply(st.v, g, p, cs, ts);
        }
        for (unsigned i = 0; i < order.size(); ++i) { Val x; x.k = Val::Qubit; x.h = order[i]; env[o->getResult(i)] = x; }
      } else if (n == "mqtopt.measure") {
        const auto k = o->getNumOperands();
        std::vector<int> hs;
        for (auto v : o->getOperands()) hs.push_back(take(env, v).h);
        if (o->getNumResults() != 2 * k) bad("results of a measurement");
        st.measured += static_cast<int>(k);
        if (st.measured > maxMeasure) return; // cut off (same number of measurements on both sides)
        for (std::size_t out = 0; out < (std::size_t{1} << k); ++out) {
          St t = st; Env e = env;
          double w = 0;
          for (std::size_t i = 0; i < t.v.size(); ++i) {
            bool ok = true;
            for (std::size_t j = 0; j < k; ++j) if (((i >> hs[j]) & 1U) != ((out >> j) & 1U)) ok = false;
            if (!ok) t.v[i] = 0; else w += std::norm(t.v[i]);
          }
          if (w < 1e-24) continue;
          for (unsigned j = 0; j < k; ++j) { Val x; x.k = Val::Qubit; x.h = hs[j]; e[o->getResult(j)] = x; Val b; b.i = static_cast<int64_t>((out >> j) & 1U); e[o->getResult(static_cast<unsigned>(k) + j)] = b; }
          auto nx = it; ++nx;
          run(nx, end, std::move(e), std::move(t));
        }
        return;
      } else if (n == "mqtopt.allocQubitRegister") {
        int64_t size = 0;
        if (auto a = o->getInherentAttr("size_attr"); a && *a) size = mlir::cast<mlir::IntegerAttr>(*a).getInt(); else size = take(env, o->getOperand(0)).i;
        Val r; r.k = Val::Reg;
        for (int64_t i = 0; i < size; ++i) { newQubit(st); r.slots.push_back(static_cast<int>(st.n) - 1); }
        env[o->getResult(0)] = r;
      } else if (n == "mqtopt.extractQubit" || n == "mqtopt.insertQubit") {
        const bool ex = n == "mqtopt.extractQubit";
        auto r = take(env, o->getOperand(0));
        Val q; if (!ex) q = take(env, o->getOperand(1));
        int64_t i = 0;
        if (auto a = o->getInherentAttr("index_attr"); a && *a) i = mlir::cast<mlir::IntegerAttr>(*a).getInt(); else i = take(env, o->getOperand(ex ? 1 : 2)).i;
        if (i < 0 || static_cast<std::size_t>(i) >= r.slots.size()) bad("index out of range");
        if (ex) { if (r.slots[i] < 0) bad("qubit extracted twice"); Val x; x.k = Val::Qubit; x.h = r.slots[i]; env[o->getResult(1)] = x; r.slots[i] = -1; }
        else { if (r.slots[i] >= 0) bad("qubit inserted over another one"); r.slots[i] = q.h; }
        env[o->getResult(0)] = r;
      } else if (n == "mqtopt.deallocQubitRegister") { take(env, o->getOperand(0)); }
      else if (n == "arith.constant") {
        Val x; auto a = *o->getInherentAttr("value");
        if (auto f = mlir::dyn_cast<mlir::FloatAttr>(a)) { x.k = Val::Float; x.f = f.getValueAsDouble(); } else x.i = mlir::cast<mlir::IntegerAttr>(a).getInt();
        env[o->getResult(0)] = x;
      } else if (n == "arith.xori" || n == "arith.andi" || n == "arith.ori") {
        auto a = take(env, o->getOperand(0)).i & 1, b = take(env, o->getOperand(1)).i & 1;
        Val x; x.i = n == "arith.xori" ? a ^ b : n == "arith.andi" ? a & b : a | b;
        env[o->getResult(0)] = x;
      } else if (n == "arith.select") {
        auto c = take(env, o->getOperand(0)).i & 1; Val a = take(env, o->getOperand(1)), b = take(env, o->getOperand(2));
        env[o->getResult(0)] = c ? a : b;
      } else if (auto br = mlir::dyn_cast<mlir::cf::BranchOp>(o)) { enter(br.getDest(), br.getDestOperands(), std::move(env), std::move(st)); return; }
      else if (auto cb = mlir::dyn_cast<mlir::cf::CondBranchOp>(o)) {
        const bool c = take(env, cb.getCondition()).i & 1;
        if (c) enter(cb.getTrueDest(), cb.getTrueDestOperands(), std::move(env), std::move(st)); else enter(cb.getFalseDest(), cb.getFalseDestOperands(), std::move(env), std::move(st));
        return;
      } else if (n == "func.return") { finish(o, env, st); return; }
      else bad("unknown operation " + n);
    }
    bad("a block does not end with a terminator");
  }
  // args: initial states of qubit arguments are fixed pseudo-random states, bits are given
  void call(mlir::func::FuncOp f, unsigned bits) {
    St st; st.v = {1};
    Env env;
    auto& b = f.getBody().front();
    unsigned nb = 0, nq = 0;
    for (auto a : b.getArguments()) {
      Val x;
      if (mlir::isa<mqt::ir::opt::QubitType>(a.getType())) { ++nq; newQubit(st, ref::C(0.6, 0.0), ref::C(0.8 * std::cos(nq * 1.3), 0.8 * std::sin(nq * 1.3))); x.k = Val::Qubit; x.h = static_cast<int>(st.n) - 1; }
      else if (a.getType().isF64()) { x.k = Val::Float; x.f = 0.7; }
      else { x.i = (bits >> nb++) & 1U; }
      env[a] = x;
    }
    run(b.begin(), b.end(), std::move(env), std::move(st));
  }
};
inline unsigned numBits(mlir::func::FuncOp f) { unsigned n = 0; for (auto t : f.getArgumentTypes()) if (t.isInteger(1)) ++n; return n; }
// the meaning of the only function of a module for all values of its bit arguments
inline std::vector<Meaning> meaning(mlir::ModuleOp m, std::size_t& paths) {
  std::vector<Meaning> r;
  mlir::func::FuncOp f;
  for (auto g : m.getOps<mlir::func::FuncOp>()) f = g;
  if (!f) throw std::runtime_error("no function in the module");
  for (unsigned b = 0; b < (1U << numBits(f)); ++b) { Interp i; i.call(f, b); paths += i.paths; r.push_back(std::move(i.result)); }
  return r;
}
inline std::string compare(const std::vector<Meaning>& a, const std::vector<Meaning>& b) {
  if (a.size() != b.size()) return "the arguments of the function differ";
  for (std::size_t k = 0; k < a.size(); ++k) {
    auto one = [&](const Meaning& x, const Meaning& y) -> std::string {
      for (auto& [key, m] : x) {
        double w = 0; for (std::size_t i = 0; i < m.n; ++i) w += m(i, i).real();
        auto it = y.find(key);
        if (it == y.end()) { if (w > 1e-10) return "returned values [" + key + "] with probability " + std::to_string(w) + " on one side only"; continue; }
        if (it->second.n != m.n || ref::dist(it->second, m) > 1e-9) return "the states of the returned qubits differ for returned values [" + key + "]";
      }
      return "";
    };
    auto e = one(a[k], b[k]);
    if (e.empty()) e = one(b[k], a[k]);
    if (!e.empty()) return e + " (arguments " + std::to_string(k) + ")";
  }
  return "";
}
inline std::string print(mlir::ModuleOp m) { std::string s; llvm::raw_string_ostream os(s); m.print(os); return s; }
struct Session {
  mlir::MLIRContext ctx;
  std::string diag;
  Session() : ctx(mlir::MLIRContext::Threading::DISABLED) {
    ctx.loadDialect<mqt::ir::opt::MQTOptDialect, mlir::func::FuncDialect, mlir::cf::ControlFlowDialect, mlir::arith::ArithDialect>();
    ctx.getDiagEngine().registerHandler([this](mlir::Diagnostic& d) { if (diag.size() < 600) diag += d.str() + "; "; return mlir::success(); });
  }
  mlir::OwningOpRef<mlir::ModuleOp> parse(const std::string& t) { return mlir::parseSourceString<mlir::ModuleOp>(t, &ctx); }
};
} // namespace mlirx
