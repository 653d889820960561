PRE=r'''
#include "ir/QuantumComputation.hpp"
#include "ir/operations/CompoundOperation.hpp"
#include "ir/operations/ClassicControlledOperation.hpp"
#include "ir/operations/StandardOperation.hpp"
#include "ir/operations/SymbolicOperation.hpp"
#include "ir/operations/NonUnitaryOperation.hpp"
#include "ir/operations/Expression.hpp"
#include "circuit_optimizer/CircuitOptimizer.hpp"
#include "dd/Package.hpp"
#include "dd/FunctionalityConstruction.hpp"
#include "dd/Simulation.hpp"
#include <cmath>
#include <iostream>
#include <sstream>
#define CHECK(c) do { if (!(c)) { std::cerr << "broken: " #c " (line " << __LINE__ << ")\n"; return 1; } } while (0)
using namespace qc;
// the two circuits denote the same unitary (up to a global phase)
static bool same(QuantumComputation a, QuantumComputation b){ dd::Package dd(a.getNqubits()); auto x=dd::buildFunctionality(a,dd).getMatrix(a.getNqubits()); auto y=dd::buildFunctionality(b,dd).getMatrix(b.getNqubits());
 std::complex<double> s=0; for(size_t i=0;i<x.size();++i) for(size_t j=0;j<x.size();++j) s+=std::conj(x[i][j])*y[i][j]; return std::abs(std::abs(s)-double(x.size()))<1e-6; }
'''
Q="src/ir/QuantumComputation.cpp"
C="src/circuit_optimizer/CircuitOptimizer.cpp"
BUGS=[
dict(id="c01-compound-copy-drops-controls", prop="C01",
 edits=[("src/ir/operations/CompoundOperation.cpp","""    : Operation(co), ops(co.ops.size()), customGate(co.customGate) {
""","""    : ops(co.ops.size()), customGate(co.customGate) {
  name = co.name;
  type = co.type;
""")],
 needs="copying a compound operation that was given controls as a whole, then removing the controls again",
 breaks="the copy of a controlled compound operation no longer knows its controls",
 demo='''int main(){ CompoundOperation c; c.emplace_back<StandardOperation>(0,X); c.addControl(Control{2}); auto d=c.clone(); CHECK(d->getControls().size()==1); d->clearControls(); CompoundOperation p; p.emplace_back<StandardOperation>(0,X); CHECK(*d==p); }'''),
dict(id="c01-classic-assignment-condition", prop="C01",
 edits=[("src/ir/operations/ClassicControlledOperation.cpp","""    controlRegister = ccop.controlRegister;
    controlBit = ccop.controlBit;
    expectedValue""","""    if (ccop.controlRegister.has_value()) {
      controlRegister = ccop.controlRegister;
    } else {
      controlBit = ccop.controlBit;
    }
    expectedValue""")],
 needs="copy assignment (not construction) between classically controlled operations of which one is controlled by a bit and the other by a register",
 breaks="the assigned operation is controlled by a bit and a register at the same time",
 demo='''int main(){ QuantumComputation q(1,2); auto& r=q.getClassicalRegisters().at("c"); ClassicControlledOperation a(std::make_unique<StandardOperation>(0,X),r,2,Eq), b(std::make_unique<StandardOperation>(0,X),Bit{1},1,Eq); b=a; CHECK(b==a); CHECK(!b.getControlBit().has_value()); }'''),
dict(id="c01-measurement-equality-order", prop="C01",
 edits=[("src/ir/operations/NonUnitaryOperation.cpp","""        if (perm2.empty()) {
          measurements2.emplace(*qubitIt2, *classicIt2);
        } else {
          measurements2.emplace(perm2.at(*qubitIt2), *classicIt2);""","""        if (perm2.empty()) {
          measurements2.emplace(*qubitIt2, *classicIt2);
        } else {
          measurements2.emplace(perm1.empty() ? *qubitIt2 : perm2.at(*qubitIt2),
                                *classicIt2);""")],
 needs="comparing two measurements with a permutation given only for the second one",
 breaks="equality under permutations ignores the second permutation if the first one is empty",
 demo='''int main(){ NonUnitaryOperation a(0,0), b(1,0); Permutation p; p[0]=1; p[1]=0; CHECK(a.equals(b,{},p)); CHECK(!a.equals(a,{},p)); }'''),
dict(id="c02-controlled-dcx-inverse", prop="C02",
 edits=[("src/ir/operations/StandardOperation.cpp","""  case DCX:
    std::swap(targets[0], targets[1]);
    break;
  // gates where""","""  case DCX:
    if (controls.empty()) {
      std::swap(targets[0], targets[1]);
    }
    break;
  // gates where""")],
 needs="inverting a controlled DCX gate", breaks="the inverse of a controlled DCX is the gate itself",
 demo='''int main(){ QuantumComputation q(3); q.cdcx(2,0,1); auto i=q; i.invert(); for(auto& op: i) q.emplace_back(op->clone()); CHECK(same(q,QuantumComputation(3))); }'''),
dict(id="c02-invert-empty-circuit", prop="C02",
 edits=[(Q,"""void QuantumComputation::invert() {
""","""void QuantumComputation::invert() {
  if (ops.empty() || initialLayout.empty()) {
    return;
  }
"""),(Q,"""  if (initialLayout.size() == outputPermutation.size()) {
    std::swap""","""  if (outputPermutation.size() == initialLayout.size()) {
    std::swap""")],
 needs="inverting a circuit without operations that has a global phase or different input and output permutations",
 breaks="circuits without operations are returned unchanged although they are not their own inverse",
 demo='''int main(){ QuantumComputation q(2); q.gphase(1.25); q.initialLayout[0]=1; q.initialLayout[1]=0; q.invert(); CHECK(std::abs(q.getGlobalPhase()-(2*PI-1.25))<1e-9); CHECK(q.outputPermutation.at(0)==1); }'''),
dict(id="c02-symbolic-u2-inverse", prop="C02",
 edits=[("src/ir/operations/SymbolicOperation.cpp","""    addToSymbolicParameter(0, -PI);
    addToSymbolicParameter(1, PI);
    std::swap(parameter[0], parameter[1]);
    std::swap(symbolicParameter[0], symbolicParameter[1]);""","""    addToSymbolicParameter(0, -PI);
    addToSymbolicParameter(1, PI);
    if (isSymbolicParameter(0) && isSymbolicParameter(1)) {
      std::swap(symbolicParameter[0], symbolicParameter[1]);
    } else {
      std::swap(parameter[0], parameter[1]);
    }""")],
 needs="inverting a U2 gate with exactly one symbolic parameter", breaks="the symbolic parameter stays in its place while the numeric one is exchanged",
 demo='''int main(){ sym::Variable x("x"); QuantumComputation q(1); q.u2(Symbolic(sym::Term<fp>(x)),0.3,0); auto i=q; i.invert(); VariableAssignment a{{x,1.1}}; auto p=q.instantiate(a), r=i.instantiate(a); for(auto& op: r) p.emplace_back(op->clone()); CHECK(same(p,QuantumComputation(1))); }'''),
dict(id="c03-qubit-in-two-registers", prop="C03",
 edits=[(Q,"""      startIndex--;
      count++;
      fusionPossible = true;
      break;
    }
    // 2nd case: can append to end of existing register
    if (startIndex + count == physicalQubitIndex) {
      count++;
      fusionPossible = true;
      break;
    }""","""      startIndex--;
      count++;
      fusionPossible = true;
    }
    // 2nd case: can append to end of existing register
    else if (startIndex + count == physicalQubitIndex) {
      count++;
      fusionPossible = true;
    }""")],
 needs="adding a qubit whose physical index lies between two registers", breaks="the added qubit becomes part of both registers",
 demo='''int main(){ QuantumComputation q; q.addQubitRegister(2,"a"); q.addQubitRegister(2,"b"); q.removeQubit(1); q.addQubit(1,1,1); size_t n=0; for(auto& [k,r]: q.getQuantumRegisters()) n+=r.getSize(); CHECK(n==4); }'''),
dict(id="c03-remove-flagged-ancilla", prop="C03",
 edits=[(Q,"""    if (ancillary.at(logicalQubitIndex)) {
      // if the qubit is ancillary, it is not counted as a qubit
      nancillae--;
    } else {
      nqubits--;
    }""","""    if (ancillary.at(physicalQubitIndex)) {
      // if the qubit is ancillary, it is not counted as a qubit
      nancillae--;
    } else {
      nqubits--;
    }""")],
 needs="removing a qubit that was flagged as ancillary under an initial layout that is not the identity",
 breaks="the numbers of qubits and ancillae no longer agree with the flags",
 demo='''int main(){ QuantumComputation q(3); q.initialLayout[0]=2; q.initialLayout[2]=0; q.setLogicalQubitAncillary(2); q.removeQubit(2); CHECK(q.getNancillae()==0); CHECK(q.getNqubitsWithoutAncillae()==2); }'''),
dict(id="c03-idle-ancilla-logical-index", prop="C03",
 edits=[(Q,"""    if (const bool isIdle = isIdleQubit(physicalIn);""","""    if (const bool isIdle = isIdleQubit(logicalIn);""")],
 needs="initializeIOMapping on a circuit with an ancillary and a permuted initial layout",
 breaks="whether an ancillary is idle is determined from another qubit's operations",
 demo='''int main(){ QuantumComputation q(2); q.addAncillaryRegister(1); q.initialLayout[0]=2; q.initialLayout[2]=0; q.h(0); q.initializeIOMapping(); CHECK(!q.logicalQubitIsGarbage(2)); }'''),
dict(id="c04-insertion-hint-after-cancel", prop="C04",
 edits=[("include/mqt-core/ir/operations/Expression.hpp","""    auto t = rhs.begin();

    while (t != rhs.end()) {
      const auto insertPos =
          std::lower_bound(terms.begin(), terms.end(), *t,""","""    auto t = rhs.begin();
    // both expressions are sorted, so the search may continue behind the
    // position of the previous term
    std::ptrdiff_t pos = 0;

    while (t != rhs.end()) {
      const auto insertPos =
          std::lower_bound(terms.begin() + pos, terms.end(), *t,"""),
  ("include/mqt-core/ir/operations/Expression.hpp","""      if (insertPos != terms.end() && insertPos->getVar() == t->getVar()) {""","""      pos = std::distance(terms.begin(), insertPos);
      if (pos < static_cast<std::ptrdiff_t>(terms.size()) - 1) {
        ++pos;
      }
      if (insertPos != terms.end() && insertPos->getVar() == t->getVar()) {""")],
 needs="a sum in which a term cancels and a later term of the right operand has the variable right behind it",
 breaks="the sum contains the same variable twice, so equal expressions differ and x + y - x - y is not zero",
 demo='''int main(){ sym::Variable x("x"), y("y"), z("z"); using T=sym::Term<double>; using Ex=sym::Expression<double,double>; Ex a{T(x),T(y),T(z)}; Ex b{T(x,-1.),T(y,2.)}; Ex c=a+b; CHECK((c==Ex{T(y,3.),T(z)})); CHECK((a-a).isZero()); }'''),
dict(id="c04-aggregate-two", prop="C04",
 edits=[("include/mqt-core/ir/operations/Expression.hpp","""      while (next != terms.end() && t->getVar() == next->getVar()) {
        t->addCoeff""","""      if (next != terms.end() && t->getVar() == next->getVar()) {
        t->addCoeff""")],
 needs="an expression constructed from at least three terms of the same variable", breaks="not all terms of a variable are combined",
 demo='''int main(){ sym::Variable x("x"); using T=sym::Term<double>; using Ex=sym::Expression<double,double>; Ex a{T(x),T(x),T(x)}; CHECK(a.numTerms()==1); CHECK((a==Ex{T(x,3.)})); }'''),
dict(id="c10-output-comment-gaps", prop="C10",
 edits=[(Q,"""    inverseOutputPermutation.emplace(logical, qubitToIndex[physical]);""","""    inverseOutputPermutation.emplace(logical, physical);""")],
 needs="exporting a circuit from which a qubit was removed so that the physical indices are not consecutive",
 breaks="the output permutation in the exported file refers to physical indices instead of positions",
 demo='''#include "qasm3/Importer.hpp"
int main(){ QuantumComputation q(4); q.h(2); q.cx(2,3); q.removeQubit(1); auto s=q.toQASM(); auto p=qasm3::Importer::imports(s); CHECK(p.outputPermutation.size()==3); for(auto& [k,v]: p.outputPermutation) CHECK(k<3); }'''),
dict(id="c50-swap-reconstruction-polarity", prop="C50",
 edits=[(C,"""    if ((*opC)->getType() != X || (*opC)->getNcontrols() != 1 ||
        (*opC)->getControls().begin()->type != Control::Type::Pos ||
        (*opT)->getType() != X || (*opT)->getNcontrols() != 1 ||
        (*opT)->getControls().begin()->type != Control::Type::Pos) {""","""    if (opC != opT || (*opC)->getType() != X || (*opC)->getNcontrols() != 1) {""")],
 needs="a CNOT with a negative control that is directly followed by a CNOT on the same qubits",
 breaks="CNOTs with negative controls are cancelled or merged as if they were positive",
 demo='''int main(){ QuantumComputation q(2); q.cx(0_nc,1); q.cx(0,1); auto o=q; CircuitOptimizer::swapReconstruction(o); CHECK(same(o,q)); }'''),
dict(id="c50-fusion-last-operation-only", prop="C50",
 edits=[(C,"""      std::size_t involvedQubits = 0;
      for (std::size_t q = 0; q < dag.size(); ++q) {
        if (compop->actsOn(static_cast<Qubit>(q))) {
          ++involvedQubits;
        }
      }
      if (involvedQubits > 1) {""","""      // (the compound operation may have become empty, e.g., -X-H-H-X-)
      const auto involvedQubits =
          compop->empty() ? 0U : compop->back()->getUsedQubits().size();
      if (involvedQubits > 1) {""")],
 needs="a compound operation over several qubits that ends with a single-qubit gate, followed by a gate on another of its qubits",
 breaks="single-qubit gates are fused with (or cancelled against) gates on other qubits",
 demo='''int main(){ QuantumComputation q(2); q.h(0); CompoundOperation c; c.emplace_back<StandardOperation>(0_pc,1,X); c.emplace_back<StandardOperation>(1,X); q.emplace_back<CompoundOperation>(c); q.x(0); auto o=q; CircuitOptimizer::singleQubitGateFusion(o); CHECK(same(o,q)); }'''),
dict(id="c50-cancel-third-polarity", prop="C50",
 edits=[(C,"""            (prevPrevOp0->getType() == X && prevPrevOp0->getNcontrols() == 1U &&
             prevPrevOp0->getControls().begin()->type == Control::Type::Pos);""","""            (prevPrevOp0->getType() == X && prevPrevOp0->getNcontrols() == 1U);""")],
 needs="three alternating CNOTs of which the first one has a negative control", breaks="they are replaced by a SWAP",
 demo='''int main(){ QuantumComputation q(2); q.cx(0_nc,1); q.cx(1,0); q.cx(0,1); auto o=q; CircuitOptimizer::cancelCNOTs(o); CHECK(same(o,q)); }'''),
dict(id="c50-backpropagation-duplicate", prop="C50",
 edits=[(C,"""          it1->second = *missingLogicalQubits.begin();
          missingLogicalQubits.erase(missingLogicalQubits.begin());""","""          it1->second = *missingLogicalQubits.begin();""")],
 needs="backpropagating an incomplete output permutation through a SWAP whose first qubit is no output while the logical qubit of the second one is taken",
 breaks="two physical qubits are assigned the same logical qubit",
 demo='''#include <set>
int main(){ QuantumComputation q(3); q.swap(0,1); q.outputPermutation.clear(); q.outputPermutation[1]=1; CircuitOptimizer::backpropagateOutputPermutation(q); std::set<Qubit> s; for(auto& [k,v]: q.initialLayout) s.insert(v); CHECK(s.size()==3); }'''),
dict(id="c52-savings-overestimated", prop="C52",
 edits=[(C,"""          if (savings.find(block) != savings.end()) {
            savings[block] -= 1;
          } else {""","""          if (savings.find(block) == savings.end()) {""")],
 needs="an operation that shares at least two qubits with one block and would make the combined block too large",
 breaks="too few blocks are finalised, so a block exceeds the maximum size",
 demo='''int main(){ QuantumComputation q(6); q.h(0); q.cx(0,1); q.cx(1,2); q.cx(3,4); q.mcx({0,1},3); CircuitOptimizer::collectBlocks(q,3); for(auto& op: q) CHECK(op->getUsedQubits().size()<=3); }'''),
]
