PRE='''
#include "dd/Package.hpp"
#include "dd/Operations.hpp"
#include "dd/Simulation.hpp"
#include "dd/FunctionalityConstruction.hpp"
#include "dd/Export.hpp"
#include "ir/QuantumComputation.hpp"
#include "ir/operations/StandardOperation.hpp"
#include "ir/operations/ClassicControlledOperation.hpp"
#include <cstdio>
#include <sstream>
#include <memory>
using namespace dd;
#define CHECK(c) do { if (!(c)) { std::printf("broken: %s\\n", #c); return 1; } } while (0)
'''
BUGS=[
dict(id="c20-xxplusyy-inverse-beta", prop="C20",
 edits=[("src/dd/Operations.cpp","""  case qc::XXminusYY:
  case qc::XXplusYY:
    params[0U] = -params[0U];
    break;
""","""  case qc::XXminusYY:
  case qc::XXplusYY:
    params[0U] = -params[0U];
    params[1U] = -params[1U];
    break;
""")],
 needs="the inverse diagram of an XXplusYY or XXminusYY gate whose second angle is not a multiple of pi",
 breaks="getInverseDD of the two-angle gates no longer is the inverse of getDD",
 demo='''int main(){ Package dd(2); qc::StandardOperation op(qc::Targets{0,1}, qc::XXplusYY, std::vector<qc::fp>{0.7,0.3});
 auto a=getDD(op,dd); auto b=getInverseDD(op,dd); auto p=dd.multiply(b,a); CHECK(dd.isCloseToIdentity(p)); }'''),
dict(id="c26-leq-strict", prop="C26",
 edits=[("src/dd/Operations.cpp","""      return actualValue <= expectedValue;""","""      return actualValue < expectedValue || expectedValue == 0U;""")],
 needs="a <= condition whose register value equals the non-zero bound (or any value against the bound 0)",
 breaks="classically controlled operations with <= conditions are executed for the wrong register values, so the sampled distribution is wrong",
 demo='''int main(){ qc::QuantumComputation qc(2,2); qc.x(0); qc.measure(0,0);
 qc.classicControlled(qc::X, 1, qc.getClassicalRegisters().begin()->second, 1U, qc::ComparisonKind::Leq); qc.measure(1,1);
 auto dd=std::make_unique<Package>(2); auto h=sample(qc, dd->makeZeroState(2), *dd, 50, 1); CHECK(h.size()==1 && h.count("11")); }'''),
dict(id="c23-partial-trace-cached", prop="C23",
 edits=[("include/mqt-core/dd/Package.hpp","""      const auto eliminateAll = std::all_of(
          eliminate.begin(),""","""      const auto eliminateAll = std::any_of(
          eliminate.begin(),""")],
 needs="two partial traces of the same matrix over different sets of qubits in one package",
 breaks="a partial trace returns the cached result of a trace over another set of qubits",
 demo='''int main(){ Package dd(3); qc::QuantumComputation qc(3); qc.ry(0.3,0); qc.cx(0,1); qc.ry(0.9,1); qc.cx(1,2); qc.rx(0.4,2); qc.h(0); qc.cx(2,0);
 auto m=buildFunctionality(qc,dd); auto a=dd.partialTrace(m,{true,false,true}); auto b=dd.partialTrace(m,{false,true,true}); dd.incRef(b); auto M=b.getMatrix(1);
 Package d2(3); auto m2=buildFunctionality(qc,d2); auto b2=d2.partialTrace(m2,{false,true,true}); auto N=b2.getMatrix(1);
 for(int i=0;i<2;i++)for(int j=0;j<2;j++) CHECK(std::abs(M[i][j]-N[i][j])<1e-9); }'''),
dict(id="c24-kronecker-cache-survives-gc", prop="C24",
 edits=[("src/dd/Package.cpp","""    vectorInnerProduct.clear();
    vectorKronecker.clear();
    matrixVectorMultiplication.clear();
  }""","""    vectorInnerProduct.clear();
    matrixVectorMultiplication.clear();
  }"""),("src/dd/Package.cpp","""    vectorInnerProduct.clear();
    vectorKronecker.clear();
    matrixKronecker.clear();""","""    vectorInnerProduct.clear();
    matrixKronecker.clear();""")],
 needs="two Kronecker products of the same state nodes with a garbage collection that collects the first result in between",
 breaks="the second product is read from a cache entry that points to collected nodes",
 demo='''int main(){ Package dd(6); qc::QuantumComputation q(2); q.ry(0.3,0); q.cx(0,1); q.ry(0.8,1);
 auto z=dd.makeZeroState(2); auto a=simulate(q,z,dd); q.rx(0.2,0); q.cx(1,0); auto b=simulate(q,dd.makeZeroState(2),dd);
 auto k=dd.kronecker(a,b,2); auto ref=k.getVector(); dd.garbageCollect(true);
 qc::QuantumComputation g(4); g.h(0); g.cx(0,1); g.ry(0.7,2); g.cx(2,3); g.cx(1,2); auto w=simulate(g,dd.makeZeroState(4),dd);
 auto k2=dd.kronecker(a,b,2); auto v=k2.getVector(); CHECK(v.size()==ref.size());
 for(size_t i=0;i<v.size();i++) CHECK(std::abs(v[i]-ref[i])<1e-9); }'''),
dict(id="c25-matrix-tie-break", prop="C25",
 edits=[("src/dd/CachedEdge.cpp","""      if (const auto mag2 = w.mag2(); mag2 - maxMag2 > RealNumber::eps) {""","""      if (const auto mag2 = w.mag2(); mag2 > maxMag2) {""")],
 needs="a matrix node with two successors of the same magnitude that differ by rounding between two routes to the same matrix",
 breaks="the same matrix reached by two routes gets two different root nodes",
 demo='''int main(){ int bad=0; for(int k=1;k<=60;k++){ Package dd(2); double t=0.37*k, s=0.11*k;
 qc::StandardOperation a(0,qc::P,std::vector<qc::fp>{t}), b(0,qc::P,std::vector<qc::fp>{s}), h(0,qc::H), c(0,qc::P,std::vector<qc::fp>{t+s});
 auto H=getDD(h,dd); auto x=dd.multiply(getDD(a,dd),dd.multiply(H,getDD(b,dd))); 
 auto y=dd.multiply(dd.multiply(getDD(a,dd),H),getDD(b,dd));
 auto z=dd.multiply(getDD(b,dd),dd.multiply(x,getDD(a,dd))); auto z2=dd.multiply(getDD(c,dd),dd.multiply(H,getDD(c,dd)));
 auto hh=dd.multiply(H,dd.multiply(z,H)), hh2=dd.multiply(dd.multiply(H,z2),H); if(!(x==y)||!(z==z2)||!(hh==hh2)) bad++; }
 std::printf("%d\\n",bad); CHECK(bad==0); }'''),
dict(id="c26-reset-permuted-twice", prop="C26",
 edits=[("src/dd/Operations.cpp","""      in = applyUnitaryOperation(x, in, dd);
    }""","""      in = applyUnitaryOperation(x, in, dd, permutation);
    }""")],
 needs="a reset after a SWAP (which simulation executes virtually by relabelling) or under a non-trivial initial layout",
 breaks="the reset flips a different qubit than the one it measured",
 demo='''int main(){ qc::QuantumComputation qc(3,3); qc.x(0); qc.swap(0,1); qc.swap(1,2); qc.reset(2); for(int i=0;i<3;i++) qc.measure(i,i);
 auto dd=std::make_unique<Package>(3); auto h=sample(qc, dd->makeZeroState(3), *dd, 50, 1); CHECK(h.size()==1 && h.count("000")); }'''),
dict(id="c27-text-weights-rounded", prop="C27",
 edits=[("src/dd/Export.cpp","""              os << edgeIdx << " " << edge.w.toString(false, 16);
            }
            os << ")";
          }
          os << "\\n";
        }
        node = nullptr;""","""              os << edgeIdx << " " << edge.w.toString(false, 12);
            }
            os << ")";
          }
          os << "\\n";
        }
        node = nullptr;""")],
 needs="the text format of a state whose weights need more than twelve digits",
 breaks="a state read back from the text format is a different node than the one written",
 demo='''int main(){ Package dd(3); qc::QuantumComputation q(3); q.ry(0.3,0); q.cx(0,1); q.ry(0.7777,1); q.cx(1,2); q.rz(0.123,2); q.ry(1.1,2); q.cx(2,0);
 auto a=simulate(q,dd.makeZeroState(3),dd); std::stringstream ss; serialize(a,ss,false); auto b=dd.deserialize<vNode>(ss,false); CHECK(a.p==b.p); }'''),
]
