import os
PRE=open('/verif/tools/bugs/dd1.py').read().split("'''")[1].replace('\\\\n','\\n')
BUGS=[
dict(id="c20-compound-inverse-permutation", prop="C20",
 edits=[("src/dd/Operations.cpp","""        e = dd.multiply(e, getInverseDD(*operation, dd, permutation));""","""        e = dd.multiply(e, getInverseDD(*operation, dd));""")],
 needs="the inverse diagram of a compound operation under a qubit permutation",
 breaks="the inverse of a compound operation is built on the unpermuted qubits",
 demo='''#include "ir/operations/CompoundOperation.hpp"
int main(){ Package dd(2); qc::CompoundOperation op; op.emplace_back<qc::StandardOperation>(0,qc::H); op.emplace_back<qc::StandardOperation>(0,qc::T);
 qc::Permutation p; p[0]=1; p[1]=0; auto a=getDD(op,dd,p); auto b=getInverseDD(op,dd,p); CHECK(dd.multiply(a,b).isIdentity()); }'''),
dict(id="c21-three-cycle-output", prop="C21",
 edits=[("include/mqt-core/dd/Operations.hpp","""    // permutations agree for this key value
    if (current == goal) {
      continue;""","""    // permutations agree for this key value, or they do once the partner of
    // this qubit has been handled
    if (current == goal || (current < goal && from.size() == to.size())) {
      continue;""")],
 needs="a remaining qubit permutation with a cycle of length three at the end of the circuit",
 breaks="the output permutation is only established for pairwise exchanges; longer cycles leave qubits in wrong places",
 demo='''int main(){ Package dd(3); qc::QuantumComputation q(3); q.x(0); q.outputPermutation[0]=1; q.outputPermutation[1]=2; q.outputPermutation[2]=0;
 auto a=buildFunctionality(q,dd); auto M=a.getMatrix(3);
 for(int i=0;i<8;i++){ int x=i^1; int s=((x>>0&1)<<1)|((x>>1&1)<<2)|((x>>2&1)<<0); CHECK(std::abs(M[s][i]-1.0)<1e-9); } }'''),
dict(id="c22-recursive-base-swap", prop="C21",
 edits=[("src/dd/FunctionalityConstruction.cpp","""    auto f = Package::makeIdent();
    if (const auto& op = qc.at(opIdx);
        op->getType() == qc::OpType::SWAP && !op->isControlled()) {""","""    auto f = Package::makeIdent();
    if (const auto& op = qc.at(opIdx); op->getType() == qc::OpType::SWAP &&
                                       op->getNcontrols() < opIdx % 2U) {""")],
 needs="nothing (equivalent rewrite used as control)",
 breaks="",demo="int main(){}") if os.environ.get("X") else None,
dict(id="c25-stale-tail-after-gc", prop="C25",
 edits=[("src/dd/RealNumberUniqueTable.cpp","""      } else {
        lastp = p;
        p = p->next();
      }
      tailTable[key] = lastp;
    }""","""      } else {
        lastp = p;
        tailTable[key] = lastp;
        p = p->next();
      }
    }""")],
 needs="a garbage collection that empties a bucket of the number table, followed by lookups in the same bucket or next to its border",
 breaks="the last entry of a bucket keeps pointing to a collected number, so equal numbers are not found again or are inserted behind freed entries",
 demo='''#include "dd/RealNumberUniqueTable.hpp"
int main(){ auto mm=MemoryManager::create<RealNumber>(64); RealNumberUniqueTable t(mm,100); double a=7.62939453125e-06, b=2.288818359375e-05; t.lookup(a); t.garbageCollect(true); auto* p=t.lookup(a); t.lookup(b); CHECK(p==t.lookup(a)); CHECK(t.getStats().numEntries==2||t.getStats().numEntries==3); std::size_t n=t.getStats().numEntries; for(double x: {0.1,0.2,0.3}) t.lookup(x); for(double x: {0.1,0.2,0.3,a,b}) t.lookup(x); CHECK(t.getStats().numEntries==n+3); }'''),
dict(id="c27-stale-edge-weight-text", prop="C27",
 edits=[("src/dd/Export.cpp","""        std::int64_t edgeIdx = edge.isTerminal() ? -1 : nodeIndex[edge.p];
        os.write(reinterpret_cast<const char*>(&edgeIdx),
                 sizeof(decltype(edgeIdx)));
        edge.w.writeBinary(os);
      }
    } else {""","""        std::int64_t edgeIdx = edge.isTerminal() ? -1 : nodeIndex[edge.p];
        os.write(reinterpret_cast<const char*>(&edgeIdx),
                 sizeof(decltype(edgeIdx)));
        if (basic.p->v > 0U && edge.isTerminal() && !edge.w.exactlyZero()) {
          Complex::one().writeBinary(os);
        } else {
          edge.w.writeBinary(os);
        }
      }
    } else {""")],
 needs="the binary format of a matrix with a weight on an edge that leads to the terminal from above the lowest level (a skipped identity)",
 breaks="weights of edges to the terminal are written as one, so the matrix read back is another one",
 demo='''int main(){ Package dd(2); qc::QuantumComputation q(2); q.s(1); auto a=buildFunctionality(q,dd);
 std::stringstream ss; serialize(a,ss,true); auto b=dd.deserialize<mNode>(ss,true); CHECK(a==b); }'''),
dict(id="c28-magnitudes-skipped-level", prop="C28",
 edits=[("include/mqt-core/dd/Package.hpp","""        if (x.isIdentity() || x.p->v < var) {
          if (i == 0 || i == 3) {
            e1 = x;
          }
        } else {
          auto& xSuccessor = x.p->e[i];
          e1 = {xSuccessor.p, 0};
          if (!xSuccessor.w.exactlyZero()) {
            e1.w = x.w * xSuccessor.w;
          }
        }
      } else {
        auto& xSuccessor = x.p->e[i];
        e1 = {xSuccessor.p, 0};
        if (!xSuccessor.w.exactlyZero()) {
          e1.w = x.w * xSuccessor.w;
        }
      }
      CachedEdge<Node> e2{};
      if constexpr (std::is_same_v<Node, mNode> ||
                    std::is_same_v<Node, dNode>) {
        if (y.isIdentity() || y.p->v < var) {
          if (i == 0 || i == 3) {
            e2 = y;
          }""","""        if (x.isIdentity() || x.p->v < var) {
          if (i == 0 || i == 3) {
            e1 = x;
          }
        } else {
          auto& xSuccessor = x.p->e[i];
          e1 = {xSuccessor.p, 0};
          if (!xSuccessor.w.exactlyZero()) {
            e1.w = x.w * xSuccessor.w;
          }
        }
      } else {
        auto& xSuccessor = x.p->e[i];
        e1 = {xSuccessor.p, 0};
        if (!xSuccessor.w.exactlyZero()) {
          e1.w = x.w * xSuccessor.w;
        }
      }
      CachedEdge<Node> e2{};
      if constexpr (std::is_same_v<Node, mNode> ||
                    std::is_same_v<Node, dNode>) {
        if (y.isIdentity() || y.p->v + 1U < var) {
          if (i == 0 || i == 3) {
            e2 = y;
          }""")],
 needs="the garbage qubit's two halves meet at a level that exactly one of them skips",
 breaks="summing out a garbage qubit reads the successors of a lower node as if they belonged to the skipped level",
 demo='''int main(){ Package dd(5); qc::QuantumComputation q(5); q.mcswap({1,2},4,0); auto a=buildFunctionality(q,dd); auto M=a.getMatrix(5);
 auto r=dd.reduceGarbage(a,{false,false,false,false,true},false); auto N=r.getMatrix(5);
 for(int i=0;i<32;i++) for(int j=0;j<16;j++) CHECK(std::abs(std::abs(N[i][j])-std::sqrt(std::norm(M[i][j])+std::norm(M[i][j+16])))<1e-9); }'''),
]
BUGS=[b for b in BUGS if b]
