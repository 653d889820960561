// A pool of decision diagrams with dense shadows, driven by a random history of operations.
#pragma once
#include "ddx.hpp"
#include "dd/Export.hpp"

namespace ddx {
struct Machine {
  pbt::Src& s;
  pbt::Ctx& c;
  std::unique_ptr<dd::Package> p;
  std::size_t nmax;
  struct V { dd::vEdge e; Vec v; std::size_t n; int refs; };
  struct M { dd::mEdge e; Mat m; std::size_t n; int refs; };
  std::vector<V> vs;
  std::vector<M> ms;
  std::string log;
  std::size_t steps = 0;
  bool gc = false; // histories with garbage collection: items without a reference are forgotten when one runs
  static constexpr double TOL = 1e-8;

  Machine(pbt::Src& s_, pbt::Ctx& c_, std::size_t n, std::size_t buckets) : s(s_), c(c_), p(mkPackage(n, buckets)), nmax(n) {}

  double scaleOf(const Vec& v) { double m = 1; for (auto& x : v) m = std::max(m, std::abs(x)); return m; }
  void checkV(const V& x, const std::string& what) { auto g = toVec(x.e, x.n); double d = ref::dist(g, x.v); if (!(d < TOL * scaleOf(x.v))) pbt::fail(what + ": vector is " + ref::show(g) + " instead of " + ref::show(x.v) + "\n history: " + log); }
  void checkM(const M& x, const std::string& what) { auto g = toMat(x.e, x.n); double d = ref::dist(g, x.m); if (!(d < TOL * scaleOf(x.m.a))) pbt::fail(what + ": matrix (" + std::to_string(x.n) + " qubits) is " + ref::show(g.a) + " instead of " + ref::show(x.m.a) + "\n history: " + log); }
  void checkScalar(C got, C want, const std::string& what) { if (!(std::abs(got - want) < 10 * TOL * std::max(1.0, std::abs(want)))) { std::ostringstream o; o << what << ": " << got << " instead of " << want << "\n history: " << log; pbt::fail(o.str()); } }
  void note(const std::string& t) { log += t + "; "; ++steps; }
  bool tame(const Vec& v) { double m = 0; for (auto& x : v) m = std::max(m, std::abs(x)); return m < 1e3; }

  int pickV() { return vs.empty() ? -1 : static_cast<int>(s.below(vs.size())); }
  int pickM() { return ms.empty() ? -1 : static_cast<int>(s.below(ms.size())); }
  int pickV(std::size_t n) { std::vector<int> k; for (std::size_t i = 0; i < vs.size(); ++i) if (vs[i].n == n) k.push_back(static_cast<int>(i)); return k.empty() ? -1 : s.pick(k); }
  int pickM(std::size_t n) { std::vector<int> k; for (std::size_t i = 0; i < ms.size(); ++i) if (ms[i].n == n) k.push_back(static_cast<int>(i)); return k.empty() ? -1 : s.pick(k); }
  std::string nv(std::size_t i) { return "v" + std::to_string(i); }
  std::string nm(std::size_t i) { return "m" + std::to_string(i); }

  // refs: references the library already took for the caller
  void addV(const dd::vEdge& e, Vec v, std::size_t n, int refs, const std::string& what) {
    if (!tame(v)) { for (int i = 0; i < refs; ++i) p->decRef(e); return; }
    V x{e, std::move(v), n, refs};
    if (gc && refs == 0 && s.chance(2, 3)) { p->incRef(e); x.refs = 1; }
    checkV(x, what);
    vs.push_back(std::move(x));
  }
  void addM(const dd::mEdge& e, Mat m, std::size_t n, int refs, const std::string& what) {
    if (!tame(m.a)) { for (int i = 0; i < refs; ++i) p->decRef(e); return; }
    M x{e, std::move(m), n, refs};
    if (gc && refs == 0 && s.chance(2, 3)) { p->incRef(e); x.refs = 1; }
    checkM(x, what);
    ms.push_back(std::move(x));
  }
  void newVector() {
    std::size_t n = static_cast<std::size_t>(s.range(1, static_cast<int>(std::min<std::size_t>(nmax, 4))));
    Vec v; dd::vEdge e;
    switch (s.below(4)) {
    case 0: { std::vector<bool> b(n); std::size_t x = 0; for (std::size_t i = 0; i < n; ++i) { b[i] = s.coin(); if (b[i]) x |= std::size_t{1} << i; } v.assign(std::size_t{1} << n, C{}); v[x] = 1; e = p->makeBasisState(n, b); break; }
    case 1: v.assign(std::size_t{1} << n, C{}); v[0] = v[v.size() - 1] = M_SQRT1_2; e = p->makeGHZState(n); break;
    default: v = genVec(s, n); e = p->makeStateFromVector(toCVec(v));
    }
    note(nv(vs.size()) + "=" + ref::show(v));
    addV(e, v, n, 1, "new vector");
  }
  void newMatrix() {
    std::size_t n = static_cast<std::size_t>(s.range(1, static_cast<int>(std::min<std::size_t>(nmax, 4))));
    Mat m; dd::mEdge e;
    if (s.coin()) { // a gate: unitary and mostly skipped levels
      spec::GenCfg g; g.maxControls = 2;
      auto o = spec::genGate(s, static_cast<unsigned>(n), g);
      m = spec::unitary({o}, static_cast<unsigned>(n));
      e = dd::getDD(*spec::makeOp(o), *p);
      note(nm(ms.size()) + "=" + spec::show(o) + " on " + std::to_string(n));
    } else {
      if (n > 3) n = 3;
      m = genMat(s, n);
      e = p->makeDDFromMatrix(toCMat(m));
      note(nm(ms.size()) + "=" + ref::show(m.a));
    }
    addM(e, m, n, 0, "new matrix");
  }
  void arithmetic(int which = -1) {
    switch (which >= 0 ? static_cast<std::size_t>(which) : s.below(15)) {
    case 0: case 1: newVector(); return;
    case 2: case 3: newMatrix(); return;
    case 4: { int a = pickV(); if (a < 0) return newVector(); int b = pickV(vs[a].n);
      Vec r = vs[a].v; for (std::size_t i = 0; i < r.size(); ++i) r[i] += vs[b].v[i];
      note(nv(vs.size()) + "=" + nv(a) + "+" + nv(b));
      addV(p->add(vs[a].e, vs[b].e), r, vs[a].n, 0, "add"); c.label("add vectors"); return; }
    case 5: { int a = pickM(); if (a < 0) return newMatrix(); int b = pickM(ms[a].n);
      Mat r = ms[a].m; for (std::size_t i = 0; i < r.a.size(); ++i) r.a[i] += ms[b].m.a[i];
      note(nm(ms.size()) + "=" + nm(a) + "+" + nm(b));
      addM(p->add(ms[a].e, ms[b].e), r, ms[a].n, 0, "add"); c.label("add matrices"); return; }
    case 6: { int a = pickM(); if (a < 0) return newMatrix(); int b = pickV(ms[a].n); if (b < 0) return newVector();
      note(nv(vs.size()) + "=" + nm(a) + "*" + nv(b));
      addV(p->multiply(ms[a].e, vs[b].e), ref::mul(ms[a].m, vs[b].v), ms[a].n, 0, "multiply"); c.label("matrix * vector"); return; }
    case 7: { int a = pickM(); if (a < 0) return newMatrix(); int b = pickM(ms[a].n);
      note(nm(ms.size()) + "=" + nm(a) + "*" + nm(b));
      addM(p->multiply(ms[a].e, ms[b].e), ref::mul(ms[a].m, ms[b].m), ms[a].n, 0, "multiply"); c.label("matrix * matrix"); return; }
    case 8: { int a = pickV(), b = pickV(); if (a < 0 || vs[a].n + vs[b].n > std::min<std::size_t>(nmax, 6)) return newVector();
      note(nv(vs.size()) + "=" + nv(a) + "(x)" + nv(b));
      addV(p->kronecker(vs[a].e, vs[b].e, vs[b].n), ref::kron(vs[a].v, vs[b].v), vs[a].n + vs[b].n, 0, "kronecker"); c.label("kronecker vectors"); return; }
    case 9: { int a = pickM(), b = pickM(); if (a < 0 || ms[a].n + ms[b].n > std::min<std::size_t>(nmax, 5)) return newMatrix();
      note(nm(ms.size()) + "=" + nm(a) + "(x)" + nm(b));
      addM(p->kronecker(ms[a].e, ms[b].e, ms[b].n), ref::kron(ms[a].m, ms[b].m), ms[a].n + ms[b].n, 0, "kronecker"); c.label("kronecker matrices"); return; }
    case 10: { int a = pickV(); if (a < 0) return newVector();
      Vec r = vs[a].v; for (auto& x : r) x = std::conj(x);
      note(nv(vs.size()) + "=conj " + nv(a));
      addV(p->conjugate(vs[a].e), r, vs[a].n, 0, "conjugate"); c.label("conjugate"); return; }
    case 11: { int a = pickM(); if (a < 0) return newMatrix();
      note(nm(ms.size()) + "=adj " + nm(a));
      addM(p->conjugateTranspose(ms[a].e), ref::adj(ms[a].m), ms[a].n, 0, "conjugateTranspose"); c.label("adjoint"); return; }
    case 12: { int a = pickV(); if (a < 0) return newVector(); int b = pickV(vs[a].n);
      note("<" + nv(a) + "|" + nv(b) + ">");
      C want = ref::dot(vs[a].v, vs[b].v);
      auto g = p->innerProduct(vs[a].e, vs[b].e);
      checkScalar({g.r, g.i}, want, "innerProduct");
      checkScalar(p->fidelity(vs[a].e, vs[b].e), std::norm(want), "fidelity"); c.label("inner product"); return; }
    case 13: { int a = pickM(); if (a < 0) return newMatrix(); int b = pickV(ms[a].n); if (b < 0) return newVector();
      Mat h = ms[a].m, ad = ref::adj(h); for (std::size_t i = 0; i < h.a.size(); ++i) h.a[i] += ad.a[i];
      if (ref::dist(h, Mat(h.n)) < 1e-6) return;
      note("<" + nv(b) + "|" + nm(a) + "+adj|" + nv(b) + ">");
      auto he = p->add(ms[a].e, p->conjugateTranspose(ms[a].e));
      if (he.isZeroTerminal() || vs[b].e.isTerminal()) return; // documented preconditions
      checkScalar(p->expectationValue(he, vs[b].e), ref::dot(vs[b].v, ref::mul(h, vs[b].v)).real(), "expectationValue"); c.label("expectation value"); return; }
    default: { int a = pickM(); if (a < 0) return newMatrix();
      std::size_t n = ms[a].n;
      if (s.coin()) {
        C t; for (std::size_t i = 0; i < ms[a].m.n; ++i) t += ms[a].m(i, i);
        note("trace " + nm(a));
        auto g = p->trace(ms[a].e, n);
        checkScalar({g.r, g.i}, t / static_cast<double>(ms[a].m.n), "trace"); c.label("trace"); return;
      }
      std::vector<bool> el(n); std::string es; std::vector<unsigned> keep, drop;
      for (std::size_t i = 0; i < n; ++i) { el[i] = s.coin(); es += el[i] ? '1' : '0'; (el[i] ? drop : keep).push_back(static_cast<unsigned>(i)); }
      note("ptrace " + nm(a) + " of " + es);
      Mat r(std::size_t{1} << keep.size());
      auto spread = [](std::size_t x, const std::vector<unsigned>& q) { std::size_t y = 0; for (std::size_t i = 0; i < q.size(); ++i) if ((x >> i) & 1U) y |= std::size_t{1} << q[i]; return y; };
      for (std::size_t i = 0; i < r.n; ++i) for (std::size_t j = 0; j < r.n; ++j) for (std::size_t k = 0; k < (std::size_t{1} << drop.size()); ++k) r(i, j) += ms[a].m(spread(i, keep) | spread(k, drop), spread(j, keep) | spread(k, drop)) / static_cast<double>(std::size_t{1} << drop.size());
      auto e = p->partialTrace(ms[a].e, el);
      M x{e, r, keep.size(), 0};
      checkM(x, "partialTrace of " + nm(a) + " eliminating " + es);
      c.label("partial trace"); return; }
    }
  }
  // an item about to be consumed holds one reference; further ones stay with a copy
  void splitV(int i) { if (vs[i].refs > 1) { V k = vs[i]; --k.refs; vs[i].refs = 1; vs.push_back(k); } }
  void splitM(int i) { if (ms[i].refs > 1) { M k = ms[i]; --k.refs; ms[i].refs = 1; ms.push_back(k); } }
  // functions that keep the reference counts themselves
  void managed(int which = -1) {
    switch (which >= 0 ? static_cast<std::size_t>(which) : s.below(5)) {
    case 0: { int a = pickM(); if (a < 0) return newMatrix(); int b = pickV(ms[a].n); if (b < 0 || vs[b].refs == 0) return newVector();
      note(nv(b) + "=apply " + nm(a));
      Vec r = ref::mul(ms[a].m, vs[b].v);
      if (!tame(r)) return;
      M keepM = ms[a];
      if (keepM.refs == 0) { p->incRef(keepM.e); ms[a].refs = 1; }
      splitV(b);
      vs[b].e = p->applyOperation(ms[a].e, vs[b].e); vs[b].v = r;
      afterCollect();
      checkV(vs[b], "applyOperation"); c.label("apply to vector"); return; }
    case 1: { int a = pickM(); if (a < 0) return newMatrix(); int b = pickM(ms[a].n); if (b == a || ms[b].refs == 0) return;
      bool left = s.coin();
      note(nm(b) + "=apply " + nm(a) + (left ? " left" : " right"));
      Mat r = left ? ref::mul(ms[a].m, ms[b].m) : ref::mul(ms[b].m, ms[a].m);
      if (!tame(r.a)) return;
      if (ms[a].refs == 0) { p->incRef(ms[a].e); ms[a].refs = 1; }
      splitM(b);
      ms[b].e = p->applyOperation(ms[a].e, ms[b].e, left); ms[b].m = r;
      afterCollect();
      checkM(ms[b], "applyOperation"); c.label("apply to matrix"); return; }
    case 2: { int a = pickV(); if (a < 0 || vs[a].refs == 0) return newVector();
      if (std::abs(ref::norm(vs[a].v) - 1) > 1e-9) return;
      std::mt19937_64 rng(s.below(1000));
      splitV(a);
      auto before = vs[a].v;
      auto q = static_cast<dd::Qubit>(s.below(vs[a].n));
      auto r = p->measureOneCollapsing(vs[a].e, q, rng);
      note("measure " + nv(a) + " q" + std::to_string(q) + "->" + r);
      spec::project(before, q, r == '1');
      double nn = ref::norm(before); if (nn < 1e-6) pbt::fail("measurement produced an impossible outcome\n history: " + log);
      for (auto& x : before) x /= nn;
      vs[a].v = before;
      afterCollect();
      checkV(vs[a], "measureOneCollapsing"); c.label("collapse"); return; }
    case 3: { int a = pickV(); if (a < 0) return; p->incRef(vs[a].e); ++vs[a].refs; note("ref " + nv(a)); return; }
    default: { int a = pickM(); if (a < 0) return; p->incRef(ms[a].e); ++ms[a].refs; note("ref " + nm(a)); return; }
    }
  }
  // ancillary and garbage reduction hand the reference over
  void reduce(int which = -1) {
    std::vector<bool> q;
    auto gen = [&](std::size_t n) { q.assign(n, false); std::string t; for (std::size_t i = 0; i < n; ++i) { q[i] = s.coin(); t += q[i] ? '1' : '0'; } return t; };
    auto maskOf = [&] { std::size_t k = 0; for (std::size_t i = 0; i < q.size(); ++i) if (q[i]) k |= std::size_t{1} << i; return k; };
    switch (which >= 0 ? static_cast<std::size_t>(which) : s.below(3)) {
    case 0: { int a = pickV(); if (a < 0 || vs[a].refs < 1 || vs[a].e.isTerminal()) return;
      auto t = gen(vs[a].n); note("garbage " + nv(a) + " " + t);
      if (maskOf() == 0) return;
      auto want = garbageMag(vs[a].v, q);
      auto r = p->reduceGarbage(vs[a].e, q, true); --vs[a].refs;
      auto g = toVec(r, vs[a].n);
      if (!(magDist(g, want) < TOL * scaleOf(vs[a].v))) pbt::fail("garbage reduction of a vector is wrong\n history: " + log);
      V x{r, g, vs[a].n, 1}; if (vs[a].refs == 0) vs.erase(vs.begin() + a); vs.push_back(x); c.label("reduce vector garbage"); return; }
    case 1: { int a = pickM(); if (a < 0 || ms[a].refs < 1 || ms[a].e.isZeroTerminal()) return;
      auto t = gen(ms[a].n); note("ancilla " + nm(a) + " " + t);
      if (maskOf() == 0) return;
      Mat w = ms[a].m; bool reg = s.coin();
      for (std::size_t i = 0; i < w.n; ++i) for (std::size_t j = 0; j < w.n; ++j) if (((reg ? j : i) & maskOf()) != 0) w(i, j) = 0;
      auto r = p->reduceAncillae(ms[a].e, q, reg); --ms[a].refs;
      M x{r, w, ms[a].n, 1}; checkM(x, std::string("ancillary reduction ") + (reg ? "regular" : "inverse"));
      if (ms[a].refs == 0) ms.erase(ms.begin() + a); ms.push_back(x); c.label("reduce ancillae"); return; }
    default: { int a = pickM(); if (a < 0 || ms[a].refs < 1 || ms[a].e.isTerminal()) return;
      auto t = gen(ms[a].n); note("garbage " + nm(a) + " " + t);
      if (maskOf() == 0) return;
      bool reg = s.coin();
      auto r = p->reduceGarbage(ms[a].e, q, reg, true); --ms[a].refs;
      auto g = toMat(r, ms[a].n);
      std::size_t mask = maskOf();
      Mat w(g.n);
      for (std::size_t i = 0; i < w.n; ++i) for (std::size_t j = 0; j < w.n; ++j) w(reg ? i & ~mask : i, reg ? j : j & ~mask) += std::norm(ms[a].m(i, j));
      double dd = 0; for (std::size_t i = 0; i < w.a.size(); ++i) dd = std::max(dd, std::abs(std::sqrt(w.a[i].real()) - std::abs(g.a[i])));
      if (!(dd < TOL * scaleOf(ms[a].m.a))) pbt::fail("garbage reduction of a matrix is wrong: " + ref::show(g.a) + "\n history: " + log);
      M x{r, g, ms[a].n, 1}; if (ms[a].refs == 0) ms.erase(ms.begin() + a); ms.push_back(x); c.label("reduce matrix garbage"); return; }
    }
  }
  void afterCollect() { // an implicit collection may have run: unreferenced diagrams are gone
    forgetUnreferenced();
  }
  void forgetUnreferenced() {
    std::vector<V> a; for (auto& x : vs) if (x.refs > 0) a.push_back(x); else a.push_back(V{{}, {}, 0, -1});
    std::vector<M> b; for (auto& x : ms) if (x.refs > 0) b.push_back(x); else b.push_back(M{{}, {}, 0, -1});
    // keep indices stable for the item just changed; drop the dead ones from the tail only
    for (auto& x : a) if (x.refs == -1) { x.e = dd::vEdge::zero(); x.v.assign(2, C{}); x.n = 1; x.refs = 1; }
    for (auto& x : b) if (x.refs == -1) { x.e = dd::mEdge::one(); x.m = Mat::id(2); x.n = 1; x.refs = 1; }
    vs.swap(a); ms.swap(b);
  }
  void collect(bool force) { note(force ? "gc!" : "gc"); p->garbageCollect(force); forgetUnreferenced(); checkAll("after garbage collection"); c.label(force ? "forced collections" : "collections"); }
  void release() {
    if (s.coin()) { int a = pickV(); if (a < 0 || vs[a].refs < 1) return; p->decRef(vs[a].e); if (--vs[a].refs == 0) { note("drop " + nv(a)); vs.erase(vs.begin() + a); } else note("unref " + nv(a)); }
    else { int a = pickM(); if (a < 0 || ms[a].refs < 1) return; p->decRef(ms[a].e); if (--ms[a].refs == 0) { note("drop " + nm(a)); ms.erase(ms.begin() + a); } else note("unref " + nm(a)); }
  }
  void checkAll(const std::string& what) {
    for (auto& x : vs) checkV(x, what);
    for (auto& x : ms) checkM(x, what);
  }
};
} // namespace ddx
