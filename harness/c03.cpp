// build: {"libs": ["ir"], "config": "asan"}
// C03: register, qubit and layout bookkeeping stays consistent under any history; mappings,
// counts and relabellings derived from a circuit agree with its operations.
#include "spec.hpp"
using namespace pbt;
using spec::Op;

namespace {
template <class F> bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
std::string str(const std::map<unsigned, unsigned>& m) { std::ostringstream o; o << "{"; for (auto [a, b] : m) o << a << ":" << b << " "; o << "}"; return o.str(); }
std::map<unsigned, unsigned> asMap(const qc::Permutation& p) { std::map<unsigned, unsigned> r; for (auto& [a, b] : p) r[a] = b; return r; }

// ------------------------------------------------------------------ (a) history of bookkeeping
struct MQ { unsigned log; bool anc = false, garb = false; std::optional<unsigned> out; };
struct Model {
  std::map<unsigned, MQ> q;                                    // by physical index
  std::vector<std::pair<std::string, unsigned>> cregs;         // name, size in order
  std::optional<unsigned> phys(unsigned l) const { for (auto& [p, m] : q) if (m.log == l) return p; return {}; }
  unsigned nanc() const { unsigned n = 0; for (auto& [p, m] : q) n += m.anc; return n; }
  std::map<unsigned, unsigned> layout() const { std::map<unsigned, unsigned> r; for (auto& [p, m] : q) r[p] = m.log; return r; }
  std::map<unsigned, unsigned> output() const { std::map<unsigned, unsigned> r; for (auto& [p, m] : q) if (m.out) r[p] = *m.out; return r; }
  bool contiguous() const { unsigned i = 0; for (auto& [p, m] : q) if (p != i++) return false; return true; }
};
void check(qc::QuantumComputation& c, const Model& m, const std::string& d) {
  const auto w = [&](const std::string& s) { return s + " after: " + d; };
  require(c.getNqubits() == m.q.size(), w("number of qubits " + std::to_string(c.getNqubits()) + ", expected " + std::to_string(m.q.size())));
  require(c.getNancillae() == m.nanc(), w("number of ancillaries " + std::to_string(c.getNancillae()) + ", expected " + std::to_string(m.nanc())));
  require(c.getNqubitsWithoutAncillae() == m.q.size() - m.nanc(), w("number of regular qubits"));
  require(asMap(c.initialLayout) == m.layout(), w("initial layout " + str(asMap(c.initialLayout)) + ", expected " + str(m.layout())));
  require(asMap(c.outputPermutation) == m.output(), w("output permutation " + str(asMap(c.outputPermutation)) + ", expected " + str(m.output())));
  unsigned ng = 0, maxp = 0, maxl = 0;
  std::set<unsigned> logs;
  for (auto& [p, x] : m.q) {
    require(logs.insert(x.log).second, w("two physical qubits share a logical qubit"));
    maxp = std::max(maxp, p); maxl = std::max(maxl, x.log); ng += x.garb;
    require(c.getAncillary().size() > x.log && c.getGarbage().size() > x.log, w("ancillary/garbage flags do not cover logical qubit " + std::to_string(x.log)));
    require(c.logicalQubitIsAncillary(x.log) == x.anc, w("ancillary flag of logical qubit " + std::to_string(x.log)));
    require(c.logicalQubitIsGarbage(x.log) == x.garb, w("garbage flag of logical qubit " + std::to_string(x.log)));
    require(c.getPhysicalQubitIndex(x.log) == p, w("physical index of logical qubit " + std::to_string(x.log)));
    auto has = c.containsLogicalQubit(x.log);
    require(has.first && has.second == p, w("containsLogicalQubit(" + std::to_string(x.log) + ")"));
    require(c.isIdleQubit(p), w("qubit of an empty circuit not idle"));
  }
  for (unsigned l = 0; l < maxl + 3; ++l) if (!logs.count(l)) {
    require(!c.containsLogicalQubit(l).first && !c.containsLogicalQubit(l).second, w("containsLogicalQubit of an absent qubit"));
    require(throws([&] { (void)c.getPhysicalQubitIndex(l); }), w("getPhysicalQubitIndex of an absent qubit accepted"));
    require(throws([&] { c.removeQubit(l); }), w("removing an absent qubit accepted"));
  }
  require(static_cast<std::size_t>(std::count(c.getAncillary().begin(), c.getAncillary().end(), true)) == m.nanc(), w("flags mark another number of ancillaries than counted"));
  require(c.getNgarbageQubits() == ng, w("number of garbage qubits " + std::to_string(c.getNgarbageQubits()) + ", expected " + std::to_string(ng)));
  require(c.getNmeasuredQubits() == m.q.size() - ng, w("number of measured qubits"));
  require(c.getHighestPhysicalQubitIndex() == maxp && c.getHighestLogicalQubitIndex() == maxl, w("highest index"));
  // registers partition the physical qubits
  std::map<unsigned, std::string> owner;
  std::set<std::string> labels;
  for (int anc = 0; anc < 2; ++anc) for (auto& [n, r] : anc ? c.getAncillaRegisters() : c.getQuantumRegisters()) {
    require(n == r.getName() && r.getSize() > 0, w("register " + n + " stored under another name or empty"));
    for (unsigned i = 0; i < r.getSize(); ++i) {
      const unsigned p = r.getGlobalIndex(i);
      require(p == r[i] && r.contains(p) && r.getLocalIndex(p) == i && r.toString(p) == n + "[" + std::to_string(i) + "]", w("register index arithmetic of " + n));
      require(m.q.count(p) == 1, w("register " + n + " contains the absent physical qubit " + std::to_string(p)));
      require(owner.emplace(p, n).second, w("physical qubit " + std::to_string(p) + " in two registers"));
      require(c.physicalQubitIsAncillary(p) == (anc == 1), w("physicalQubitIsAncillary(" + std::to_string(p) + ")"));
      auto& g = c.getQubitRegister(p);
      require(g.getName() == n && g.contains(p), w("getQubitRegister(" + std::to_string(p) + ")"));
    }
    require(r.getEndIndex() + 1 == r.getStartIndex() + r.getSize(), w("end index of " + n));
    require(!r.contains(r.getEndIndex() + 1) && throws([&, &r = r] { (void)r.getGlobalIndex(static_cast<unsigned>(r.getSize())); }), w("register accepts an index out of range"));
  }
  for (auto& [p, x] : m.q) require(owner.count(p) == 1, w("physical qubit " + std::to_string(p) + " in no register"));
  require(throws([&] { (void)c.getQubitRegister(maxp + 1); }), w("register of an absent qubit"));
  std::size_t start = 0;
  require(c.getClassicalRegisters().size() == m.cregs.size(), w("number of classical registers"));
  for (auto& [n, sz] : m.cregs) {
    auto it = c.getClassicalRegisters().find(n);
    require(it != c.getClassicalRegisters().end() && it->second.getStartIndex() == start && it->second.getSize() == sz && it->second.getName() == n, w("classical register " + n));
    start += sz;
  }
  require(c.getNcbits() == start, w("number of classical bits"));
}
void history(Src& s, Ctx& ctx) {
  qc::QuantumComputation c;
  Model m;
  std::string d;
  if (s.coin()) {
    unsigned n = static_cast<unsigned>(s.range(0, 5)), nc = static_cast<unsigned>(s.range(0, 3));
    c = qc::QuantumComputation(n, nc);
    for (unsigned i = 0; i < n; ++i) m.q[i] = {i, false, false, i};
    if (nc) m.cregs.push_back({"c", nc});
    d = "circuit(" + std::to_string(n) + "," + std::to_string(nc) + ")";
  }
  check(c, m, d);
  const std::vector<std::string> names{"q", "anc", "a", "b", "q_l", "q_h", "q_1", "anc_l", "c"};
  int n = s.sized(1, 14), removed = 0, added = 0;
  auto nextFree = [&](unsigned before, unsigned sz) { // new qubits must get unused consecutive indices
    std::vector<std::pair<unsigned, unsigned>> fresh;
    for (auto& [p, l] : c.initialLayout) if (!m.q.count(p)) fresh.push_back({p, l});
    require(fresh.size() == sz && c.initialLayout.size() == before + sz, "new register of size " + std::to_string(sz) + " adds other qubits after: " + d);
    for (auto [p, l] : fresh) { require(!m.phys(l), "new qubit uses the taken logical index " + std::to_string(l) + " after: " + d); require(c.outputPermutation.count(p) == 1 && c.outputPermutation.at(p) == l, "output of a new qubit after: " + d); }
    return fresh;
  };
  for (int step = 0; step < n; ++step) {
    auto before = m.q.size();
    auto unchanged = [&](auto f, const std::string& what) {
      auto copy = c;
      require(throws([&] { f(c); }), what + " accepted after: " + d);
      require(c == copy, "refused " + what + " altered the circuit after: " + d);
    };
    std::vector<unsigned> ls;
    for (auto& [p, x] : m.q) ls.push_back(x.log);
    std::sort(ls.begin(), ls.end());
    switch (s.below(13)) {
    case 0: { // quantum register
      auto nm = s.pick(names); unsigned sz = static_cast<unsigned>(s.range(0, 4));
      d += "; addQubitRegister(" + std::to_string(sz) + "," + nm + ")";
      if (sz == 0 || c.getQuantumRegisters().count(nm) || m.nanc() > 0) { unchanged([&](auto& x) { x.addQubitRegister(sz, nm); }, "invalid addQubitRegister"); break; }
      if (before + sz > 12) { c.addQubitRegister(sz, nm); for (auto [p, l] : nextFree(before, sz)) m.q[p] = {l, false, false, l}; break; }
      auto& r = c.addQubitRegister(sz, nm);
      require(r.getSize() == sz && r.getName() == nm, "returned register after: " + d);
      for (auto [p, l] : nextFree(before, sz)) { require(r.contains(p), "returned register misses its qubit after: " + d); m.q[p] = {l, false, false, l}; }
      break; }
    case 1: {
      auto nm = s.pick(names); unsigned sz = static_cast<unsigned>(s.range(0, 3));
      d += "; addAncillaryRegister(" + std::to_string(sz) + "," + nm + ")";
      if (sz == 0 || c.getAncillaRegisters().count(nm)) { unchanged([&](auto& x) { x.addAncillaryRegister(sz, nm); }, "invalid addAncillaryRegister"); break; }
      auto& r = c.addAncillaryRegister(sz, nm);
      require(r.getSize() == sz && r.getName() == nm, "returned register after: " + d);
      for (auto [p, l] : nextFree(before, sz)) { require(r.contains(p), "returned register misses its qubit after: " + d); m.q[p] = {l, true, false, l}; }
      break; }
    case 2: {
      auto nm = s.pick(names); unsigned sz = static_cast<unsigned>(s.range(0, 3));
      d += "; addClassicalRegister(" + std::to_string(sz) + "," + nm + ")";
      if (sz == 0 || c.getClassicalRegisters().count(nm)) { unchanged([&](auto& x) { x.addClassicalRegister(sz, nm); }, "invalid addClassicalRegister"); break; }
      c.addClassicalRegister(sz, nm);
      m.cregs.push_back({nm, sz});
      break; }
    case 3: case 4: case 5: { // remove
      if (ls.empty()) break;
      unsigned l = s.chance(1, 3) ? ls.back() : s.pick(ls);
      d += "; removeQubit(" + std::to_string(l) + ")";
      unsigned p = *m.phys(l);
      auto r = c.removeQubit(l);
      require(r.first == p && r.second == m.q[p].out, "removeQubit reports another qubit or output after: " + d);
      m.q.erase(p);
      ++removed;
      break; }
    case 6: { // remove several qubits and add them back
      std::vector<std::tuple<unsigned, unsigned, MQ>> st;
      auto copy = c;
      bool plain = true;
      int k = s.range(1, 3);
      for (int i = 0; i < k && !m.q.empty(); ++i) {
        std::vector<unsigned> cur; for (auto& [p, x] : m.q) if (!x.anc && !c.physicalQubitIsAncillary(p)) cur.push_back(x.log);
        if (cur.empty()) break;
        unsigned l = s.pick(cur), p = *m.phys(l);
        d += "; removeQubit(" + std::to_string(l) + ")";
        auto r = c.removeQubit(l);
        require(r.first == p && r.second == m.q[p].out, "removeQubit reports another qubit or output after: " + d);
        plain &= !m.q[p].garb;
        st.emplace_back(p, l, m.q[p]);
        m.q.erase(p);
        check(c, m, d);
      }
      while (!st.empty()) {
        auto [p, l, x] = st.back(); st.pop_back();
        if (l > c.getNqubitsWithoutAncillae()) { unchanged([&, l = l, p = p](auto& y) { y.addQubit(l, p, x.out); }, "addQubit beyond the number of qubits"); plain = false; continue; }
        d += "; addQubit(" + std::to_string(l) + "," + std::to_string(p) + "," + (x.out ? std::to_string(*x.out) : "-") + ")";
        c.addQubit(l, p, x.out);
        m.q[p] = {l, false, false, x.out};
        ++added;
        check(c, m, d);
      }
      if (plain) { // the qubits are the same as before
        require(c.initialLayout == copy.initialLayout && c.outputPermutation == copy.outputPermutation && c.getAncillary() == copy.getAncillary() && c.getGarbage() == copy.getGarbage(), "removing and adding back qubits changes the layout or flags after: " + d);
        if (copy.getQuantumRegisters().size() == 1 && copy.getQuantumRegisters().count("q") && copy.getAncillaRegisters().empty() && k == 1)
          require(c.getQuantumRegisters() == copy.getQuantumRegisters(), "removing and adding back a qubit changes the register after: " + d);
      }
      break; }
    case 7: { // add an ancillary qubit
      unsigned p = static_cast<unsigned>(s.below(before + 3));
      d += "; addAncillaryQubit(" + std::to_string(p);
      if (m.q.count(p)) { d += ")"; unchanged([&](auto& x) { x.addAncillaryQubit(p, {}); }, "addAncillaryQubit on a used qubit"); break; }
      std::optional<unsigned> out;
      if (s.coin()) { unsigned o = 0; auto used = m.output(); auto isUsed = [&](unsigned v) { for (auto [a, b] : used) if (b == v) return true; return false; }; while (isUsed(o)) ++o; out = o; }
      d += out ? "," + std::to_string(*out) + ")" : ",-)";
      c.addAncillaryQubit(p, out);
      require(c.initialLayout.count(p) == 1, "added ancillary is not in the layout after: " + d);
      unsigned l = c.initialLayout.at(p);
      require(!m.phys(l), "added ancillary shares a logical index after: " + d);
      m.q[p] = {l, true, !out.has_value(), out};
      ++added;
      break; }
    case 8: { // add a qubit
      unsigned p = static_cast<unsigned>(s.below(before + 3)), l = static_cast<unsigned>(s.below(before + 2));
      std::optional<unsigned> out;
      if (s.coin()) { unsigned o = 0; auto used = m.output(); auto isUsed = [&](unsigned v) { for (auto [a, b] : used) if (b == v) return true; return false; }; while (isUsed(o)) ++o; out = o; }
      d += "; addQubit(" + std::to_string(l) + "," + std::to_string(p) + "," + (out ? std::to_string(*out) : "-") + ")";
      if (m.q.count(p) || m.phys(l) || l > m.q.size() - m.nanc()) { unchanged([&](auto& x) { x.addQubit(l, p, out); }, "addQubit on used or too large indices"); break; }
      c.addQubit(l, p, out);
      m.q[p] = {l, false, false, out};
      ++added;
      break; }
    case 9: { // ancillary
      if (ls.empty()) break;
      unsigned l = s.pick(ls), h = l;
      while (s.chance(1, 3) && m.phys(h + 1)) ++h;
      d += "; setLogicalQubitsAncillary(" + std::to_string(l) + ".." + std::to_string(h) + ")";
      if (l == h && s.coin()) c.setLogicalQubitAncillary(l); else c.setLogicalQubitsAncillary(l, h);
      for (unsigned i = l; i <= h; ++i) m.q[*m.phys(i)].anc = true;
      break; }
    case 10: { // garbage
      if (ls.empty()) break;
      unsigned l = s.pick(ls), h = l;
      while (s.chance(1, 3) && m.phys(h + 1)) ++h;
      d += "; setLogicalQubitsGarbage(" + std::to_string(l) + ".." + std::to_string(h) + ")";
      if (l == h && s.coin()) c.setLogicalQubitGarbage(l); else c.setLogicalQubitsGarbage(l, h);
      for (unsigned i = l; i <= h; ++i) { m.q[*m.phys(i)].garb = true; for (auto& [p, x] : m.q) if (x.out == i) x.out.reset(); }
      break; }
    case 11: { // strip idle qubits: all are idle here
      bool consistent = true;
      std::set<unsigned> ou; for (auto& [p, x] : m.q) { if (x.out && (*x.out != x.log || !ou.insert(*x.out).second)) consistent = false; }
      unsigned i = 0; for (auto l : ls) consistent &= l == i++;
      if (!consistent) break;
      bool force = s.chance(1, 3);
      d += force ? "; stripIdleQubits(force)" : "; stripIdleQubits()";
      c.stripIdleQubits(force);
      Model nm; nm.cregs = m.cregs;
      std::map<unsigned, unsigned> ren;
      for (auto& [p, x] : m.q) if (!force && x.out) { nm.q[p] = x; ren[x.log] = 0; }
      unsigned k = 0; for (auto& [l, r] : ren) r = k++;
      for (auto& [p, x] : nm.q) { x.log = ren.at(x.log); x.out = ren.at(*x.out); }
      removed += static_cast<int>(m.q.size() - nm.q.size());
      m = nm;
      break; }
    default: {
      if (s.chance(1, 6)) {
        d += "; reset()";
        c.gphase(0.5);
        c.reset();
        require(c == qc::QuantumComputation{} , "a reset circuit differs from a new one after: " + d);
        m = {};
        break;
      }
      if (!m.contiguous() || m.q.empty()) break;
      auto nm = s.pick(names);
      d += "; unifyQuantumRegisters(" + nm + ")";
      auto& r = c.unifyQuantumRegisters(nm);
      require(r.getName() == nm && r.getSize() == m.q.size() && r.getStartIndex() == 0, "unified register after: " + d);
      for (auto& [p, x] : m.q) x.anc = false;
      break; }
    }
    ctx.desc(d);
    check(c, m, d);
    if (s.chance(1, 8)) { auto cp = c; check(cp, m, "copy of: " + d); if (s.coin()) c = std::move(cp); }
  }
  if (removed && added) { ctx.label("removed and added"); ctx.nontrivial = true; }
  else if (n > 2 && m.q.size() > 1) ctx.nontrivial = true;
}

// ------------------------------------------------------------------ (b) initializeIOMapping
void ioMapping(Src& s, Ctx& ctx) {
  unsigned nq = static_cast<unsigned>(s.range(1, 5)), na = static_cast<unsigned>(s.range(0, 2)), n = nq + na;
  unsigned nc = static_cast<unsigned>(s.range(1, static_cast<int>(n) + 2));
  qc::QuantumComputation c(nq, nc);
  if (na) c.addAncillaryRegister(na);
  std::vector<unsigned> lay(n); for (unsigned i = 0; i < n; ++i) lay[i] = i;
  if (s.coin()) { s.shuffle(lay); for (unsigned p = 0; p < n; ++p) c.initialLayout[p] = lay[p]; }
  std::string d = std::to_string(nq) + "+" + std::to_string(na) + " qubits, " + std::to_string(nc) + " bits, layout " + str(asMap(c.initialLayout));
  int mode = s.range(0, 3); // identity, full, partial, empty
  std::map<unsigned, unsigned> out0;
  if (mode == 3) c.outputPermutation.clear();
  else if (mode > 0) {
    std::vector<unsigned> o(n); for (unsigned i = 0; i < n; ++i) o[i] = i;
    s.shuffle(o);
    c.outputPermutation.clear();
    for (unsigned p = 0; p < n; ++p) if (mode == 1 || s.chance(2, 3)) c.outputPermutation[p] = o[p];
  }
  out0 = asMap(c.outputPermutation);
  if (mode == 2 && out0.empty()) mode = 3;
  d += ", output " + str(out0) + ":";
  std::map<unsigned, unsigned> first; // qubit -> bit
  std::vector<unsigned> order;
  std::set<unsigned> used;
  int k = s.sized(0, 8);
  bool remeasured = false, multi = false;
  for (int i = 0; i < k; ++i) {
    if (s.chance(1, 3)) { auto o = spec::genGate(s, n, {}); c.emplace_back(spec::makeOp(o)); d += " " + spec::show(o) + ";"; for (auto t : o.ts) used.insert(t); for (auto& x : o.cs) used.insert(x.q); continue; }
    Op o; o.kind = Op::Measure;
    unsigned w = s.chance(1, 3) ? static_cast<unsigned>(s.range(1, static_cast<int>(std::min(n, nc)))) : 1;
    o.ts = spec::distinctQubits(s, n, w); o.bits = spec::distinctQubits(s, nc, w);
    multi |= w > 1;
    c.emplace_back(spec::makeOp(o));
    d += " " + spec::show(o) + ";";
    for (unsigned j = 0; j < w; ++j) { used.insert(o.ts[j]); if (first.emplace(o.ts[j], o.bits[j]).second) order.push_back(o.ts[j]); else remeasured = true; }
  }
  ctx.desc(d);
  if (first.size() > 1) ctx.nontrivial = true;
  if (remeasured) ctx.label("re-measured qubit");
  if (multi) ctx.label("multi-qubit measurement");
  auto before = c;
  c.initializeIOMapping();
  auto out = asMap(c.outputPermutation);
  d += " -> output " + str(out);
  require(c.initialLayout == before.initialLayout && c.getNqubits() == n && c.getNancillae() == na && c.getAncillary() == before.getAncillary() && c.getNops() == before.getNops(), "other parts of the circuit altered: " + d);
  std::set<unsigned> vals;
  for (auto [p, v] : out) { require(p < n && v < n, "index out of range: " + d); require(vals.insert(v).second, "two qubits with the same output: " + d); }
  auto phys = [&](unsigned l) { for (unsigned p = 0; p < n; ++p) if (c.initialLayout.at(p) == l) return p; return n; };
  auto idleAnc = [&](unsigned l) { return l >= nq && !used.count(phys(l)); };
  // which qubits remain outputs
  std::map<unsigned, std::vector<unsigned>> byBit;
  for (auto q : order) byBit[first[q]].push_back(q);
  for (unsigned p = 0; p < n; ++p) {
    bool was = mode == 3 ? !first.empty() : out0.count(p) == 1;
    bool want = was && (first.empty() || first.count(p));
    if (!want) { require(!out.count(p), "qubit " + std::to_string(p) + " is no output but listed: " + d); continue; }
    if (out.count(p) == 0) {
      // only entries that belong to idle ancillaries may be missing
      bool fine = false;
      for (unsigned l = 0; l < n; ++l) fine |= idleAnc(l) && !vals.count(l);
      require(fine, "output of qubit " + std::to_string(p) + " lost: " + d);
      continue;
    }
    if (first.count(p) && first[p] < n) {
      auto& ps = byBit[first[p]];
      std::vector<unsigned> in; for (auto x : ps) if (mode == 3 || out0.count(x)) in.push_back(x);
      if (in.back() == p) require(out.at(p) == first[p], "qubit " + std::to_string(p) + " is measured into bit " + std::to_string(first[p]) + " but has output " + std::to_string(out.at(p)) + ": " + d);
    }
    if (first.empty()) require(out.at(p) == out0.at(p), "output changed without measurements: " + d);
  }
  for (unsigned l = 0; l < n; ++l) require(c.logicalQubitIsGarbage(l) == !vals.count(l), "garbage flag of logical qubit " + std::to_string(l) + " disagrees with the output permutation: " + d);
  for (unsigned l = 0; l < n; ++l) if (idleAnc(l)) require(c.logicalQubitIsGarbage(l), "idle ancillary " + std::to_string(l) + " not garbage: " + d);
  // inferring twice changes nothing
  for (auto& [b, ps] : byBit) if (ps.size() > 1 || b >= n) return;
  if (out.empty()) return;
  auto again = c;
  again.initializeIOMapping();
  require(asMap(again.outputPermutation) == out && again.getGarbage() == c.getGarbage(), "inferring the mapping twice changes it again: " + d);
}

// ------------------------------------------------------------------ (c) derived counts
std::set<unsigned> qubits(const Op& o) {
  std::set<unsigned> r(o.ts.begin(), o.ts.end());
  for (auto& c : o.cs) r.insert(c.q);
  for (auto& b : o.body) { auto x = qubits(b); r.insert(x.begin(), x.end()); }
  return r;
}
void depth(const Op& o, std::vector<std::size_t>& d) {
  switch (o.kind) {
  case Op::Barrier: return;
  case Op::Compound: case Op::If: for (auto& b : o.body) depth(b, d); return;
  case Op::Measure: case Op::Reset: for (auto t : o.ts) ++d[t]; return;
  case Op::U: { std::size_t m = 0; for (auto q : qubits(o)) m = std::max(m, d[q]); for (auto q : qubits(o)) d[q] = m + 1; return; }
  }
}
bool dynamicOp(const Op& o, std::set<unsigned>& meas, bool barriers) {
  switch (o.kind) {
  case Op::Reset: case Op::If: return true;
  case Op::Measure: meas.insert(o.ts.begin(), o.ts.end()); return false;
  case Op::Compound: for (auto& b : o.body) if (dynamicOp(b, meas, barriers)) return true; return false;
  case Op::Barrier: if (!barriers) return false; break;
  case Op::U: break;
  }
  for (auto q : qubits(o)) if (meas.count(q)) return true;
  return false;
}
spec::GenCfg richCfg(Src& s) {
  spec::GenCfg g;
  g.gphaseOps = false; g.barriers = s.coin(); g.compounds = s.coin(); g.measures = s.coin(); g.resets = s.chance(1, 3); g.ifs = s.chance(1, 3);
  g.multiMeasure = true; g.compoundNonUnitary = s.coin(); g.ifCompound = true; g.cmpKinds = true;
  return g;
}
void counts(Src& s, Ctx& ctx) {
  spec::Circ c; c.nq = static_cast<unsigned>(s.range(1, 6)); c.nc = static_cast<unsigned>(s.range(1, 4));
  auto g = richCfg(s);
  // leave some qubits idle
  std::vector<unsigned> use(c.nq); for (unsigned i = 0; i < c.nq; ++i) use[i] = i;
  c.ops = spec::genOps(s, c.nq, c.nc, g, 8);
  if (s.coin()) { // drop everything on a set of qubits
    std::set<unsigned> idle; for (unsigned i = 0; i < c.nq; ++i) if (s.chance(1, 3)) idle.insert(i);
    std::vector<Op> kept;
    for (auto& o : c.ops) { bool hit = false; for (auto q : qubits(o)) hit |= idle.count(q) > 0; if (!hit) kept.push_back(o); }
    c.ops = kept;
  }
  auto q = spec::build(c, s.coin());
  std::string d = spec::show(c);
  ctx.desc(d);
  // symbolic gates count like any other gate
  std::vector<Op> ops = c.ops;
  if (s.chance(1, 4)) { unsigned t = static_cast<unsigned>(s.below(c.nq)); q.rx(qc::Symbolic(std::vector<sym::Term<double>>{sym::Term<double>(sym::Variable("x"), 1.0)}, 0.5), t); Op o; o.g = "rx"; o.p = {0.5}; o.ts = {t}; ops.push_back(o); d += "rx(x+0.5) " + std::to_string(t); ctx.label("symbolic"); }
  auto compare = [&](qc::QuantumComputation& qq, const std::string& w) {
    std::size_t ind = 0, single = 0;
    bool barrier1 = false;
    std::vector<std::size_t> dep(c.nq + 1, 0);
    std::set<unsigned> usedQ;
    for (auto& o : ops) {
      ind += o.kind == Op::Compound ? o.body.size() : 1;
      depth(o, dep);
      auto x = qubits(o); usedQ.insert(x.begin(), x.end());
    }
    std::function<void(const Op&, int)> one = [&](const Op& o, int lvl) {
      if (o.kind == Op::Barrier && o.ts.size() == 1) barrier1 = true;
      if (o.kind == Op::U && o.cs.empty() && o.ts.size() == 1) ++single;
      if (o.kind == Op::Compound) { if (lvl > 0) barrier1 = true; for (auto& b : o.body) one(b, lvl + 1); }
      if (o.kind == Op::If) { if (lvl >= 0) barrier1 = true; }
    };
    for (auto& o : ops) one(o, 0);
    require(qq.getNops() == ops.size(), "number of operations: " + w);
    require(qq.getNindividualOps() == ind, "number of individual operations " + std::to_string(qq.getNindividualOps()) + ", expected " + std::to_string(ind) + ": " + w);
    if (!barrier1) require(qq.getNsingleQubitOps() == single, "number of single-qubit operations " + std::to_string(qq.getNsingleQubitOps()) + ", expected " + std::to_string(single) + ": " + w);
    require(qq.getDepth() == *std::max_element(dep.begin(), dep.end()), "depth " + std::to_string(qq.getDepth()) + ", expected " + std::to_string(*std::max_element(dep.begin(), dep.end())) + ": " + w);
    for (unsigned i = 0; i < c.nq; ++i) require(qq.isIdleQubit(i) == !usedQ.count(i), "idleness of qubit " + std::to_string(i) + ": " + w);
    std::set<unsigned> m1, m2; bool dy1 = false, dy2 = false;
    for (auto& o : ops) dy1 = dy1 || dynamicOp(o, m1, false);
    for (auto& o : ops) dy2 = dy2 || dynamicOp(o, m2, true);
    if (dy1 == dy2) require(qq.isDynamic() == dy1, std::string("circuit reported as ") + (qq.isDynamic() ? "dynamic" : "not dynamic") + ": " + w);
    // last operations
    for (auto it = qq.cbegin(); it != qq.cend(); ++it) {
      auto i = static_cast<std::size_t>(std::distance(qq.cbegin(), it));
      bool last = true;
      for (std::size_t j = i + 1; j < ops.size(); ++j) for (auto x : qubits(ops[j])) last &= !qubits(ops[i]).count(x);
      require(qq.isLastOperationOnQubit(it, qq.cend()) == last, "operation " + std::to_string(i) + (last ? " is" : " is not") + " the last on its qubits: " + w);
      auto uq = (*it)->getUsedQubits();
      auto want = qubits(ops[i]);
      require(std::set<unsigned>(uq.begin(), uq.end()) == want, "used qubits of operation " + std::to_string(i) + ": " + w);
      for (unsigned x = 0; x < c.nq; ++x) require((*it)->actsOn(x) == (want.count(x) == 1), "actsOn of operation " + std::to_string(i) + ": " + w);
    }
    return usedQ;
  };
  auto usedQ = compare(q, d);
  if (c.ops.size() > 2) ctx.nontrivial = true;
  // strip the idle qubits: the operations stay, the idle qubits without output vanish
  auto p = q;
  bool force = s.coin();
  std::set<unsigned> garb;
  for (unsigned i = 0; i < c.nq; ++i) if (s.chance(1, 3)) { p.setLogicalQubitGarbage(i); garb.insert(i); }
  std::set<unsigned> ancs;
  for (unsigned i = 0; i < c.nq; ++i) if (s.chance(1, 4)) { p.setLogicalQubitAncillary(i); ancs.insert(i); }
  p.stripIdleQubits(force);
  std::string w = d + " | garbage"; for (auto x : garb) w += " " + std::to_string(x);
  w += " | ancillary"; for (auto x : ancs) w += " " + std::to_string(x);
  w += force ? " | stripIdleQubits(force)" : " | stripIdleQubits()";
  Model m; if (c.nc) m.cregs = {{"c", c.nc}};
  unsigned k = 0;
  for (unsigned i = 0; i < c.nq; ++i) if (usedQ.count(i) || (!force && !garb.count(i))) { m.q[i] = {k, ancs.count(i) > 0, garb.count(i) > 0, std::nullopt}; if (!garb.count(i)) m.q[i].out = k; ++k; }
  require(asMap(p.initialLayout) == m.layout(), "layout " + str(asMap(p.initialLayout)) + ", expected " + str(m.layout()) + ": " + w);
  require(asMap(p.outputPermutation) == m.output(), "output permutation " + str(asMap(p.outputPermutation)) + ", expected " + str(m.output()) + ": " + w);
  require(p.getNqubits() == m.q.size() && p.getNancillae() == m.nanc(), "qubit counts: " + w);
  for (auto& [ph, x] : m.q) require(p.logicalQubitIsAncillary(x.log) == x.anc && p.logicalQubitIsGarbage(x.log) == x.garb, "flags of logical qubit " + std::to_string(x.log) + ": " + w);
  if (m.q.size() < c.nq) ctx.label("stripped");
  if (!m.q.empty()) compare(p, w);
}

// ------------------------------------------------------------------ (d) relabelling
Op relabel(Op o, const std::vector<unsigned>& p) {
  for (auto& t : o.ts) t = p[t];
  for (auto& c : o.cs) c.q = p[c.q];
  std::sort(o.cs.begin(), o.cs.end());
  for (auto& b : o.body) b = relabel(b, p);
  return o;
}
bool sameUpToSymmetry(const Op& a, const Op& b) {
  if (a.kind == Op::U && b.kind == Op::U && a.g == b.g) {
    static const std::set<std::string> sym{"swap", "iswap", "iswapdg", "rxx", "ryy", "rzz"};
    if (sym.count(a.g)) { Op x = a, y = b; std::sort(x.ts.begin(), x.ts.end()); std::sort(y.ts.begin(), y.ts.end()); return spec::same(x, y); }
    return spec::same(a, b);
  }
  if (a.kind == Op::Barrier || a.kind == Op::Reset) { return a.kind == b.kind && std::set<unsigned>(a.ts.begin(), a.ts.end()) == std::set<unsigned>(b.ts.begin(), b.ts.end()); }
  if (a.kind == Op::Measure) { std::map<unsigned, unsigned> x, y; if (a.kind != b.kind) return false; for (std::size_t i = 0; i < a.ts.size(); ++i) x[a.ts[i]] = a.bits[i]; for (std::size_t i = 0; i < b.ts.size(); ++i) y[b.ts[i]] = b.bits[i]; return x == y; }
  if (a.kind != b.kind || a.body.size() != b.body.size()) return false;
  for (std::size_t i = 0; i < a.body.size(); ++i) if (!sameUpToSymmetry(a.body[i], b.body[i])) return false;
  Op x = a, y = b; x.body.clear(); y.body.clear();
  return spec::same(x, y);
}
void permuted(Src& s, Ctx& ctx) {
  unsigned nq = static_cast<unsigned>(s.range(1, 6)), nc = 3;
  spec::GenCfg g; g.barriers = g.compounds = g.measures = g.resets = g.ifs = g.multiMeasure = g.compoundNonUnitary = g.ifCompound = g.cmpKinds = true;
  Op o = spec::genOp(s, nq, nc, g);
  unsigned range = nq + static_cast<unsigned>(s.range(0, 3));
  std::vector<unsigned> p(range); for (unsigned i = 0; i < range; ++i) p[i] = i;
  s.shuffle(p);
  qc::Permutation perm;
  bool empty = s.chance(1, 10);
  bool moved = false;
  for (unsigned i = 0; i < nq; ++i) { perm[i] = p[i]; moved |= p[i] != i; }
  if (empty) { perm.clear(); for (unsigned i = 0; i < nq; ++i) p[i] = i; }
  std::string d = spec::show(o) + " by " + str(asMap(perm));
  ctx.desc(d);
  auto op = spec::makeOp(o);
  o = spec::extract(*op); // parameters may be canonicalised on construction
  auto want = relabel(o, p);
  std::set<unsigned> wq = qubits(want);
  auto uq = op->getUsedQubitsPermuted(perm);
  require(std::set<unsigned>(uq.begin(), uq.end()) == wq, "qubits used under the permutation: " + d);
  require(sameUpToSymmetry(spec::extract(*op), o), "querying the permuted qubits altered the operation: " + d);
  auto clone = op->clone();
  op->apply(perm);
  auto got = spec::extract(*op);
  require(sameUpToSymmetry(got, want), "relabelled operation is " + spec::show(got) + ", expected " + spec::show(want) + ": " + d);
  require(sameUpToSymmetry(spec::extract(*clone), o), "relabelling altered a clone: " + d);
  auto u2 = op->getUsedQubits();
  require(std::set<unsigned>(u2.begin(), u2.end()) == wq, "used qubits of the relabelled operation: " + d);
  if (!spec::anyOp({o}, [](auto& x) { return x.kind == Op::Reset || x.kind == Op::Barrier; })) require(op->equals(*spec::makeOp(want)), "relabelled operation differs from the operation built on the permuted qubits: " + d);
  if (!empty) require(clone->equals(*op, perm, {}), "operation is not equal to its relabelling under that permutation: " + d);
  if (moved && !empty && wq.size() > 1) ctx.nontrivial = true;
}

// ------------------------------------------------------------------ (e) reordering
void reorder(Src& s, Ctx& ctx) {
  spec::Circ c; c.nq = static_cast<unsigned>(s.range(1, 4)); c.nc = static_cast<unsigned>(s.range(1, 3));
  auto g = richCfg(s); g.gphaseOps = s.chance(1, 4);
  c.ops = spec::genOps(s, c.nq, c.nc, g, 9);
  auto q = spec::build(c, s.coin());
  std::string d = spec::show(c);
  ctx.desc(d);
  c.ops = spec::extract(q).ops; // parameters may be canonicalised on construction
  q.reorderOperations();
  auto got = spec::extract(q);
  std::string w = d + " -> " + spec::show(got.ops);
  require(got.ops.size() == c.ops.size(), "reordering lost or added operations: " + w);
  std::vector<std::string> a, b; for (auto& o : c.ops) a.push_back(spec::show(o)); for (auto& o : got.ops) b.push_back(spec::show(o));
  if (a != b) ctx.nontrivial = true;
  std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
  require(a == b, "reordering changed an operation: " + w);
  if (!spec::anyOp(c.ops, [](auto& o) { return o.kind == Op::Measure || o.kind == Op::Reset || o.kind == Op::If; })) {
    auto u = spec::unitary(c.ops, c.nq), v = spec::unitary(got.ops, c.nq);
    require(ref::dist(u, v) < 1e-9, "reordering changed the unitary: " + w);
    return;
  }
  // dynamic: same joint state of bits and qubits, checked on a random product input
  ref::Vec init = spec::basis(c.nq, 0);
  for (unsigned i = 0; i < c.nq; ++i) ref::apply(init, "u", {spec::genAngle(s), spec::genAngle(s), spec::genAngle(s)}, {}, {i});
  auto joint = [&](const std::vector<Op>& ops) { // density matrix per bit string
    std::map<std::string, ref::Mat> r;
    for (auto& br : spec::runAll(ops, c.nq, c.nc, init)) {
      auto [it, fresh] = r.emplace(spec::bitString(br.bits), ref::Mat(std::size_t{1} << c.nq));
      if (fresh) for (std::size_t i = 0; i < it->second.n; ++i) for (std::size_t j = 0; j < it->second.n; ++j) it->second(i, j) = 0;
      for (std::size_t i = 0; i < it->second.n; ++i) for (std::size_t j = 0; j < it->second.n; ++j) it->second(i, j) += br.v[i] * std::conj(br.v[j]);
    }
    return r;
  };
  auto x = joint(c.ops), y = joint(got.ops);
  ref::Mat zero(std::size_t{1} << c.nq); for (std::size_t i = 0; i < zero.n; ++i) for (std::size_t j = 0; j < zero.n; ++j) zero(i, j) = 0;
  for (auto& [k, m] : x) require(ref::dist(m, y.count(k) ? y.at(k) : zero) < 1e-8, "reordering changed the states with outcome " + k + ": " + w);
  for (auto& [k, m] : y) if (!x.count(k)) require(ref::dist(m, zero) < 1e-8, "reordering changed the states with outcome " + k + ": " + w);
  ctx.label("dynamic");
}

// ------------------------------------------------------------------ (f) measuring the outputs
void appendMeasurements(Src& s, Ctx& ctx) {
  unsigned n = static_cast<unsigned>(s.range(1, 5));
  qc::QuantumComputation c(n, 0);
  std::vector<unsigned> o(n); for (unsigned i = 0; i < n; ++i) o[i] = i;
  if (s.coin()) s.shuffle(o);
  for (unsigned p = 0; p < n; ++p) c.outputPermutation[p] = o[p];
  for (unsigned l = 0; l < n; ++l) if (s.chance(1, 3)) c.setLogicalQubitGarbage(l);
  unsigned nc = 0;
  if (s.coin()) { nc = static_cast<unsigned>(s.range(1, 6)); c.addClassicalRegister(nc, "pre"); }
  auto out = asMap(c.outputPermutation);
  std::string d = std::to_string(n) + " qubits, " + std::to_string(nc) + " bits, output " + str(out);
  ctx.desc(d);
  c.appendMeasurementsAccordingToOutputPermutation("res");
  std::map<unsigned, unsigned> got;
  for (auto& op : c) if (op->getType() == qc::Measure) {
    auto m = spec::extract(*op);
    for (std::size_t i = 0; i < m.ts.size(); ++i) { require(got.emplace(m.ts[i], m.bits[i]).second, "a qubit is measured twice: " + d); require(m.bits[i] < c.getNcbits(), "measurement into an absent bit: " + d); }
  } else require(op->getType() == qc::Barrier, "unexpected operation: " + d);
  require(got == out, "measurements " + str(got) + " differ from the output permutation: " + d);
  require(asMap(c.outputPermutation) == out, "output permutation altered: " + d);
  auto g = c.getGarbage();
  c.initializeIOMapping();
  require(asMap(c.outputPermutation) == out && c.getGarbage() == g, "mapping inferred from the appended measurements is " + str(asMap(c.outputPermutation)) + ": " + d);
  if (!out.empty() && out.size() < n) ctx.nontrivial = true;
}
} // namespace

int main(int argc, char** argv) {
  Suite su;
  su.property = "C03";
  su.rule = "history: qubits were removed and added, or several steps on at least two qubits; mapping: at least two measured qubits; counts: more than two operations; relabelling: at least two qubits, non-identity permutation; reordering: the order changes; measuring outputs: some qubits are garbage";
  su.assumptions = {"removed qubits in the middle keep the other logical indices (only stripIdleQubits renumbers)", "registers with consecutive physical indices only are unified", "barriers behind a measurement and single-qubit barriers are not counted either way"};
  su.props = {
      {"history", history, 20000, 600000},
      {"io-mapping", ioMapping, 20000, 600000},
      {"counts-and-stripping", counts, 20000, 400000},
      {"relabelling", permuted, 30000, 600000},
      {"reordering", reorder, 6000, 160000},
      {"measure-outputs", appendMeasurements, 8000, 160000},
  };
  return mainImpl(su, argc, argv);
}
