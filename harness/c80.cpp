// build: {"libs": ["ir", "na"]}
// C80: neutral atom computations are validated and tracked exactly.
#include "pbt.hpp"
#include "na/NAComputation.hpp"
#include "na/entities/Atom.hpp"
#include "na/entities/Location.hpp"
#include "na/entities/Zone.hpp"
#include "na/operations/GlobalCZOp.hpp"
#include "na/operations/GlobalRYOp.hpp"
#include "na/operations/LoadOp.hpp"
#include "na/operations/LocalRZOp.hpp"
#include "na/operations/LocalUOp.hpp"
#include "na/operations/MoveOp.hpp"
#include "na/operations/StoreOp.hpp"
#include <map>
#include <memory>
#include <set>
using namespace pbt;
using namespace na;

namespace {
struct Pos { double x, y; };
struct MOp { // model of one operation
  enum K { Load, Store, Move, RZ, U, CZ, RY } k;
  std::vector<std::size_t> who; // atoms or zones
  bool tgt = false;
  std::vector<Pos> to;
  std::vector<double> par;
};
const char* kname[] = {"load", "store", "move", "rz", "u", "cz", "ry"};
std::string fx(double v, int p) { char b[400]; std::snprintf(b, sizeof b, "%.*f", p, v); return b; }
std::string loc(const Pos& p) { return "(" + fx(p.x, 3) + ", " + fx(p.y, 3) + ")"; }
std::string print(const MOp& o, const std::string& pre) {
  std::string r = std::string("@+ ") + kname[o.k] + " ";
  auto item = [&](std::size_t i) {
    std::string t;
    if (o.k <= MOp::Move) { if (o.tgt) t += loc(o.to[i]) + " "; } else for (double p : o.par) t += fx(p, 5) + " ";
    return t + pre + std::to_string(o.who[i]);
  };
  if (o.who.size() == 1) return r + item(0);
  r += "[\n";
  for (std::size_t i = 0; i < o.who.size(); ++i) r += "    " + item(i) + "\n";
  return r + "]";
}
int sgn(double a, double b) { return a < b ? -1 : a > b ? 1 : 0; }
// first invalid operation according to the documented rules, or -1
int firstInvalid(const std::vector<MOp>& ops, std::vector<Pos> at) {
  std::set<std::size_t> loaded;
  for (std::size_t n = 0; n < ops.size(); ++n) {
    const auto& o = ops[n];
    if (o.k <= MOp::U && std::set<std::size_t>(o.who.begin(), o.who.end()).size() != o.who.size()) return static_cast<int>(n);
    if (o.k > MOp::Move) continue;
    for (auto a : o.who) if ((loaded.count(a) > 0) == (o.k == MOp::Load)) return static_cast<int>(n);
    if (o.k == MOp::Load) loaded.insert(o.who.begin(), o.who.end());
    if (o.tgt) {
      for (std::size_t i = 0; i < o.who.size(); ++i) for (std::size_t j = 0; j < i; ++j) {
        const auto &p = at[o.who[i]], &q = at[o.who[j]], &e = o.to[i], &f = o.to[j];
        if ((e.x == f.x && e.y == f.y) || sgn(p.x, q.x) != sgn(e.x, f.x) || sgn(p.y, q.y) != sgn(e.y, f.y)) return static_cast<int>(n);
      }
      for (std::size_t i = 0; i < o.who.size(); ++i) at[o.who[i]] = o.to[i];
    }
    if (o.k == MOp::Store) for (auto a : o.who) loaded.erase(a);
  }
  return -1;
}
double genCoord(Src& s) { switch (s.below(6)) { case 0: return s.range(-3, 3); case 1: return s.range(0, 40) * 0.5; case 2: return s.range(-20, 20) * 0.001; default: return s.range(0, 8); } }
// a random map of the values that keeps equalities and order
std::map<double, double> monotone(Src& s, const std::set<double>& v) {
  std::map<double, double> m;
  double cur = genCoord(s) - 2;
  for (double x : v) { m[x] = s.chance(1, 4) && x > cur ? x : cur; cur = m[x] + (s.coin() ? 1 : 0.25 * (1 + static_cast<double>(s.below(12)))); }
  return m;
}
void computation(Src& s, Ctx& c) {
  const std::size_t nA = static_cast<std::size_t>(s.range(1, 7)), nZ = static_cast<std::size_t>(s.range(1, 3));
  std::vector<Pos> init(nA);
  for (std::size_t i = 0; i < nA; ++i) {
    init[i] = {genCoord(s), genCoord(s)};
    if (i > 0 && s.chance(1, 3)) init[i].x = init[s.below(i)].x;
    if (i > 0 && s.chance(1, 3)) init[i].y = init[s.below(i)].y;
    bool clash = false;
    for (std::size_t j = 0; j < i; ++j) clash |= init[j].x == init[i].x && init[j].y == init[i].y;
    if (clash && !s.chance(1, 3)) init[i].x += 50 + static_cast<double>(i); // coinciding starts stay possible
  }
  NAComputation qc;
  std::vector<const Atom*> atoms;
  std::vector<const Zone*> zones;
  for (std::size_t i = 0; i < nA; ++i) {
    atoms.push_back(&qc.emplaceBackAtom("atom" + std::to_string(i)));
    const Location given{init[i].x, init[i].y};
    const auto& l = s.coin() ? qc.emplaceInitialLocation(*atoms[i], given) : qc.emplaceInitialLocation(*atoms[i], init[i].x, init[i].y);
    require(l.x == init[i].x && l.y == init[i].y, "initial location not stored");
  }
  for (std::size_t i = 0; i < nZ; ++i) zones.push_back(&qc.emplaceBackZone("zone" + std::to_string(i)));
  std::vector<MOp> ops;
  std::vector<const Op*> real;
  std::vector<Pos> at = init;
  std::vector<bool> up(nA, false);
  std::string d;
  for (std::size_t i = 0; i < nA; ++i) d += "atom" + std::to_string(i) + loc(init[i]) + " ";
  bool broken = false;
  const unsigned steps = static_cast<unsigned>(s.sized(1, 14));
  for (unsigned st = 0; st < steps; ++st) {
    MOp o;
    o.k = s.pick<MOp::K>({MOp::Load, MOp::Load, MOp::Move, MOp::Move, MOp::Store, MOp::RZ, MOp::U, MOp::CZ, MOp::RY});
    if (o.k <= MOp::Move) {
      for (std::size_t a = 0; a < nA; ++a) if (up[a] == (o.k != MOp::Load) && s.chance(2, 3)) o.who.push_back(a);
      if (o.who.empty() && !s.chance(1, 6)) continue;
      s.shuffle(o.who);
      o.tgt = o.k == MOp::Move || s.coin();
      std::set<double> xs, ys;
      for (auto a : o.who) { xs.insert(at[a].x); ys.insert(at[a].y); }
      auto mx = monotone(s, xs), my = monotone(s, ys);
      if (o.tgt) for (auto a : o.who) o.to.push_back({mx[at[a].x], my[at[a].y]});
    } else {
      const std::size_t N = o.k >= MOp::CZ ? nZ : nA;
      for (std::size_t a = 0; a < N; ++a) if (s.coin()) o.who.push_back(a);
      s.shuffle(o.who);
      for (int i = 0, k = o.k == MOp::U ? 3 : o.k == MOp::CZ ? 0 : 1; i < k; ++i) o.par.push_back(s.coin() ? s.real(-7, 7) : s.range(-3, 3) * 0.5);
    }
    if (s.chance(1, 10) && !o.who.empty()) { // break something (sometimes harmlessly)
      const std::size_t i = s.below(o.who.size());
      switch (s.below(5)) {
      case 0: o.who[i] = s.below(o.k >= MOp::CZ ? nZ : nA); break;
      case 1: if (o.tgt) o.to[i].x = genCoord(s); break;
      case 2: if (o.tgt) o.to[i].y = genCoord(s); break;
      case 3: if (o.tgt) { auto j = s.below(o.who.size()); (s.coin() ? o.to[i].x : o.to[i].y) = s.coin() ? o.to[j].x : o.to[j].y; } break;
      default: if (o.tgt) std::swap(o.to[i], o.to[s.below(o.who.size())]); break;
      }
      broken = true;
    }
    // whatever the order of the list, and with the overloads for one atom
    const bool single = o.who.size() == 1 && s.coin();
    std::vector<const Atom*> as;
    std::vector<const Zone*> zs;
    for (auto a : o.who) if (o.k >= MOp::CZ) zs.push_back(zones[a]); else as.push_back(atoms[a]);
    std::vector<Location> to;
    for (auto& p : o.to) to.push_back(Location{p.x, p.y});
    const Op* r = nullptr;
    switch (o.k) {
    case MOp::Load: r = single ? (o.tgt ? &qc.emplaceBack<LoadOp>(*as[0], to[0]) : &qc.emplaceBack<LoadOp>(*as[0])) : (o.tgt ? &qc.emplaceBack<LoadOp>(as, to) : &qc.emplaceBack<LoadOp>(as)); break;
    case MOp::Store: r = single ? (o.tgt ? &qc.emplaceBack<StoreOp>(*as[0], to[0]) : &qc.emplaceBack<StoreOp>(*as[0])) : (o.tgt ? &qc.emplaceBack(StoreOp(as, to)) : &qc.emplaceBack(StoreOp(as))); break;
    case MOp::Move: r = single ? &qc.emplaceBack<MoveOp>(*as[0], to[0]) : &qc.emplaceBack<MoveOp>(as, to); break;
    case MOp::RZ: r = single ? &qc.emplaceBack<LocalRZOp>(*as[0], o.par[0]) : &qc.emplaceBack<LocalRZOp>(as, o.par[0]); break;
    case MOp::U: r = single ? &qc.emplaceBack<LocalUOp>(*as[0], o.par[0], o.par[1], o.par[2]) : &qc.emplaceBack<LocalUOp>(as, o.par[0], o.par[1], o.par[2]); break;
    case MOp::CZ: r = single ? &qc.emplaceBack<GlobalCZOp>(*zs[0]) : &qc.emplaceBack<GlobalCZOp>(zs); break;
    case MOp::RY: r = single ? &qc.emplaceBack<GlobalRYOp>(*zs[0], o.par[0]) : &qc.emplaceBack<GlobalRYOp>(zs, o.par[0]); break;
    }
    real.push_back(r);
    ops.push_back(o);
    d += "; " + print(o, o.k >= MOp::CZ ? "zone" : "atom"); c.desc(d);
    std::set<std::size_t> seen;
    if (o.k <= MOp::Move) for (std::size_t i = 0; i < o.who.size(); ++i) {
      if (o.tgt && seen.insert(o.who[i]).second) at[o.who[i]] = o.to[i];
      if (o.k != MOp::Move) up[o.who[i]] = o.k == MOp::Load;
    }
  }
  c.desc(d);
  // structure
  require(qc.size() == ops.size() && static_cast<std::size_t>(qc.end() - qc.begin()) == ops.size() && qc.getAtomsSize() == nA && qc.getAtoms().size() == nA && qc.getZones().size() == nZ && qc.getInitialLocations().size() == nA, "sizes wrong: " + d);
  for (std::size_t i = 0; i < ops.size(); ++i) {
    const auto& o = ops[i];
    require(&qc[i] == real[i], "operation order not kept: " + d);
    const std::string t = print(o, o.k >= MOp::CZ ? "zone" : "atom");
    require(qc[i].toString() == t, "operation printed as '" + qc[i].toString() + "' instead of '" + t + "'");
    require(qc[i].is<ShuttlingOp>() == (o.k <= MOp::Move) && qc[i].is<LoadOp>() == (o.k == MOp::Load) && qc[i].is<StoreOp>() == (o.k == MOp::Store) && qc[i].is<MoveOp>() == (o.k == MOp::Move) && qc[i].is<LocalOp>() == (o.k == MOp::RZ || o.k == MOp::U) && qc[i].is<GlobalOp>() == (o.k >= MOp::CZ), "operation has the wrong type: " + t);
    if (o.k <= MOp::Move) {
      const auto& sh = qc[i].as<ShuttlingOp>();
      require(sh.hasTargetLocations() == o.tgt && sh.getAtoms().size() == o.who.size(), "shuttling operation lost its details: " + t);
      if (o.tgt) for (std::size_t k = 0; k < o.who.size(); ++k) require(sh.getTargetLocations()[k].x == o.to[k].x && sh.getTargetLocations()[k].y == o.to[k].y && sh.getAtoms()[k] == atoms[o.who[k]], "target location wrong: " + t);
      else { bool th = false; try { (void)sh.getTargetLocations(); } catch (const std::exception&) { th = true; } require(th, "missing target locations did not throw: " + t); }
    } else if (o.k <= MOp::U) require(qc[i].as<LocalOp>().getParams() == o.par, "parameters lost: " + t);
    else require(qc[i].as<GlobalOp>().getParams() == o.par && qc[i].as<GlobalOp>().getZones().size() == o.who.size(), "parameters or zones lost: " + t);
  }
  // printed form: every atom once with its location (in any order), then the operations in order
  {
    const std::string txt = qc.toString();
    std::ostringstream os; os << qc;
    require(os.str() == txt, "stream output differs from toString");
    std::multiset<std::string> want, got;
    for (std::size_t i = 0; i < nA; ++i) want.insert("atom " + loc(init[i]) + " atom" + std::to_string(i));
    std::istringstream is(txt);
    std::string line;
    for (std::size_t i = 0; i < nA && std::getline(is, line); ++i) got.insert(line);
    require(want == got, "printed atoms differ from the ones given: " + txt);
    std::string rest((std::istreambuf_iterator<char>(is)), {}), exp;
    for (auto& o : ops) exp += print(o, o.k >= MOp::CZ ? "zone" : "atom") + "\n";
    require(rest == exp, "printed operations differ from the ones given: " + txt);
  }
  // locations
  {
    std::vector<Pos> p = init;
    for (std::size_t i = 0; i < ops.size(); ++i) {
      std::set<std::size_t> seen;
      if (ops[i].tgt) for (std::size_t k = 0; k < ops[i].who.size(); ++k) if (seen.insert(ops[i].who[k]).second) p[ops[i].who[k]] = ops[i].to[k];
      if (seen.size() != ops[i].who.size() && ops[i].tgt) break; // an atom named twice: which target counts is not specified
      for (std::size_t a = 0; a < nA; ++a) {
        auto l = qc.getLocationOfAtomAfterOperation(*atoms[a], *real[i]);
        require(l.x == p[a].x && l.y == p[a].y, "location of atom" + std::to_string(a) + " after operation " + std::to_string(i) + " is " + l.toString() + ", expected " + loc(p[a]) + ": " + d);
      }
    }
  }
  // validity
  const int bad = firstInvalid(ops, init);
  auto [ok, msg] = qc.validate();
  require(ok == (bad < 0), std::string(ok ? "an invalid computation was accepted: " : "a valid computation was refused (" + msg + "): ") + d);
  require(ok == msg.empty(), "message '" + msg + "' does not fit the verdict");
  if (!ok) require(msg.find("op number " + std::to_string(bad + 2) + " ") != std::string::npos, "wrong operation blamed: " + msg + " for " + d);
  c.label(bad < 0 ? "valid" : "invalid");
  if (broken && bad < 0) c.label("mutated but valid");
  std::size_t multi = 0;
  for (auto& o : ops) multi += o.tgt && o.who.size() >= 2;
  if (multi > 0) c.label("multi-atom rearrangement");
  c.nontrivial = ops.size() >= 2 && multi > 0;
  // an additional atom without a location makes it invalid; clearing removes the operations only
  if (s.chance(1, 5)) { qc.emplaceBackAtom("extra"); require(!qc.validate().first, "an atom without initial location was accepted"); }
  qc.clear();
  require(qc.size() == 0 && qc.getAtoms().size() >= nA, "clear removed more than the operations");
}
void entities(Src& s, Ctx& c) {
  Location a{genCoord(s), genCoord(s)}, b{genCoord(s), genCoord(s)};
  if (s.chance(1, 3)) b.x = a.x;
  if (s.chance(1, 3)) b.y = a.y;
  const std::string d = a.toString() + " " + b.toString();
  c.desc(d);
  const auto p = std::pair(a.x, a.y), q = std::pair(b.x, b.y);
  require((a == b) == (p == q) && (a != b) == (p != q) && (a < b) == (p < q) && (a > b) == (p > q) && (a <= b) == (p <= q) && (a >= b) == (p >= q), "comparison of locations wrong: " + d);
  require(!(a == b) || std::hash<Location>{}(a) == std::hash<Location>{}(b), "equal locations hash differently: " + d);
  require((a + b).x == a.x + b.x && (a + b).y == a.y + b.y && (a - b).x == a.x - b.x && (a - b).y == a.y - b.y, "location arithmetic wrong: " + d);
  require(std::abs(a.length() - std::sqrt(a.x * a.x + a.y * a.y)) < 1e-9, "length wrong: " + d);
  const double e = std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y));
  require(std::abs(Location::distance(a, b) - e) < 1e-9 && std::abs(a.getEuclideanDistance(b) - e) < 1e-9 && a.getManhattanDistanceX(b) == std::abs(a.x - b.x) && a.getManhattanDistanceY(b) == std::abs(a.y - b.y), "distance wrong: " + d);
  Zone::Extent ex{genCoord(s), genCoord(s), genCoord(s), genCoord(s)};
  if (ex.minX > ex.maxX) std::swap(ex.minX, ex.maxX);
  if (ex.minY > ex.maxY) std::swap(ex.minY, ex.maxY);
  Zone z = s.coin() ? Zone("z", ex) : Zone("z");
  bool threw = false;
  if (!z.getExtent().has_value()) { try { (void)z.contains(a); } catch (const std::exception&) { threw = true; } require(threw, "a zone without extent answered"); z.setExtent(ex); }
  require(z.contains(a) == (a.x >= ex.minX && a.x <= ex.maxX && a.y >= ex.minY && a.y <= ex.maxY), "contains wrong: " + d);
  require(Zone("z") == z && Zone("w") != z && Atom("a") == Atom("a") && Atom("a") != Atom("b"), "entities are compared by name");
  // as many targets as atoms
  Atom u("u"), v("v");
  std::vector<const Atom*> as{&u, &v};
  std::vector<Location> to(s.below(4), a);
  for (int k = 0; k < 3; ++k) {
    bool th = false;
    try { if (k == 0) LoadOp(as, to); else if (k == 1) StoreOp(as, to); else MoveOp(as, to); } catch (const std::invalid_argument&) { th = true; }
    require(th == (to.size() != 2), "wrong number of target locations not refused");
  }
  c.nontrivial = true;
}
} // namespace

int main(int argc, char** argv) {
  Suite su;
  su.property = "C80";
  su.rule = "one case = a computation over up to 7 atoms and 14 operations (order-preserving rearrangements, a tenth of the operations perturbed) compared with a model of validity, locations, structure and printed form; or a pair of locations/zones; non-trivial = at least two operations with one rearranging several atoms; distinct by printed computation";
  su.assumptions = {"finite coordinates", "which of two targets of an atom named twice counts is left open", "the order in which atoms are listed is left open"};
  su.props = {{"computation", computation, 500000, 9000000}, {"entities", entities, 100000, 500000}};
  return mainImpl(su, argc, argv);
}
