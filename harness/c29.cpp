// build: {"libs": ["ir", "dd"], "config": "asan"}
// C29: noise simulation realises the declared noise channels.
#include "ddx.hpp"
#include "dd/NoiseFunctionality.hpp"
using namespace pbt;
using ref::C;
using ref::Mat;
using ref::Vec;

namespace {
// density matrices as Mat; K rho K^dagger on one qubit
Mat conj1(const Mat& rho, unsigned q, const std::array<C, 4>& k) {
  const std::size_t b = std::size_t{1} << q;
  Mat t(rho.n), r(rho.n);
  for (std::size_t i = 0; i < rho.n; ++i) for (std::size_t j = 0; j < rho.n; ++j) { const std::size_t i0 = i & ~b, i1 = i | b, x = (i >> q) & 1U; t(i, j) = k[2 * x] * rho(i0, j) + k[2 * x + 1] * rho(i1, j); }
  for (std::size_t i = 0; i < rho.n; ++i) for (std::size_t j = 0; j < rho.n; ++j) { const std::size_t j0 = j & ~b, j1 = j | b, x = (j >> q) & 1U; r(i, j) = t(i, j0) * std::conj(k[2 * x]) + t(i, j1) * std::conj(k[2 * x + 1]); }
  return r;
}
using K = std::array<C, 4>;
const C I1{0, 1};
std::vector<K> kraus(char e, double p, double a) {
  auto sc = [](double f, K k) { for (auto& x : k) x *= f; return k; };
  const K id{1, 0, 0, 1}, x{0, 1, 1, 0}, y{0, -I1, I1, 0}, z{1, 0, 0, -1};
  switch (e) {
  case 'A': return {{1, 0, 0, std::sqrt(1 - a)}, {0, std::sqrt(a), 0, 0}};
  case 'P': return {sc(std::sqrt(1 - p), id), sc(std::sqrt(p), z)};
  case 'D': return {sc(std::sqrt(1 - 0.75 * p), id), sc(std::sqrt(p / 4), x), sc(std::sqrt(p / 4), y), sc(std::sqrt(p / 4), z)};
  default: return {id};
  }
}
Mat channel(Mat rho, const std::set<qc::Qubit>& qs, const std::string& eff, double p, double a) {
  for (auto q : qs) for (char e : eff) {
    Mat s(rho.n);
    for (auto& k : kraus(e, p, a)) { const auto t = conj1(rho, static_cast<unsigned>(q), k); for (std::size_t i = 0; i < t.a.size(); ++i) s.a[i] += t.a[i]; }
    rho = s;
  }
  return rho;
}
Mat conjugate(const Mat& rho, const spec::Op& o) { // U rho U^dagger column by column
  Mat r(rho.n);
  for (std::size_t j = 0; j < rho.n; ++j) { Vec v(rho.n); for (std::size_t i = 0; i < rho.n; ++i) v[i] = rho(i, j); spec::applyUnitary(v, o); for (std::size_t i = 0; i < rho.n; ++i) r(i, j) = v[i]; }
  Mat s(rho.n);
  for (std::size_t i = 0; i < rho.n; ++i) { Vec v(rho.n); for (std::size_t j = 0; j < rho.n; ++j) v[j] = std::conj(r(i, j)); spec::applyUnitary(v, o); for (std::size_t j = 0; j < rho.n; ++j) s(i, j) = std::conj(v[j]); }
  return s;
}
double genProb(Src& s) { switch (s.below(5)) { case 0: return 0; case 1: return s.pick<double>({1, 0.5, 0.25, 0.75}); case 2: return s.range(0, 100) / 1000.0; default: return s.range(0, 1000) / 1000.0; } }
std::string genEffects(Src& s, bool repeat) {
  std::string e;
  if (repeat && s.chance(1, 5)) { const int k = s.range(1, 5); for (int i = 0; i < k; ++i) e += s.pick<char>({'A', 'P', 'D', 'I'}); return e; }
  std::vector<char> v{'A', 'P', 'D', 'I'};
  s.shuffle(v);
  const int k = s.range(0, 4);
  for (int i = 0; i < k; ++i) e += v[static_cast<std::size_t>(i)];
  return e;
}
Mat dense(const dd::dEdge& e, std::size_t n, std::size_t how = 0) {
  Mat r(std::size_t{1} << n);
  if (how == 1) { for (std::size_t i = 0; i < r.n; ++i) for (std::size_t j = 0; j < r.n; ++j) r(i, j) = e.getValueByIndex(n, i, j); return r; }
  if (how == 2) { for (auto& [ij, v] : e.getSparseMatrix(n)) r(ij.first, ij.second) = v; return r; }
  const auto m = e.getMatrix(n);
  for (std::size_t i = 0; i < r.n; ++i) for (std::size_t j = 0; j < r.n; ++j) r(i, j) = m[i][j];
  return r;
}
void deterministic(Src& s, Ctx& c) {
  const auto n = static_cast<unsigned>(s.range(1, 4));
  auto cfg = ddx::smallConfig(s.pick<std::size_t>({256, 4}));
  auto pd = dd::DENSITY_MATRIX_SIMULATOR_DD_PACKAGE_CONFIG;
  cfg.ctDmNoiseNumBucket = cfg.utDmNumBucket; (void)pd;
  auto p = std::make_unique<dd::Package>(n, cfg);
  spec::GenCfg g; g.maxControls = 2;
  auto ops = spec::genOps(s, n, 0, g, 8);
  const auto eff = genEffects(s, true);
  const double p1 = genProb(s), p2 = genProb(s), a1 = genProb(s), a2 = genProb(s);
  const std::string d = std::to_string(n) + "q noise " + eff + " p=" + spec::num(p1) + "/" + spec::num(p2) + " a=" + spec::num(a1) + "/" + spec::num(a2) + ": " + spec::show(ops);
  c.desc(d);
  dd::DeterministicNoiseFunctionality f(*p, n, p1, p2, a1, a2, eff);
  auto e = p->makeZeroDensityOperator(n);
  Mat rho(std::size_t{1} << n);
  rho(0, 0) = 1;
  unsigned k = 0;
  std::mt19937_64 rng(s.below(1000));
  for (auto& o : ops) {
    auto op = spec::makeOp(o);
    p->applyOperationToDensity(e, dd::getDD(*op, *p));
    rho = conjugate(rho, o);
    auto check = [&](const std::string& when) {
      const auto got = dense(e, n, s.below(3));
      require(ref::dist(got, rho) < 1e-7, "the density matrix after " + when + " " + std::to_string(k) + " is " + ref::show(got.a) + " instead of " + ref::show(rho.a) + " for " + d);
    };
    check("operation");
    const auto used = op->getUsedQubits();
    f.applyNoiseEffects(e, op);
    if (!used.empty()) rho = channel(rho, used, eff, used.size() == 1 ? p1 : p2, used.size() == 1 ? a1 : a2);
    check("the noise of operation");
    if (s.chance(1, 4)) p->garbageCollect(s.coin());
    if (s.chance(1, 12)) {
      const auto q = static_cast<unsigned>(s.below(n));
      const char bit = p->measureOneCollapsing(e, static_cast<dd::Qubit>(q), rng);
      const Mat pr = conj1(rho, q, bit == '0' ? K{1, 0, 0, 0} : K{0, 0, 0, 1});
      double t = 0;
      for (std::size_t i = 0; i < pr.n; ++i) t += pr(i, i).real();
      require(t > 1e-9, "measuring qubit " + std::to_string(q) + " gives " + std::string(1, bit) + " although its probability is zero: " + d);
      rho = pr;
      for (auto& x : rho.a) x /= t;
      c.label("collapsed");
      check("the measurement of qubit " + std::to_string(q) + " after operation");
    }
    ++k;
  }
  const auto sp = e.getSparseProbabilityVector(n);
  for (std::size_t i = 0; i < rho.n; ++i) { auto it = sp.find(i); const double v = it == sp.end() ? 0 : it->second; require(std::abs(v - rho(i, i).real()) < 1e-7, "sparse probability of " + std::to_string(i) + " is " + spec::num(v) + " instead of " + spec::num(rho(i, i).real()) + " for " + d); }
  const auto ss = e.getSparseProbabilityVectorStrKeys(n);
  for (auto& [key, v] : ss) {
    std::size_t i = 0;
    require(key.size() == n, "key " + key + " has a wrong length");
    for (unsigned q = 0; q < n; ++q) if (key[n - 1 - q] == '1') i |= std::size_t{1} << q;
    require(std::abs(v - rho(i, i).real()) < 1e-7, "probability of " + key + " is " + spec::num(v) + " instead of " + spec::num(rho(i, i).real()) + " for " + d);
  }
  bool noisy = false;
  for (char x : eff) noisy = noisy || (x == 'A' ? a1 + a2 > 0 : x != 'I' && p1 + p2 > 0);
  c.nontrivial = !ops.empty() && noisy;
  if (!noisy) c.label("noiseless");
}
struct Br { double p; Vec v; };
std::vector<Br> branches(const Vec& in, const std::set<qc::Qubit>& qs, const std::string& eff, double p, double a) {
  std::vector<Br> bs{{1, in}};
  for (auto q : qs) for (char e : eff) {
    std::vector<Br> nx;
    for (auto& b : bs) for (auto& k : kraus(e, p, a)) {
      Vec w(b.v.size());
      const std::size_t m = std::size_t{1} << q;
      for (std::size_t i = 0; i < w.size(); ++i) { const std::size_t x = (i >> q) & 1U; w[i] = k[2 * x] * b.v[i & ~m] + k[2 * x + 1] * b.v[i | m]; }
      const double nn = ref::norm(w);
      if (nn < 1e-7) continue;
      for (auto& t : w) t /= nn;
      nx.push_back({b.p * nn * nn, w});
    }
    bs = nx;
  }
  return bs;
}
double overlap(const Vec& a, const Vec& b) { C r{}; for (std::size_t i = 0; i < a.size(); ++i) r += std::conj(a[i]) * b[i]; return std::abs(r); }
// many realisations of one noisy operation: every one is a branch, and the branches occur with their probabilities
std::unique_ptr<dd::Package> mkStochastic(std::size_t n) { auto k = ddx::smallConfig(); k.stochasticCacheOps = qc::OpType::OpTypeEnd; return std::make_unique<dd::Package>(n, k); }
void stochastic(Src& s, Ctx& c) {
  const auto n = static_cast<unsigned>(s.range(1, 3));
  auto p = mkStochastic(n);
  Vec v = ddx::genVec(s, n);
  spec::GenCfg g; g.maxControls = 1;
  auto o = spec::genGate(s, n, g);
  auto op = spec::makeOp(o);
  const auto used = op->getUsedQubits();
  const auto eff = genEffects(s, false);
  const double np = genProb(s), ad = genProb(s), mx = std::max(np, ad);
  const double fac = s.coin() ? 1 : mx > 0.5 ? s.range(0, 100) / 100.0 / mx : s.pick<double>({2, 1.5, 0.5});
  const bool multi = used.size() > 1;
  if (np * fac > 1 || ad * fac > 1) return;
  const double p1 = multi ? np * fac : np, a1 = multi ? ad * fac : ad;
  const std::string d = std::to_string(n) + "q noise " + eff + " p=" + spec::num(np) + " a=" + spec::num(ad) + " factor " + spec::num(fac) + ": " + spec::show({o}) + " on " + ref::show(v);
  c.desc(d);
  auto e0 = p->makeStateFromVector(ddx::toCVec(v));
  auto opDD = dd::getDD(*op, *p);
  p->incRef(opDD);
  spec::applyUnitary(v, o);
  auto bs = branches(v, used, eff, p1, a1);
  Mat want(v.size());
  for (auto& b : bs) for (std::size_t i = 0; i < v.size(); ++i) for (std::size_t j = 0; j < v.size(); ++j) want(i, j) += b.p * b.v[i] * std::conj(b.v[j]);
  if (s.chance(1, 3)) { // another instance with other probabilities was used in the same package before
    dd::StochasticNoiseFunctionality other(*p, n, 0.3, 0.37, 1.0, "A");
    std::mt19937_64 r(1);
    auto e = e0;
    p->incRef(e);
    other.applyNoiseOperation(used, opDD, e, r);
    p->decRef(e);
    c.label("after another instance");
  }
  dd::StochasticNoiseFunctionality f(*p, n, np, ad, fac, eff);
  std::mt19937_64 rng(s.below(1U << 20));
  const int shots = 400;
  Mat got(v.size());
  for (int k = 0; k < shots; ++k) {
    auto e = e0;
    p->incRef(e);
    f.applyNoiseOperation(used, opDD, e, rng);
    const auto w = ddx::toVec(e, n);
    require(std::abs(ref::norm(w) - 1) < 1e-6, "a realisation has norm " + spec::num(ref::norm(w)) + " for " + d);
    double best = 0;
    for (auto& b : bs) best = std::max(best, overlap(b.v, w));
    require(best > 1 - 1e-6, "a realisation " + ref::show(w) + " is not a branch of the channel: " + d);
    for (std::size_t i = 0; i < w.size(); ++i) for (std::size_t j = 0; j < w.size(); ++j) got(i, j) += w[i] * std::conj(w[j]) / static_cast<double>(shots);
    p->decRef(e);
    if (k % 64 == 63) p->garbageCollect(s.coin());
  }
  // every real or imaginary part is a mean of bounded terms: |diagonal - E| and |off-diagonal part - E| exceed t with
  // probability below 2 exp(-2 shots t^2); t is chosen for 1e-14 per entry
  const double t = std::sqrt(std::log(2e14) / (2.0 * shots));
  for (std::size_t i = 0; i < v.size(); ++i) for (std::size_t j = 0; j < v.size(); ++j) {
    const C df = got(i, j) - want(i, j);
    require(std::abs(df.real()) < t && std::abs(df.imag()) < t, "the average of the realisations at (" + std::to_string(i) + "," + std::to_string(j) + ") is " + spec::num(got(i, j).real()) + "," + spec::num(got(i, j).imag()) + " instead of " + spec::num(want(i, j).real()) + "," + spec::num(want(i, j).imag()) + " for " + d);
  }
  c.nontrivial = bs.size() > 1;
  if (multi) c.label("several qubits");
  p->decRef(e0); p->decRef(opDD);
}
// few branches, many realisations: sharp frequency test
void frequencies(Src& s, Ctx& c) {
  auto p = mkStochastic(2);
  const bool multi = s.coin();
  const std::string eff(1, s.pick<char>({'A', 'P', 'D'}));
  const double np = s.range(1, 9) / 10.0, ad = s.range(1, 9) / 10.0, fac = multi ? s.range(1, 10) / 10.0 : 1.0;
  const std::set<qc::Qubit> used = multi ? std::set<qc::Qubit>{0, 1} : std::set<qc::Qubit>{static_cast<qc::Qubit>(s.below(2))};
  Vec v = ddx::genVec(s, 2);
  const std::string d = "noise " + eff + " p=" + spec::num(np) + " a=" + spec::num(ad) + " factor " + spec::num(fac) + (multi ? " both qubits" : " one qubit") + " on " + ref::show(v);
  c.desc(d);
  auto bs = branches(v, used, eff, multi ? np * fac : np, multi ? ad * fac : ad);
  Mat want(4), got(4);
  for (auto& b : bs) for (std::size_t i = 0; i < 4; ++i) for (std::size_t j = 0; j < 4; ++j) want(i, j) += b.p * b.v[i] * std::conj(b.v[j]);
  dd::StochasticNoiseFunctionality f(*p, 2, np, ad, fac, eff);
  auto e0 = p->makeStateFromVector(ddx::toCVec(v));
  std::mt19937_64 rng(s.below(1U << 20));
  const int shots = 6000;
  for (int k = 0; k < shots; ++k) {
    auto e = e0;
    p->incRef(e);
    f.applyNoiseOperation(used, dd::Package::makeIdent(), e, rng);
    const auto w = ddx::toVec(e, 2);
    for (std::size_t i = 0; i < 4; ++i) for (std::size_t j = 0; j < 4; ++j) got(i, j) += w[i] * std::conj(w[j]) / static_cast<double>(shots);
    p->decRef(e);
  }
  const double t = std::sqrt(std::log(2e14) / (2.0 * shots));
  for (std::size_t i = 0; i < 16; ++i) require(std::abs(got.a[i].real() - want.a[i].real()) < t && std::abs(got.a[i].imag() - want.a[i].imag()) < t, "the average of " + std::to_string(shots) + " realisations is " + ref::show(got.a) + " instead of " + ref::show(want.a) + " for " + d);
  c.nontrivial = bs.size() > 1;
}
void refusal(Src& s, Ctx& c) {
  auto p = mkStochastic(2);
  const double np = s.pick<double>({-0.1, 0.4, 1.2, 0.8}), ad = s.pick<double>({-0.1, 0.4, 1.2, 0.8}), fac = s.pick<double>({1, 2, 0.5});
  const std::string eff = s.pick<std::string>({"A", "PDA", "X", "AQ", ""});
  const std::string d = eff + " p=" + spec::num(np) + " a=" + spec::num(ad) + " factor " + spec::num(fac);
  c.desc(d);
  const bool badEff = eff.find_first_not_of("APDI") != std::string::npos;
  bool t = false;
  try { dd::StochasticNoiseFunctionality f(*p, 2, np, ad, fac, eff); } catch (const std::exception&) { t = true; }
  require(t == (badEff || np < 0 || ad < 0 || np * fac > 1 || ad * fac > 1), std::string("the stochastic simulation ") + (t ? "refuses" : "accepts") + " " + d);
  t = false;
  try { dd::DeterministicNoiseFunctionality f(*p, 2, np, ad, ad, np, eff); } catch (const std::exception&) { t = true; }
  require(t == (badEff || np < 0 || ad < 0 || np > 1 || ad > 1), std::string("the deterministic simulation ") + (t ? "refuses" : "accepts") + " " + d);
  c.nontrivial = true;
}
} // namespace

int main(int argc, char** argv) {
  Suite su;
  su.property = "C29";
  su.rule = "one case = one circuit with deterministic noise, its density matrix compared entry by entry after every operation, every noise step and every measurement; or several hundred to thousand stochastic realisations of one noisy operation, each required to be one of the enumerated Kraus branches and their mean compared with the channel; non-trivial = noise with non-zero probability";
  su.assumptions = {"effects are applied per qubit in the given order", "stochastic simulation: every effect named at most once", "statistical comparison by Hoeffding bound with 1e-14 per entry"};
  su.props = {{"deterministic", deterministic, 20000, 500000}, {"stochastic", stochastic, 1500, 40000}, {"frequencies", frequencies, 150, 5000}, {"refusal", refusal, 300, 1000}};
  return mainImpl(su, argc, argv);
}
