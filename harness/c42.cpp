// build: {"libs": ["ir", "zx"]}
// C42: angles as fractions of pi obey exact arithmetic modulo 2*pi.
#include "pbt.hpp"
#include "zx/Rational.hpp"
#include "zx/ZXDefinitions.hpp"
using namespace pbt;
using zx::PiRational;

namespace {
using Z = boost::multiprecision::cpp_int;
// reference: reduced fraction with positive denominator, reduced modulo 2 to (-1, 1]
struct R { Z n = 0, d = 1; };
Z gcd(Z a, Z b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b != 0) { Z t = a % b; a = b; b = t; } return a; }
R norm(Z n, Z d) { if (d < 0) { n = -n; d = -d; } Z g = gcd(n, d); if (g == 0) g = 1; return {n / g, d / g}; }
R red(Z n, Z d) {
  R r = norm(n, d);
  Z p = 2 * r.d, m = r.n % p;
  if (m < 0) m += p;        // [0, 2)
  if (m > r.d) m -= p;      // (-1, 1]
  return norm(m, r.d);
}
std::string str(const R& r) { std::ostringstream o; o << r.n << "/" << r.d; return o.str(); }
void same(const PiRational& got, const R& want, const std::string& d) {
  std::ostringstream o; o << got;
  require(got.getNum() == want.n && got.getDenom() == want.d, "got " + o.str() + ", exact result " + str(want) + ": " + d);
  require(o.str() == str(want), "printed as " + o.str() + " instead of " + str(want) + ": " + d);
  require(got.isZero() == (want.n == 0), "isZero wrong: " + d);
  require(got.isInteger() == (want.d == 1), "isInteger wrong: " + d);
}
int64_t genInt(Src& s) {
  switch (s.below(5)) {
  case 0: return s.range(-3, 3);
  case 1: return s.range(-20, 20);
  case 2: return s.range(-1000, 1000);
  case 3: return static_cast<int64_t>(s.below(uint64_t{1} << 40)) - (int64_t{1} << 39);
  default: return s.range(-8, 8) * (int64_t{1} << s.below(30));
  }
}
int64_t genDen(Src& s) {
  int64_t d;
  switch (s.below(4)) { case 0: d = int64_t{1} << s.below(12); break; case 1: d = s.range(1, 30); break; case 2: d = static_cast<int64_t>(s.below(1000000)) + 1; break; default: d = static_cast<int64_t>(s.below(uint64_t{1} << 40)) + 1; }
  return s.chance(1, 5) ? -d : d;
}
struct P { PiRational v; R r; std::string d; };
P gen(Src& s) {
  auto n = genInt(s);
  if (s.chance(1, 6)) return {PiRational(n), red(n, 1), std::to_string(n)};
  auto d = genDen(s);
  std::string t = std::to_string(n) + "/" + std::to_string(d);
  if (s.chance(1, 3)) return {PiRational(Z(n) * (Z(1) << 70) , Z(d)), red(Z(n) * (Z(1) << 70), d), t + "*2^70"};
  return {PiRational(n, d), red(n, d), t};
}
template <class F> bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }

// one binary operation between fractions or a fraction and an integer
void arith(Src& s, Ctx& c) {
  auto a = gen(s);
  c.desc(a.d);
  same(a.v, a.r, a.d);
  std::string d = "(" + a.d + ")";
  const unsigned k = static_cast<unsigned>(s.range(1, 8));
  for (unsigned i = 0; i < k; ++i) {
    const char op = "+-*/"[s.below(4)];
    const auto mode = s.below(5);
    if (s.chance(1, 8)) { a.v = -a.v; a.r = red(-a.r.n, a.r.d); d = "-" + d; c.desc(d); same(a.v, a.r, d); }
    auto comb = [&](const R& x, const R& y) -> R {
      switch (op) { case '+': return red(x.n * y.d + y.n * x.d, x.d * y.d); case '-': return red(x.n * y.d - y.n * x.d, x.d * y.d); case '*': return red(x.n * y.n, x.d * y.d); default: return red(x.n * y.d, x.d * y.n); }
    };
    if (mode <= 1) { // fraction (op) fraction
      auto b = gen(s);
      d = "(" + d + op + b.d + ")"; c.desc(d);
      if (op == '/' && b.r.n == 0) { require(throws([&] { (void)(a.v / b.v); }), "division by zero did not throw: " + d); return; }
      auto r = comb(a.r, b.r);
      PiRational v = op == '+' ? a.v + b.v : op == '-' ? a.v - b.v : op == '*' ? a.v * b.v : a.v / b.v;
      same(v, r, d);
      PiRational w = a.v;
      if (op == '+') w += b.v; else if (op == '-') w -= b.v; else if (op == '*') w *= b.v; else w /= b.v;
      same(w, r, d + " (compound assignment)");
      if (op == '+') same(b.v + a.v, r, d + " (commuted)");
      if (op == '*') same(b.v * a.v, r, d + " (commuted)");
      if (op == '-') { same(v + b.v, a.r, d + " then added back"); same(a.v - a.v, {0, 1}, d + " self difference"); }
      a = {v, r, ""};
      c.label("fraction operand");
    } else { // with an integer, on either side
      int64_t m = genInt(s);
      R im{m, 1};
      const bool left = mode == 2;
      d = left ? "(" + std::to_string(m) + op + d + ")" : "(" + d + op + std::to_string(m) + ")"; c.desc(d);
      if (op == '/' && (left ? a.r.n == 0 : m == 0)) { require(throws([&] { (void)(left ? m / a.v : a.v / m); }), "division by zero did not throw: " + d); return; }
      auto r = left ? comb(im, a.r) : comb(a.r, im);
      PiRational v = left ? (op == '+' ? m + a.v : op == '-' ? m - a.v : op == '*' ? m * a.v : m / a.v) : (op == '+' ? a.v + m : op == '-' ? a.v - m : op == '*' ? a.v * m : a.v / m);
      same(v, r, d);
      if (!left) { PiRational w = a.v; if (op == '+') w += m; else if (op == '-') w -= m; else if (op == '*') w *= m; else w /= m; same(w, r, d + " (compound assignment)"); }
      a = {v, r, ""};
      c.label(left ? "integer on the left" : "integer on the right");
    }
  }
  c.nontrivial = k >= 2;
}
// comparisons with fractions and integers agree with the exact order
void compare(Src& s, Ctx& c) {
  auto a = gen(s), b = gen(s);
  if (s.chance(1, 4)) { b = a; b.v = PiRational(a.r.n * 3 + (s.coin() ? 6 : 0) * a.r.d, a.r.d * 3); }
  const std::string d = a.d + " vs " + b.d;
  c.desc(d);
  Z l = a.r.n * b.r.d, r = b.r.n * a.r.d;
  require((a.v < b.v) == (l < r) && (a.v <= b.v) == (l <= r) && (a.v > b.v) == (l > r) && (a.v >= b.v) == (l >= r) && (a.v == b.v) == (l == r) && (a.v != b.v) == (l != r), "comparison of fractions wrong: " + d);
  int64_t m = s.chance(1, 4) ? genInt(s) : s.range(-2, 2);
  l = a.r.n; r = a.r.d * m;
  const std::string e = a.d + " vs integer " + std::to_string(m);
  require((a.v < m) == (l < r) && (a.v <= m) == (l <= r) && (a.v > m) == (l > r) && (a.v >= m) == (l >= r) && (a.v == m) == (l == r) && (a.v != m) == (l != r), "comparison with an integer wrong: " + e);
  require((m < a.v) == (r < l) && (m <= a.v) == (r <= l) && (m > a.v) == (r > l) && (m >= a.v) == (r >= l) && (m == a.v) == (l == r) && (m != a.v) == (l != r), "comparison of an integer with a fraction wrong: " + e);
  require(a.v > -1 && a.v <= 1, "representative outside (-1, 1]: " + d);
  c.nontrivial = a.r.d != 1 || b.r.d != 1;
}
double angle(const R& r) { return r.n.convert_to<double>() / r.d.convert_to<double>(); }
// floating point conversions
void doubles(Src& s, Ctx& c) {
  auto a = gen(s);
  std::string d = a.d; c.desc(d);
  const double x = angle(a.r);
  require(std::abs(a.v.toDoubleDivPi() - x) < 1e-14, "toDoubleDivPi wrong: " + d);
  require(std::abs(a.v.toDouble() - x * M_PI) < 1e-13 && std::abs(static_cast<double>(a.v) - x * M_PI) < 1e-13, "toDouble wrong: " + d);
  const double tol = s.pick<double>({1e-3, 1e-9, 1e-12}), off = s.pick<double>({0, 0.5, 2, -0.5, -2}) * tol;
  require(a.v.isClose(a.v.toDouble() + off, tol) == (std::abs(off) < tol) && a.v.isCloseDivPi(a.v.toDoubleDivPi() + off, tol) == (std::abs(off) < tol), "isClose/isCloseDivPi wrong: " + d);
  // angle in radians, possibly many turns away
  double y;
  R ex; bool exact = false;
  switch (s.below(5)) {
  case 0: { int k = static_cast<int>(s.below(9)); int64_t n = s.range(-2000, 2000); y = M_PI * static_cast<double>(n) / static_cast<double>(1 << k); ex = red(n, 1 << k); exact = std::abs(y) < 1e4; d = std::to_string(n) + "pi/2^" + std::to_string(k); break; }
  case 1: { int64_t q = s.pick<int64_t>({1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 32, 50, 64, 100}); y = M_PI / static_cast<double>(q) * (s.coin() ? 1 : -1); ex = red(y > 0 ? 1 : -1, q); exact = true; d = "pi/" + std::to_string(q); break; }
  case 2: { int64_t q = s.pick<int64_t>({5, 10, 20, 25, 40, 50, 100, 125, 1000, 10000}); int64_t n = s.range(-5000, 5000); y = M_PI * static_cast<double>(n) / static_cast<double>(q); ex = red(n, q); exact = std::abs(y) < 1e4; d = std::to_string(n) + "pi/" + std::to_string(q); break; }
  case 3: y = (s.unit() * 2 - 1) * std::pow(10, s.range(-12, 12)); d = "radians"; break;
  default: y = s.real(-20, 20); d = "radians"; break;
  }
  { char b[40]; std::snprintf(b, sizeof b, " = %.17g", y); d += b; }
  c.desc(d);
  PiRational p(y);
  require(p > -1 && p <= 1, "representative outside (-1, 1]: " + d);
  // distance modulo 2*pi
  const long double two = 2 * 3.141592653589793238462643383279502884L;
  long double diff = std::fmod(static_cast<long double>(y) - static_cast<long double>(p.toDouble()), two);
  if (diff > two / 2) diff -= two;
  if (diff < -two / 2) diff += two;
  const double bound = 1.7e-9 + std::abs(y) * 4e-16 + 1e-13; // half a step of 1/MAX_DENOM (or the tolerance) plus rounding
  require(std::abs(static_cast<double>(diff)) < bound, "converting the angle moved it by " + std::to_string(static_cast<double>(diff) * 1e9) + "e-9: " + d);
  require(p.getDenom() <= 1000000000 || std::abs(y) < 4e-9, "denominator exceeds the bound: " + d);
  if (exact) { std::ostringstream o; o << p; require(p.getNum() == ex.n && p.getDenom() == ex.d, "exact angle became " + o.str() + ", expected " + str(ex) + ": " + d); c.label("exact angle"); }
  c.nontrivial = !p.isZero();
}
} // namespace

int main(int argc, char** argv) {
  Suite su;
  su.property = "C42";
  su.rule = "one case = a chain of up to 8 operations on fractions/integers, a comparison pair, or a conversion from/to floating point, compared with arbitrary precision rationals reduced to (-1,1]; non-trivial = chain of at least two operations, a non-integer operand, a non-zero angle; distinct by printed expression";
  su.assumptions = {"dividing by zero must throw", "floating point angles up to 1e12 in magnitude; bound: half of pi/MAX_DENOM rounded up plus floating point rounding", "angles pi*p/q with q dividing 2^8 or a divisor of MAX_DENOM, or pi/q for small q, are recognised exactly"};
  su.props = {{"arithmetic", arith, 1000000, 8000000}, {"comparison", compare, 600000, 5000000}, {"doubles", doubles, 800000, 5000000}};
  return mainImpl(su, argc, argv);
}
