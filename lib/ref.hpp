// Independent dense reference semantics. Nothing here calls into the code under test except to
// read operation fields in `extract` (lib/spec.hpp).
#pragma once
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <map>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace ref {
using C = std::complex<double>;
using Vec = std::vector<C>;
struct Mat {
  std::size_t n = 0;
  Vec a;
  Mat() = default;
  explicit Mat(std::size_t n_) : n(n_), a(n_ * n_) {}
  C& operator()(std::size_t r, std::size_t c) { return a[r * n + c]; }
  const C& operator()(std::size_t r, std::size_t c) const { return a[r * n + c]; }
  static Mat id(std::size_t n) { Mat m(n); for (std::size_t i = 0; i < n; ++i) m(i, i) = 1; return m; }
};
inline Mat mul(const Mat& x, const Mat& y) {
  Mat r(x.n);
  for (std::size_t i = 0; i < x.n; ++i) for (std::size_t k = 0; k < x.n; ++k) { C v = x(i, k); if (v == C{}) continue; for (std::size_t j = 0; j < x.n; ++j) r(i, j) += v * y(k, j); }
  return r;
}
inline Vec mul(const Mat& m, const Vec& v) {
  Vec r(m.n);
  for (std::size_t i = 0; i < m.n; ++i) for (std::size_t j = 0; j < m.n; ++j) r[i] += m(i, j) * v[j];
  return r;
}
inline Mat adj(const Mat& m) { Mat r(m.n); for (std::size_t i = 0; i < m.n; ++i) for (std::size_t j = 0; j < m.n; ++j) r(j, i) = std::conj(m(i, j)); return r; }
inline Mat transp(const Mat& m) { Mat r(m.n); for (std::size_t i = 0; i < m.n; ++i) for (std::size_t j = 0; j < m.n; ++j) r(j, i) = m(i, j); return r; }
inline Mat kron(const Mat& x, const Mat& y) { // x on the high bits
  Mat r(x.n * y.n);
  for (std::size_t i = 0; i < x.n; ++i) for (std::size_t j = 0; j < x.n; ++j) for (std::size_t k = 0; k < y.n; ++k) for (std::size_t l = 0; l < y.n; ++l) r(i * y.n + k, j * y.n + l) = x(i, j) * y(k, l);
  return r;
}
inline Vec kron(const Vec& x, const Vec& y) { Vec r; for (auto& p : x) for (auto& q : y) r.push_back(p * q); return r; }
inline C dot(const Vec& x, const Vec& y) { C s; for (std::size_t i = 0; i < x.size(); ++i) s += std::conj(x[i]) * y[i]; return s; }
inline double dist(const Vec& x, const Vec& y) { if (x.size() != y.size()) return 1e300; double d = 0; for (std::size_t i = 0; i < x.size(); ++i) { double e = std::abs(x[i] - y[i]); if (!(e <= d)) d = std::isnan(e) ? 1e300 : std::max(d, e); } return d; }
inline double dist(const Mat& x, const Mat& y) { return dist(x.a, y.a); }
// distance up to a unit phase
inline double distPhase(const Vec& x, const Vec& y) {
  if (x.size() != y.size()) return 1e300;
  C s; for (std::size_t i = 0; i < x.size(); ++i) s += std::conj(x[i]) * y[i];
  if (std::abs(s) < 1e-12) return dist(x, y);
  C ph = s / std::abs(s);
  double d = 0; for (std::size_t i = 0; i < x.size(); ++i) d = std::max(d, std::abs(x[i] * ph - y[i]));
  return d;
}
// distance up to any non-zero scalar (both normalised)
inline double distScalar(Vec x, Vec y) {
  auto nrm = [](Vec& v) { double s = 0; for (auto& c : v) s += std::norm(c); s = std::sqrt(s); if (s > 0) for (auto& c : v) c /= s; return s; };
  double nx = nrm(x), ny = nrm(y);
  if (nx < 1e-9 || ny < 1e-9) return (nx < 1e-9 && ny < 1e-9) ? 0 : 1;
  return distPhase(x, y);
}
inline double norm(const Vec& x) { double s = 0; for (auto& c : x) s += std::norm(c); return std::sqrt(s); }

// gate kinds are named by strings independent of the enum of the code under test
inline bool isTwoTarget(const std::string& g) {
  return g == "swap" || g == "iswap" || g == "iswapdg" || g == "peres" || g == "peresdg" || g == "dcx" || g == "ecr" || g == "rxx" || g == "ryy" || g == "rzz" || g == "rzx" || g == "xx_minus_yy" || g == "xx_plus_yy" || g == "move";
}
inline std::size_t numParams(const std::string& g) {
  if (g == "rx" || g == "ry" || g == "rz" || g == "p" || g == "rxx" || g == "ryy" || g == "rzz" || g == "rzx" || g == "gphase") return 1;
  if (g == "u2" || g == "xx_minus_yy" || g == "xx_plus_yy") return 2;
  if (g == "u") return 3;
  return 0;
}
inline Mat mk2(C a, C b, C c, C d) { Mat m(2); m.a = {a, b, c, d}; return m; }
inline C ei(double x) { return {std::cos(x), std::sin(x)}; }
inline Mat expPauli(const Mat& P, double th) { // exp(-i th/2 P)
  Mat r(P.n);
  for (std::size_t i = 0; i < P.a.size(); ++i) r.a[i] = C(0, -std::sin(th / 2)) * P.a[i];
  for (std::size_t i = 0; i < P.n; ++i) r(i, i) += std::cos(th / 2);
  return r;
}
// Two-target matrices: first target is the most significant bit of the 2-bit index.
inline Mat gateMatrix(const std::string& g, const std::vector<double>& p) {
  const C i(0, 1);
  const Mat I = Mat::id(2), X = mk2(0, 1, 1, 0), Y = mk2(0, -i, i, 0), Z = mk2(1, 0, 0, -1);
  const double s = std::sqrt(0.5);
  if (g == "i") return I;
  if (g == "x") return X;
  if (g == "y") return Y;
  if (g == "z") return Z;
  if (g == "h") return mk2(s, s, s, -s);
  if (g == "s") return mk2(1, 0, 0, i);
  if (g == "sdg") return mk2(1, 0, 0, -i);
  if (g == "t") return mk2(1, 0, 0, ei(M_PI / 4));
  if (g == "tdg") return mk2(1, 0, 0, ei(-M_PI / 4));
  if (g == "v") return expPauli(X, M_PI / 2);
  if (g == "vdg") return expPauli(X, -M_PI / 2);
  if (g == "sx" || g == "sxdg") { // principal square root of X and its adjoint
    C ph = ei(g == "sx" ? M_PI / 4 : -M_PI / 4);
    Mat m = expPauli(X, g == "sx" ? M_PI / 2 : -M_PI / 2);
    for (auto& c : m.a) c *= ph;
    return m;
  }
  if (g == "rx") return expPauli(X, p[0]);
  if (g == "ry") return expPauli(Y, p[0]);
  if (g == "rz") return expPauli(Z, p[0]);
  if (g == "p") return mk2(1, 0, 0, ei(p[0]));
  if (g == "u" || g == "u2") {
    double th = g == "u" ? p[0] : M_PI / 2, phi = g == "u" ? p[1] : p[0], lam = g == "u" ? p[2] : p[1];
    return mk2(std::cos(th / 2), -ei(lam) * std::sin(th / 2), ei(phi) * std::sin(th / 2), ei(phi + lam) * std::cos(th / 2));
  }
  auto perm = [](std::array<int, 4> to) { Mat m(4); for (std::size_t c = 0; c < 4; ++c) m(static_cast<std::size_t>(to[c]), c) = 1; return m; };
  if (g == "swap" || g == "move") return perm({0, 2, 1, 3});
  if (g == "iswap" || g == "iswapdg") { Mat m = perm({0, 2, 1, 3}); C f = g == "iswap" ? i : -i; m(1, 2) = f; m(2, 1) = f; return m; }
  if (g == "dcx") return perm({0, 3, 1, 2});   // CX(a,b) then CX(b,a), a the high bit
  if (g == "peres") return perm({2, 3, 1, 0}); // CX(a,b) then X(a)
  if (g == "peresdg") return adj(perm({2, 3, 1, 0}));
  if (g == "ecr") { // (IX - XY)/sqrt2 in qiskit's order = X on first .. : first (x) second = X(x)I - Y(x)X
    Mat a = kron(X, I), b = kron(Y, X), m(4);
    for (std::size_t k = 0; k < 16; ++k) m.a[k] = s * (a.a[k] - b.a[k]);
    return m;
  }
  if (g == "rxx") return expPauli(kron(X, X), p[0]);
  if (g == "ryy") return expPauli(kron(Y, Y), p[0]);
  if (g == "rzz") return expPauli(kron(Z, Z), p[0]);
  if (g == "rzx") return expPauli(kron(Z, X), p[0]);
  if (g == "xx_plus_yy") { Mat m = Mat::id(4); double c = std::cos(p[0] / 2), sn = std::sin(p[0] / 2); m(1, 1) = c; m(2, 2) = c; m(1, 2) = -i * ei(p[1]) * sn; m(2, 1) = -i * ei(-p[1]) * sn; return m; }
  if (g == "xx_minus_yy") { Mat m = Mat::id(4); double c = std::cos(p[0] / 2), sn = std::sin(p[0] / 2); m(0, 0) = c; m(3, 3) = c; m(0, 3) = -i * ei(-p[1]) * sn; m(3, 0) = -i * ei(p[1]) * sn; return m; }
  throw std::logic_error("ref: unknown gate " + g);
}

struct Ctrl { unsigned q; bool pos; bool operator<(const Ctrl& o) const { return q != o.q ? q < o.q : pos < o.pos; } bool operator==(const Ctrl& o) const { return q == o.q && pos == o.pos; } };

inline bool ctrlOk(std::size_t idx, const std::vector<Ctrl>& cs) {
  for (auto& c : cs) if (((idx >> c.q) & 1U) != (c.pos ? 1U : 0U)) return false;
  return true;
}
// apply to a state vector in place (qubit q is bit q of the index)
inline void apply(Vec& v, const std::string& g, const std::vector<double>& p, const std::vector<Ctrl>& cs, const std::vector<unsigned>& ts) {
  if (g == "gphase") { C f = ei(p[0]); for (std::size_t i = 0; i < v.size(); ++i) if (ctrlOk(i, cs)) v[i] *= f; return; }
  Mat m = gateMatrix(g, p);
  if (m.n == 2) {
    std::size_t b = std::size_t{1} << ts[0];
    for (std::size_t i = 0; i < v.size(); ++i) if (!(i & b) && ctrlOk(i, cs)) { C x = v[i], y = v[i | b]; v[i] = m(0, 0) * x + m(0, 1) * y; v[i | b] = m(1, 0) * x + m(1, 1) * y; }
  } else {
    std::size_t b1 = std::size_t{1} << ts[0], b0 = std::size_t{1} << ts[1];
    for (std::size_t i = 0; i < v.size(); ++i) if (!(i & b1) && !(i & b0) && ctrlOk(i, cs)) {
      std::size_t id[4] = {i, i | b0, i | b1, i | b0 | b1};
      C x[4], y[4];
      for (int k = 0; k < 4; ++k) x[k] = v[id[k]];
      for (std::size_t r = 0; r < 4; ++r) { y[r] = 0; for (std::size_t c = 0; c < 4; ++c) y[r] += m(r, c) * x[c]; }
      for (int k = 0; k < 4; ++k) v[id[k]] = y[k];
    }
  }
}
inline std::string show(const Vec& v) {
  std::ostringstream os; os.precision(4);
  os << "[";
  for (std::size_t i = 0; i < v.size() && i < 16; ++i) os << (i ? ", " : "") << v[i].real() << (v[i].imag() < 0 ? "-" : "+") << std::abs(v[i].imag()) << "i";
  os << (v.size() > 16 ? ", ...]" : "]");
  return os.str();
}
} // namespace ref
