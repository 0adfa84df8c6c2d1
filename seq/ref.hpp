// Shared reference pieces of the enumeration harnesses: clouds, brute-force neighbour search, result checking.
#pragma once
#include "seqx.hpp"
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <algorithm>
#include <memory>
#include <small_gicp/points/point_cloud.hpp>

namespace ref {
using seqx::str;
using small_gicp::PointCloud;
using V4 = Eigen::Vector4d;
using Pts = std::vector<Eigen::Vector4d>;

struct Mix {
  uint64_t s;
  explicit Mix(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 1) {}
  uint64_t operator()() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int in(int lo, int hi) { return lo + (int)((*this)() % (uint64_t)(hi - lo + 1)); }
  double u(double lo, double hi) { return lo + (hi - lo) * (double)((*this)() >> 11) * (1.0 / 9007199254740992.0); }
};

// ---- structured clouds
enum Shape { LATTICE, FEWVAL, LINEX, DIAGLINE, PLANE, SPHERE, CLUSTERS, COINCIDENT, SPREAD, OFFSET, SORTED, SHEET, NSHAPE };
inline const char* shape_name(int s) {
  static const char* n[] = {"lattice", "fewval", "linex", "diagline", "plane", "sphere", "clusters", "coincident", "spread", "offset", "sorted", "sheet"};
  return n[s];
}
inline Pts shape(int s, size_t n) {
  Pts p(n);
  Mix r(s * 1000 + n);
  for (size_t i = 0; i < n; i++) {
    double x = 0, y = 0, z = 0;
    switch (s) {
      case LATTICE: x = r.in(-8, 8); y = r.in(-8, 8); z = r.in(-8, 8); break;
      case FEWVAL: x = r.in(0, 1); y = r.in(0, 1); z = r.in(0, 2); break;
      case LINEX: x = (double)((i * 7919) % (n + 1)); break;
      case DIAGLINE: { double t = r.u(-5, 5); x = t; y = 2 * t; z = -t; break; }
      case PLANE: x = r.u(-5, 5); y = r.u(-5, 5); z = 0.5 * x - 0.25 * y + 2; break;
      case SPHERE: { double a = r.u(-3.14, 3.14), b = r.u(-1.5, 1.5); x = 10 * cos(a) * cos(b); y = 10 * sin(a) * cos(b); z = 10 * sin(b); break; }
      case CLUSTERS: { double c = r.in(0, 1) ? 100 : -100; x = c + r.u(-1, 1); y = r.u(-1, 1); z = c * 0.5 + r.u(-1, 1); break; }
      case COINCIDENT: x = 1.5; y = -2.25; z = 3.75; break;
      case SPREAD: { double e = std::pow(10.0, r.in(-3, 4)); x = e * r.u(-1, 1); y = e * r.u(-1, 1); z = e * r.u(-1, 1); break; }
      case OFFSET: x = 1e5 + r.u(-2, 2); y = -3e5 + r.u(-2, 2); z = 2e4 + r.u(-2, 2); break;
      case SORTED: x = (double)i; y = (double)(i / 3); z = (double)(i % 3); break;
      case SHEET: { x = r.u(-4, 4); y = r.u(-4, 4); z = 5 + 0.13 * x - 0.21 * y + 0.4 * sin(1.3 * x) + 0.3 * cos(1.7 * y); break; }
    }
    p[i] = V4(x, y, z, 1.0);
  }
  return p;
}
inline std::shared_ptr<PointCloud> cloud(const Pts& p) {
  auto c = std::make_shared<PointCloud>();
  c->resize(p.size());
  for (size_t i = 0; i < p.size(); i++) { c->point(i) = p[i]; c->normal(i).setZero(); c->cov(i).setZero(); }
  return c;
}
inline double scale(const Pts& p, const V4& q) {
  double m = 1e-3;
  for (auto& a : p) m = std::max(m, a.head<3>().cwiseAbs().maxCoeff());
  return std::max(m, q.head<3>().cwiseAbs().maxCoeff());
}
inline double d2(const V4& a, const V4& b) { return (a.head<3>() - b.head<3>()).squaredNorm(); }

// Checks an (eps-terminated) k-nn answer over points p with the given candidate ids.
// eps = 0: exact.  Returns "" if correct.
inline std::string check_knn(const Pts& p, const V4& q, size_t k, size_t found, const size_t* idx, const double* sq, double eps = 0) {
  const size_t n = p.size(), want = std::min(n, k);
  if (found > want) return str("found ", found, " neighbours, at most ", want, " exist");
  std::vector<double> bf(n);
  for (size_t i = 0; i < n; i++) bf[i] = d2(p[i], q);
  const double s = scale(p, q);
  auto tol = [&](double d) { return 1e-9 * d + 1e-13 * s * s + 2e-15 * s * std::sqrt(d); };
  for (size_t i = 0; i < found; i++) {
    if (idx[i] >= n) return str("result ", i, " has invalid index ", idx[i]);
    if (!(std::abs(sq[i] - bf[idx[i]]) <= tol(bf[idx[i]]))) return str("result ", i, " (point ", idx[i], "): reported squared distance ", sq[i], ", true ", bf[idx[i]]);
    if (i && !(sq[i - 1] <= sq[i])) return str("distances are not ascending: ", sq[i - 1], " before ", sq[i]);
    for (size_t j = 0; j < i; j++) if (idx[i] == idx[j]) return str("point ", idx[i], " is reported twice");
  }
  std::partial_sort(bf.begin(), bf.begin() + want, bf.end());
  bool exact = found == want;
  std::string why = exact ? "" : str("found ", found, " of ", want, " neighbours");
  for (size_t i = 0; i < found && exact; i++)
    if (!(std::abs(sq[i] - bf[i]) <= tol(bf[i]))) { exact = false; why = str("neighbour ", i, " of k=", k, ": squared distance ", sq[i], ", brute force ", bf[i]); }
  if (exact) return "";
  if (eps > 0 && found == k && sq[k - 1] < eps) return "";
  return why;
}
}  // namespace ref
