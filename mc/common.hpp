// Shared pieces of the schedule-exploration harnesses.
#pragma once
#include "../mcrt/mcrt.hpp"
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <cmath>
#include <sstream>
#include <memory>
#include <small_gicp/points/point_cloud.hpp>

namespace mch {
using namespace small_gicp;
template <typename... A>
std::string str(A&&... a) { std::ostringstream s; s.precision(17); (s << ... << a); return s.str(); }

// deterministic integer-coordinate generator (full-period mixing, not sampling: the clouds are fixed inputs)
struct Mix {
  uint64_t s;
  explicit Mix(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 1) {}
  uint64_t operator()() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int in(int lo, int hi) { return lo + (int)((*this)() % (uint64_t)(hi - lo + 1)); }
};
inline std::shared_ptr<PointCloud> int_cloud(size_t n, int lo, int hi, uint64_t seed) {
  auto c = std::make_shared<PointCloud>();
  c->resize(n);
  Mix r(seed);
  for (size_t i = 0; i < n; i++) c->point(i) = Eigen::Vector4d(r.in(lo, hi), r.in(lo, hi), r.in(lo, hi), 1.0);
  return c;
}
}  // namespace mch

// f(t) in each thread t of an OpenMP team (nest > 1), or once: the library called from inside a parallel region of the user
template <typename F> void in_team(int nest, const F& f) {
  if (nest <= 1) { f(0); return; }
#pragma omp parallel num_threads(nest)
  f(omp_get_thread_num());
}
