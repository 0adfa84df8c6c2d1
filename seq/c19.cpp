// C19: every public operation on degenerate inputs, under sanitizers (three builds: ASan+UBSan, MSan without threads, ASan+UBSan for the
// PCL interfaces) with poisoned heap and stack memory, and functional checks on the answers.
#ifdef MSANPART
#include <dlfcn.h>
#include <ios>
#include <list>
#include <locale>
#include <map>
#include <sanitizer/msan_interface.h>
#endif
#include "ref.hpp"
#ifdef PCLPART
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/pcl/pcl_proxy.hpp>
#include <small_gicp/pcl/pcl_registration.hpp>
#endif
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/robust_kernel.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/points/eigen.hpp>
#ifndef MSANPART
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/registration/registration_helper.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
#include <small_gicp/util/sort_omp.hpp>
#include <small_gicp/util/sort_tbb.hpp>
#endif
using namespace ref;
using namespace small_gicp;
using seqx::Odo; using seqx::step; using seqx::state;
static bool TH = false;
#ifdef MSANPART
// libstdc++'s out-of-line rehash policy, compiled here so that MemorySanitizer sees what it writes
namespace std { namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  size_t p = std::max<size_t>(n, 3);
  for (;; p++) { bool prime = true; for (size_t d = 2; d * d <= p; d++) if (p % d == 0) { prime = false; break; } if (prime) break; }
  _M_next_resize = (size_t)std::ceil(p * (double)_M_max_load_factor);
  return p;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const {
  if (n_elt + n_ins > _M_next_resize) {
    double min_bkts = std::max<size_t>(n_elt + n_ins, _M_next_resize ? 0 : 11) / (double)_M_max_load_factor;
    if (min_bkts >= n_bkt) return {true, _M_next_bkt(std::max<size_t>((size_t)std::floor(min_bkts) + 1, n_bkt * 2))};
    _M_next_resize = (size_t)std::floor(n_bkt * (double)_M_max_load_factor);
  }
  return {false, 0};
}
} }
// Other out-of-line functions of libstdc++ that fill in memory of the caller: forwarded, then the memory they wrote is marked as written
// (std::map/set and std::list nodes, string streams), so that code using those containers raises no false report.
#define NOMSAN __attribute__((disable_sanitizer_instrumentation))
static bool msan_up = false;  // set in main(): libstdc++ itself calls some of these before the sanitizer's memory exists
template <typename F> NOMSAN static F libstdcxx(const char* name) { return reinterpret_cast<F>(::dlsym(RTLD_NEXT, name)); }
NOMSAN static void written(void* p, size_t n) { if (msan_up) __msan_unpoison(p, n); }
NOMSAN void std::_Rb_tree_insert_and_rebalance(const bool left, std::_Rb_tree_node_base* x, std::_Rb_tree_node_base* p, std::_Rb_tree_node_base& header) noexcept {
  static void (*f)(bool, std::_Rb_tree_node_base*, std::_Rb_tree_node_base*, std::_Rb_tree_node_base*) = nullptr;
  if (!f) f = libstdcxx<void (*)(bool, std::_Rb_tree_node_base*, std::_Rb_tree_node_base*, std::_Rb_tree_node_base*)>("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
  f(left, x, p, &header);
  written(x, sizeof *x);
}
NOMSAN void std::__detail::_List_node_base::_M_hook(std::__detail::_List_node_base* pos) noexcept {
  static void (*f)(void*, void*) = nullptr;
  if (!f) f = libstdcxx<void (*)(void*, void*)>("_ZNSt8__detail15_List_node_base7_M_hookEPS0_");
  f(this, pos);
  written(this, sizeof *this);
}
extern "C" void c19_ios_base(void* self) __asm__("_ZNSt8ios_baseC2Ev");
extern "C" NOMSAN void c19_ios_base(void* self) {
  static void (*f)(void*) = nullptr;
  if (!f) f = libstdcxx<void (*)(void*)>("_ZNSt8ios_baseC2Ev");
  f(self);
  written(self, sizeof(std::ios_base));
}
extern "C" void c19_locale(void* self) __asm__("_ZNSt6localeC1Ev");
extern "C" NOMSAN void c19_locale(void* self) {
  static void (*f)(void*) = nullptr;
  if (!f) f = libstdcxx<void (*)(void*)>("_ZNSt6localeC1Ev");
  f(self);
  written(self, sizeof(std::locale));
}
extern "C" void c19_locale_copy(void* self, const void* other) __asm__("_ZNSt6localeC1ERKS_");
extern "C" NOMSAN void c19_locale_copy(void* self, const void* other) {
  static void (*f)(void*, const void*) = nullptr;
  if (!f) f = libstdcxx<void (*)(void*, const void*)>("_ZNSt6localeC1ERKS_");
  f(self, other);
  written(self, sizeof(std::locale));
}
#endif

// ---------------------------------------------------------------- degenerate clouds
struct Deg { std::string name; Pts p; };
static std::vector<Deg> build() {
  std::vector<Deg> v;
  auto add = [&](std::string n, std::vector<std::array<double, 3>> q) { Pts p; for (auto& a : q) p.push_back(V4(a[0], a[1], a[2], 1)); v.push_back({n, p}); };
  add("empty", {});
  add("one", {{1, 2, 3}});
  add("one-origin", {{0, 0, 0}});
  add("two", {{1, 2, 3}, {-1, 0.5, 2}});
  add("two-coincident", {{1, 2, 3}, {1, 2, 3}});
  add("three", {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}});
  add("four", {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}});
  add("five", {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 1}});
  add("far-one", {{1e6, -1e6, 5e5}});
  add("two-far", {{1e5, 0, 0}, {-1e5, 0, 0}});
  add("negative-zero", {{-0.0, 0.0, -0.0}, {0.0, -0.0, 0.0}});
  std::vector<std::array<double, 3>> q;
  for (int i = 0; i < 5; i++) q.push_back({2.5, -1.5, 0.25}); add("coincident5", q);
  for (int i = 0; i < 35; i++) q.push_back({2.5, -1.5, 0.25}); add("coincident40", q);
  q.clear(); for (int i = 0; i < 40; i++) q.push_back({0, 0, 0}); add("coincident-origin40", q);
  q.clear(); for (int i = 0; i < 25; i++) q.push_back({0.5 * i, 0, 0}); add("linex25", q);
  q.clear(); for (int i = 0; i < 25; i++) q.push_back({0.1 * i, 0.2 * i, -0.3 * i}); add("diag25", q);
  q.clear(); for (int i = 0; i < 40; i++) q.push_back({0, 0, 3.0 + (i % 4)}); add("linez-dups40", q);
  q.clear(); for (int i = 0; i < 36; i++) q.push_back({0.5 * (i % 6), 0.5 * (i / 6), 0}); add("planexy36", q);
  q.clear(); for (int i = 0; i < 36; i++) q.push_back({0.3 * (i % 6), 0.4 * (i / 6), 0.3 * (i % 6) - 0.4 * (i / 6) + 2}); add("plane36", q);
  q.clear(); for (int i = 0; i < 30; i++) q.push_back({i < 29 ? 0.0 : 1000.0, 0, 0}); add("outlier30", q);
  q.clear(); for (int i = 0; i < 41; i++) q.push_back({i < 20 ? 0.0 : 1.0, i % 2 ? 0.0 : 1e-9, 0}); add("two-clusters41", q);
  { Pts p = shape(SPHERE, 60); v.push_back({"sphere60", p}); }
  return v;
}
static const std::vector<Deg>& D() { static std::vector<Deg> v = build(); return v; }
static bool fin(const Eigen::MatrixXd& m) { for (long i = 0; i < m.size(); i++) if (!std::isfinite(m.data()[i]) || std::abs(m.data()[i]) > 1e200) return false; return true; }
static std::string attrs_ok(const PointCloud& c, int which, const std::string& w) {
  for (size_t i = 0; i < c.size(); i++) {
    if (which != 1) { if (!fin(c.normal(i))) return str(w, ": normal ", i, " is not finite"); double n = c.normal(i).norm(); if (n != 0 && std::abs(n - 1) > 1e-6) return str(w, ": normal ", i, " has norm ", n); if (c.normal(i)[3] != 0) return str(w, ": normal ", i, " homogeneous part"); }
    if (which != 0) { if (!fin(c.cov(i))) return str(w, ": covariance ", i, " is not finite"); if (!c.cov(i).isApprox(c.cov(i).transpose(), 1e-6)) return str(w, ": covariance ", i, " not symmetric"); }
  }
  return "";
}
// attributes as the library computes them for this cloud
static std::shared_ptr<PointCloud> attributed(const Pts& p, int k = 10) { auto c = cloud(p); estimate_normals_covariances(*c, k); return c; }
static std::vector<Eigen::Isometry3d> inits() {
  std::vector<Eigen::Isometry3d> v(3, Eigen::Isometry3d::Identity());
  v[1].linear() = Eigen::AngleAxisd(0.4, Eigen::Vector3d(1, 2, -1).normalized()).toRotationMatrix(); v[1].translation() << 0.3, -0.2, 0.5;
  v[2].translation() << 1e4, 2e4, -3e4;
  return v;
}
static std::string pose_ok(const Eigen::Isometry3d& T, const std::string& w) {
  if (!fin(T.matrix())) return w + ": pose is not finite";
  if (!(T.linear().transpose() * T.linear()).isApprox(Eigen::Matrix3d::Identity(), 1e-6) || std::abs(T.linear().determinant() - 1) > 1e-6) return w + ": pose is not a rigid transform";
  if (T.matrix().row(3) != Eigen::RowVector4d(0, 0, 0, 1)) return w + ": last row of the pose";
  return "";
}

#ifndef PCLPART
// ---------------------------------------------------------------- trees
#ifdef MSANPART
static const int NB = 1;
#else
static const int NB = 3;
#endif
template <typename Tree>
static std::string query_tree(const Tree& t, const Pts& p, const std::string& w) {
  std::vector<V4> qs = {V4(0, 0, 0, 1), V4(1, 2, 3, 1), V4(-7.5, 0.25, 100, 1), V4(1e7, -1e7, 1e7, 1)};
  for (size_t i = 0; i < std::min<size_t>(p.size(), 3); i++) qs.push_back(p[i]);
  for (auto& q : qs) {
    size_t i1 = 12345; double d1 = -1;
    size_t f = traits::nearest_neighbor_search(t, q, &i1, &d1);
    if (f > 1) return str(w, ": nearest_neighbor_search returned ", f);
    auto m = check_knn(p, q, 1, f, &i1, &d1);
    if (!m.empty()) return w + ": " + m;
    for (size_t k : {size_t(1), size_t(2), size_t(5), p.size(), p.size() + 1, p.size() + 30}) {
      if (!k) continue;
      std::vector<size_t> idx(k, 777); std::vector<double> sq(k, -1);
      f = traits::knn_search(t, q, k, idx.data(), sq.data());
      m = check_knn(p, q, k, f, idx.data(), sq.data());
      if (!m.empty()) return str(w, " k=", k, ": ", m);
      step();
    }
  }
  return "";
}
static std::string trees(uint64_t i) {
  Odo o(i);
  auto& d = D()[o(D().size())]; int b = o(NB), leaf = (int[]){1, 2, 20}[o(3)], nt = (int[]){1, 2, 8}[o(NB == 1 ? 1 : 3)], safe = o(2), norm = o(2);
  auto c = cloud(d.p);
  std::string w = str(d.name, " builder ", b, " leaf ", leaf, " nt ", nt, safe ? " owning" : " unsafe", norm ? " normal projection" : "");
  SAMPLE(w);
  state(seqx::mix(d.p.size(), i));
  auto go = [&](auto tag) -> std::string {
    using Proj = decltype(tag);
    auto run = [&](auto builder) -> std::string {
      builder.max_leaf_size = leaf;
      if (safe) { KdTree<PointCloud, Proj> t(std::shared_ptr<const PointCloud>(c), builder); return query_tree(t, d.p, w); }
      UnsafeKdTree<PointCloud, Proj> t(*c, builder); return query_tree(t, d.p, w);
    };
#ifndef MSANPART
    if (b == 1) return run(KdTreeBuilderOMP(nt));
    if (b == 2) return run(KdTreeBuilderTBB());
#endif
    return run(KdTreeBuilder());
  };
  return norm ? go(NormalProjection()) : go(AxisAlignedProjection());
}

// ---------------------------------------------------------------- estimators
static std::string estim(uint64_t i) {
  Odo o(i);
  auto& d = D()[o(D().size())]; int which = o(3), b = o(NB), k = (int[]){1, 2, 4, 5, 20, 100}[o(6)], nt = (int[]){1, 3, 8}[o(NB == 1 ? 1 : 3)], tree = o(2);
  auto c = cloud(d.p);
  for (size_t j = 0; j < c->size(); j++) { c->normal(j).setConstant(NAN); c->cov(j).setConstant(NAN); }
  std::string w = str(d.name, " estimate ", which, " backend ", b, " k ", k, " nt ", nt, " tree ", tree);
  SAMPLE(w);
  UnsafeKdTree<PointCloud> t(*c);
  step();
#define EST(fn) do { if (tree) { if (b == 0) fn(*c, t, k); EB(fn) } else { if (b == 0) fn(*c, k); EC(fn) } } while (0)
#ifdef MSANPART
#define EB(fn)
#define EC(fn)
#else
#define EB(fn) else if (b == 1) fn##_omp(*c, t, k, nt); else fn##_tbb(*c, t, k);
#define EC(fn) else if (b == 1) fn##_omp(*c, k, nt); else fn##_tbb(*c, k);
#endif
  if (which == 0) EST(estimate_normals); else if (which == 1) EST(estimate_covariances); else EST(estimate_normals_covariances);
  uint64_t h = i;
  for (size_t j = 0; j < c->size(); j++) {
    if (c->point(j) != d.p[j]) return w + ": points modified";
    h = seqx::hash_d(h, which == 1 ? c->cov(j)(0, 0) : c->normal(j)[0]);
    if (d.p.size() < 5 || k < 5) {
      if (which != 1 && c->normal(j) != V4::Zero()) return w + ": normal of a point with too few neighbours is not zero";
      Eigen::Matrix4d I = Eigen::Matrix4d::Identity(); I(3, 3) = 0;
      if (which != 0 && c->cov(j) != I) return w + ": covariance of a point with too few neighbours is not the identity";
    }
  }
  state(h);
  return attrs_ok(*c, which, w);
}

// ---------------------------------------------------------------- downsampling
static std::string down(uint64_t i) {
  Odo o(i);
  auto& d = D()[o(D().size())]; int b = o(NB), leafi = o(3), nt = (int[]){1, 3, 8}[o(NB == 1 ? 1 : 3)], out = o(3);
  double leaf = (double[]){0.3, 1.0, 1000.0}[leafi];
  auto c = cloud(d.p);
  std::string w = str(d.name, " voxelgrid backend ", b, " leaf ", leaf, " nt ", nt);
  SAMPLE(w);
  Pts r;
  auto call = [&](auto& in, auto tag) {
    using Out = decltype(tag); using In = std::decay_t<decltype(in)>;
    std::shared_ptr<Out> q;
    if (b == 0) q = voxelgrid_sampling<In, Out>(in, leaf);
#ifndef MSANPART
    else if (b == 1) q = voxelgrid_sampling_omp<In, Out>(in, leaf, nt);
    else q = voxelgrid_sampling_tbb<In, Out>(in, leaf);
#endif
    if (!q) return false;
    for (size_t j = 0; j < traits::size(*q); j++) r.push_back(traits::point(*q, j));
    return true;
  };
  bool ok = true;
  if (out == 0) ok = call(*c, PointCloud());
  else if (out == 1) { Eigen::MatrixXd m(d.p.size(), 3); for (size_t j = 0; j < d.p.size(); j++) m.row(j) = d.p[j].head<3>().transpose(); ok = call(m, PointCloud()); }
  else {
    for (size_t n : {size_t(0), size_t(1), d.p.size() / 2, d.p.size(), d.p.size() + 5}) {
      std::mt19937 rng(5);
      auto q = random_sampling(*c, n, rng);
      if (!q || q->size() != std::min(n, d.p.size())) return str(d.name, " random_sampling(", n, ") returned ", q ? q->size() : 0, " points");
      for (auto& x : q->points) { bool in = false; for (auto& y : d.p) in |= x == y; if (!in) return str(d.name, " random_sampling returned a point that is not in the input"); }
      step();
    }
    return "";
  }
  step(); state(seqx::mix(i, r.size()));
  if (!ok) return w + ": null result";
  std::vector<std::array<long, 3>> vox;
  auto key = [&](const V4& x) { return std::array<long, 3>{(long)std::floor(x[0] / leaf), (long)std::floor(x[1] / leaf), (long)std::floor(x[2] / leaf)}; };
  size_t valid = 0;
  for (auto& x : d.p) { auto k = key(x); bool in = true; for (long q : k) in &= q >= -1048576 && q < 1048576; if (in) { vox.push_back(k); valid++; } }
  std::sort(vox.begin(), vox.end()); vox.erase(std::unique(vox.begin(), vox.end()), vox.end());
  if (b == 0 ? r.size() != vox.size() : (r.size() < vox.size() || r.size() > valid)) return str(w, ": ", r.size(), " points for ", vox.size(), " voxels");
  for (auto& x : r) if (!fin(x) || !(std::abs(x[3] - 1.0) <= 1e-12)) return w + ": invalid output point";
  return "";
}

// ---------------------------------------------------------------- voxel maps
template <typename Map>
static std::string vox(const char* name, const std::vector<int>& ops, double leaf, int cells, bool lru) {
  Map m(leaf);
  m.set_search_offsets(cells);
  if (lru) { m.lru_horizon = 1; m.lru_clear_cycle = 1; }
  std::string w = str(name, " leaf ", leaf, " after inserting ");
  auto T = inits();
  for (int op : ops) {
    auto& d = D()[op % D().size()];
    w += d.name + " ";
    auto c = attributed(d.p);
    m.insert(*c, T[op / D().size()]);
    step();
    // every element resolves and is finite
    size_t n = 0;
    auto pts = traits::voxel_points(m);
    for (auto& x : pts) if (!fin(x)) return w + ": stored point not finite";
    if constexpr (!std::is_same_v<Map, IncrementalVoxelMap<FlatContainerPoints>> && !std::is_same_v<Map, IncrementalVoxelMap<FlatContainerNormal>>)
      for (auto& x : traits::voxel_covs(m)) if (!fin(x)) return w + ": stored covariance not finite";
    if (m.size() == 0 && pts.size()) return w + ": elements in an empty map";
    for (auto& q : {V4(0, 0, 0, 1), V4(1, 2, 3, 1), V4(2.5, -1.5, 0.25, 1), V4(-50, 60, 70, 1), V4(1e6, -1e6, 5e5, 1)}) {
      size_t i1 = 0; double d1 = 0;
      size_t f = traits::nearest_neighbor_search(m, q, &i1, &d1);
      if (f > 1 || (f && !fin(traits::point(m, i1))) || (pts.empty() && f)) return w + ": nearest_neighbor_search";
      for (size_t k : {1, 3, 200}) {
        std::vector<size_t> idx(k, 1); std::vector<double> sq(k, -1);
        f = traits::knn_search(m, q, k, idx.data(), sq.data());
        if (f > std::min(k, pts.size())) return str(w, ": knn_search found ", f, " of ", pts.size());
        for (size_t j = 0; j < f; j++) if (std::abs(sq[j] - d2(traits::point(m, idx[j]), q)) > 1e-6 * (1 + sq[j])) return w + ": wrong distance";
        n += f;
      }
    }
    state(seqx::mix(seqx::mix(m.size(), pts.size()), n));
  }
  return "";
}
static std::string voxels(uint64_t i) {
  Odo o(i);
  int type = o(5); double leaf = (double[]){0.5, 1000.0}[o(2)]; int cells = (int[]){1, 7, 27}[o(3)]; bool lru = o(2);
  std::vector<int> ops = {(int)o(D().size()), (int)o(D().size() * 2)};
  if (type == 0) return vox<IncrementalVoxelMap<FlatContainerPoints>>("FlatContainerPoints", ops, leaf, cells, lru);
  if (type == 1) return vox<IncrementalVoxelMap<FlatContainerNormal>>("FlatContainerNormal", ops, leaf, cells, lru);
  if (type == 2) return vox<IncrementalVoxelMap<FlatContainerCov>>("FlatContainerCov", ops, leaf, cells, lru);
  if (type == 3) return vox<IncrementalVoxelMap<FlatContainerNormalCov>>("FlatContainerNormalCov", ops, leaf, cells, lru);
  return vox<GaussianVoxelMap>("GaussianVoxelMap", ops, leaf, cells, lru);
}
// a freshly constructed map answers searches
template <typename Map> static std::string fresh1() {
  Map m(1.0);
  size_t idx[3]; double sq[3];
  if (m.size() || traits::nearest_neighbor_search(m, V4(0, 0, 0, 1), idx, sq) || traits::knn_search(m, V4(0, 0, 0, 1), 3, idx, sq)) return "empty voxel map finds something";
  if (traits::voxel_points(m).size()) return "empty voxel map has points";
  return "";
}
static std::string fresh(uint64_t i) {
  step();
  switch (i) { case 0: return fresh1<IncrementalVoxelMap<FlatContainerPoints>>(); case 1: return fresh1<IncrementalVoxelMap<FlatContainerNormal>>(); case 2: return fresh1<IncrementalVoxelMap<FlatContainerCov>>(); case 3: return fresh1<IncrementalVoxelMap<FlatContainerNormalCov>>(); default: return fresh1<GaussianVoxelMap>(); }
}

// ---------------------------------------------------------------- registration
static void set_threads(SerialReduction&, int) {}
#ifndef MSANPART
static void set_threads(ParallelReductionOMP& r, int n) { r.num_threads = n; }
static void set_threads(ParallelReductionTBB&, int) {}
#endif
template <typename Fac, typename Red, typename Opt, typename TG, typename Tree>
static std::string reg(const TG& t, const PointCloud& s, const Tree& tree, size_t tn, const Eigen::Isometry3d& init, int nt, double maxd, int maxit, const std::string& w, bool none) {
  Registration<Fac, Red, NullFactor, DistanceRejector, Opt> r;
  set_threads(r.reduction, nt);
  r.rejector.max_dist_sq = maxd * maxd;
  r.optimizer.max_iterations = maxit;
  auto out = r.align(t, s, tree, init);
  step();
  auto m = pose_ok(out.T_target_source, w);
  if (!m.empty()) return m;
  if (!fin(out.H) || !fin(out.b) || !std::isfinite(out.error)) return w + ": H, b or error not finite";
  if (out.num_inliers > s.size()) return str(w, ": ", out.num_inliers, " inliers of ", s.size(), " points");
  if (none || tn == 0 || s.size() == 0) {
    if (out.num_inliers) return str(w, ": ", out.num_inliers, " inliers without correspondences");
    if (!out.T_target_source.matrix().isApprox(init.matrix(), 1e-12)) return w + ": pose moved without correspondences";
    if (!out.H.isZero(0) || !out.b.isZero(0) || out.error != 0) return w + ": non-zero system without correspondences";
  }
  state(seqx::hash_d(seqx::mix(out.num_inliers, out.iterations), std::round(out.error * 1e6)));
  return "";
}

static std::vector<std::pair<std::shared_ptr<PointCloud>, std::shared_ptr<KdTree<PointCloud>>>>& prepared() {
  static std::vector<std::pair<std::shared_ptr<PointCloud>, std::shared_ptr<KdTree<PointCloud>>>> v;
  if (v.empty()) for (auto& d : D()) { auto c = attributed(d.p); v.emplace_back(c, std::make_shared<KdTree<PointCloud>>(c)); }
  return v;
}
static bool no_correspondence(const Pts& t, const Pts& s, const Eigen::Isometry3d& T, double maxd) {
  for (auto& q : s) { V4 x = T * q; for (auto& p : t) if (d2(x, p) <= maxd * maxd * (1 + 1e-6) + 1e-9) return false; }
  return true;
}
template <typename Fac, typename Red, typename Opt>
static std::string reg3(int ti, int si, int init, int nt, double maxd, int maxit, const std::string& w) {
  auto& P = prepared();
  auto I = inits()[init];
  return reg<Fac, Red, Opt>(*P[ti].first, *P[si].first, *P[ti].second, D()[ti].p.size(), I, nt, maxd, maxit, w, no_correspondence(D()[ti].p, D()[si].p, I, maxd));
}
template <typename Fac, typename Red>
static std::string reg2(int opt, int ti, int si, int init, int nt, double maxd, int maxit, const std::string& w) {
  return opt ? reg3<Fac, Red, GaussNewtonOptimizer>(ti, si, init, nt, maxd, maxit, w) : reg3<Fac, Red, LevenbergMarquardtOptimizer>(ti, si, init, nt, maxd, maxit, w);
}
template <typename Fac>
static std::string reg1(int b, int opt, int ti, int si, int init, int nt, double maxd, int maxit, const std::string& w) {
#if PART == 3
  return reg2<Fac, ParallelReductionOMP>(opt, ti, si, init, nt, maxd, maxit, w);
#elif PART == 4
  return reg2<Fac, ParallelReductionTBB>(opt, ti, si, init, nt, maxd, maxit, w);
#else
  return reg2<Fac, SerialReduction>(opt, ti, si, init, nt, maxd, maxit, w);
#endif
}
#ifndef PART
#define PART 0
#endif
#define HAS(p) (PART == 0 || PART == (p))
#if HAS(2) || HAS(3) || HAS(4) || defined(MSANPART)
static std::string regs(uint64_t i) {
  Odo o(i);
  int ti = o(D().size()), si = o(D().size()), f = o(4), b = PART, opt = o(2), init = o(3), md = o(2), it = o(2);
  double maxd = (double[]){1.0, 100.0}[md]; int maxit = (int[]){20, 1}[it], nt = (int[]){1, 8}[(ti + si) % 2];
  std::string w = str("align ", D()[si].name, " to ", D()[ti].name, " factor ", f, " reduction ", b, opt ? " GN" : " LM", " init ", init, " maxd ", maxd, " maxit ", maxit);
  SAMPLE(w);
  if (f == 0) return reg1<ICPFactor>(b, opt, ti, si, init, nt, maxd, maxit, w);
  if (f == 1) return reg1<PointToPlaneICPFactor>(b, opt, ti, si, init, nt, maxd, maxit, w);
  if (f == 2) return reg1<GICPFactor>(b, opt, ti, si, init, nt, maxd, maxit, w);
  // voxel based
  GaussianVoxelMap m((double[]){0.5, 3.0}[md]);
  m.insert(*prepared()[ti].first);
  auto I = inits()[init]; const auto& s = *prepared()[si].first; size_t tn = D()[ti].p.size();
  bool none = no_correspondence(D()[ti].p, D()[si].p, I, 200.0);
#define VOXREG(R, O) return reg<GICPFactor, R, O>(m, s, m, tn, I, nt, maxd, maxit, w, none)
#if PART == 3
  if (opt) VOXREG(ParallelReductionOMP, GaussNewtonOptimizer);
  VOXREG(ParallelReductionOMP, LevenbergMarquardtOptimizer);
#elif PART == 4
  if (opt) VOXREG(ParallelReductionTBB, GaussNewtonOptimizer);
  VOXREG(ParallelReductionTBB, LevenbergMarquardtOptimizer);
#else
  if (opt) VOXREG(SerialReduction, GaussNewtonOptimizer);
  VOXREG(SerialReduction, LevenbergMarquardtOptimizer);
#endif
}
#endif
// other target searchers and kernels
static std::string reg_other(uint64_t i) {
  Odo o(i);
  int ti = o(D().size()), si = o(D().size()), kind = o(5), init = o(3);
  auto& P = prepared(); auto I = inits()[init];
  std::string w = str("align ", D()[si].name, " to ", D()[ti].name, " kind ", kind, " init ", init);
  SAMPLE(w);
  bool none = no_correspondence(D()[ti].p, D()[si].p, I, 200.0);
  size_t tn = D()[ti].p.size();
  auto& t = *P[ti].first; auto& s = *P[si].first; auto& tree = *P[ti].second;
  if (kind == 0) return reg<RobustFactor<Huber, GICPFactor>, SerialReduction, LevenbergMarquardtOptimizer>(t, s, tree, tn, I, 1, 5.0, 20, w, none);
  if (kind == 1) return reg<RobustFactor<Cauchy, ICPFactor>, SerialReduction, GaussNewtonOptimizer>(t, s, tree, tn, I, 1, 5.0, 20, w, none);
  if (kind == 2) { IncrementalVoxelMap<FlatContainerPoints> m(1.0); m.insert(t); return reg<ICPFactor, SerialReduction, LevenbergMarquardtOptimizer>(m, s, m, tn, I, 1, 5.0, 20, w, none); }
  if (kind == 3) { IncrementalVoxelMap<FlatContainerNormalCov> m(1.0); m.set_search_offsets(27); m.insert(t); return reg<GICPFactor, SerialReduction, LevenbergMarquardtOptimizer>(m, s, m, tn, I, 1, 5.0, 20, w, none); }
  auto pr = std::make_shared<ProjectiveSearch<PointCloud>>(64, 32, std::shared_ptr<const PointCloud>(P[ti].first));
  return reg<GICPFactor, SerialReduction, LevenbergMarquardtOptimizer>(t, s, *pr, tn, I, 1, 5.0, 20, w, none);
}
// ---------------------------------------------------------------- projective search
static std::string proj(uint64_t i) {
  Odo o(i);
  auto& d = D()[o(D().size())]; int wd = (int[]){21, 64, 256}[o(3)], ht = (int[]){1, 8, 128}[o(3)];
  auto c = cloud(d.p);
  ProjectiveSearch<PointCloud> s(wd, ht, std::shared_ptr<const PointCloud>(c));
  UnsafeProjectiveSearch<PointCloud> u(wd, ht, *c);
  std::string w = str(d.name, " projective ", wd, "x", ht);
  SAMPLE(w);
  for (auto& q : {V4(0, 0, 0, 1), V4(0, 1, 0, 1), V4(0, -1, 0, 1), V4(0, 0, -1, 1), V4(1e-9, 0, -1, 1), V4(-1e-9, 0, -1, 1), V4(1, 2, 3, 1), V4(1e-20, 1e-20, 0, 1), V4(1e6, -1e6, 5e5, 1)})
    for (size_t k : {1, 4, 100}) {
      std::vector<size_t> idx(k, 5), id2(k, 5); std::vector<double> sq(k, -1), sq2(k, -1);
      size_t f = traits::knn_search(s, q, k, idx.data(), sq.data()), g = traits::knn_search(u, q, k, id2.data(), sq2.data());
      step();
      if (f > std::min(k, d.p.size()) || f != g) return str(w, ": found ", f, " / ", g);
      for (size_t j = 0; j < f; j++) if (idx[j] >= d.p.size() || std::abs(sq[j] - d2(d.p[idx[j]], q)) > 1e-6 * (1 + sq[j])) return w + ": wrong neighbour";
      state(seqx::mix(f, i));
    }
  return "";
}
#ifndef MSANPART
// ---------------------------------------------------------------- helper API
static std::string helper(uint64_t i) {
  Odo o(i);
  int ti = o(D().size()), si = o(D().size()), type = o(4), nt = (int[]){1, 2, 8}[o(3)], init = o(3);
  RegistrationSetting st; st.type = (RegistrationSetting::RegistrationType)type; st.num_threads = nt;
  auto I = inits()[init];
  std::string w = str("helper align ", D()[si].name, " to ", D()[ti].name, " type ", type, " nt ", nt, " init ", init);
  SAMPLE(w);
  std::vector<Eigen::Vector4d> t(D()[ti].p), s(D()[si].p);
  auto r = align(t, s, I, st);
  step();
  auto m = pose_ok(r.T_target_source, w);
  if (!m.empty()) return m;
  if (!fin(r.H) || !fin(r.b) || !std::isfinite(r.error)) return w + ": H, b or error not finite";
  if ((t.empty() || s.empty() || no_correspondence(t, s, I, 100.0)) && !r.T_target_source.matrix().isApprox(I.matrix(), 1e-12)) return w + ": pose moved without correspondences";
  state(seqx::mix(r.num_inliers, r.iterations));
  return "";
}
static std::string prep(uint64_t i) {
  Odo o(i);
  auto& d = D()[o(D().size())]; int nt = (int[]){1, 2, 4, 8}[o(4)], k = (int[]){1, 5, 10, 50}[o(4)]; double r = (double[]){0.1, 1.0, 100.0}[o(3)];
  int form = o(4);
  std::pair<PointCloud::Ptr, std::shared_ptr<KdTree<PointCloud>>> q;
  if (form == 0) q = preprocess_points(*cloud(d.p), r, k, nt);
  else if (form == 1) q = preprocess_points(std::vector<Eigen::Vector4d>(d.p), r, k, nt);
  else if (form == 2) { std::vector<Eigen::Vector3f> v; for (auto& x : d.p) v.push_back(x.head<3>().cast<float>()); q = preprocess_points(v, r, k, nt); }
  else { std::vector<Eigen::Vector3d> v; for (auto& x : d.p) v.push_back(x.head<3>()); q = preprocess_points(v, r, k, nt); }
  step();
  std::string w = str("preprocess_points ", d.name, " r ", r, " k ", k, " nt ", nt, " form ", form);
  SAMPLE(w);
  if (!q.first || !q.second) return w + ": null result";
  size_t valid = 0;
  for (auto& x : d.p) { bool in = true; for (int a = 0; a < 3; a++) { double c = std::floor((double)(form == 2 ? (float)x[a] : x[a]) / r); in &= c >= -1048576 && c < 1048576; } valid += in; }
  if (q.first->size() > valid || (valid > 0) != (q.first->size() > 0)) return str(w, ": ", q.first->size(), " points of ", valid);
  auto m = attrs_ok(*q.first, 2, w);
  if (!m.empty()) return m;
  state(seqx::mix(q.first->size(), i));
  m = query_tree(*q.second, q.first->points, w);
  if (!m.empty()) return m;
  auto vm = create_gaussian_voxelmap(*q.first, r * 2);
  if (!vm) return w + ": null voxel map";
  if (vm->size() == 0 && !q.first->empty()) return w + ": empty voxel map";
  return "";
}
// ---------------------------------------------------------------- sorts
static std::string sorts(uint64_t i) {
  Odo o(i);
  int kind = o(4), n = o(6), nt = (int[]){1, 2, 8}[o(3)], pat = o(4);
  std::vector<uint64_t> v(n), e;
  for (int j = 0; j < n; j++) v[j] = pat == 0 ? 3 : pat == 1 ? n - j : pat == 2 ? j : (j % 2 ? ~0ull : 0ull);
  e = v; std::sort(e.begin(), e.end());
  if (kind == 0) merge_sort_omp(v.begin(), v.end(), std::less<uint64_t>(), nt);
  else if (kind == 1) quick_sort_omp(v.begin(), v.end(), std::less<uint64_t>(), nt);
  else if (kind == 2) radix_sort_tbb(v.data(), v.data() + n, [](uint64_t a) { return a; });
  else { std::vector<std::pair<uint64_t, size_t>> p; for (auto x : v) p.emplace_back(x, 0); radix_sort_tbb(p.data(), p.data() + n, [](const auto& a) { return a.first; }); for (int j = 0; j < n; j++) v[j] = p[j].first; }
  step(); state(i);
  SAMPLE(str("sort ", kind, " of ", n, " elements"));
  if (v != e) return str("sort ", kind, " of ", n, " elements");
  return "";
}
#endif
int main(int argc, char** argv) {
  TH = seqx::thorough(argc, argv);
#ifdef MSANPART
  msan_up = true;
  std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr);
#endif
  uint64_t n = D().size();
#ifdef MSANPART
  std::string s = "msan-";
  const int nb = 1, nn = 1;
#else
  std::string s = "asan-";
  const int nb = 3, nn = 3;
#endif
#if HAS(1)
  seqx::add(s + "trees", n * nb * 3 * nn * 2 * 2, trees);
  seqx::add(s + "estimators", n * 3 * nb * 6 * nn * 2, estim);
  seqx::add(s + "downsampling", n * nb * 3 * nn * 3, down);
  seqx::add(s + "projective", n * 9, proj);
#endif
#if HAS(5)
  seqx::add(s + "voxelmaps", 5 * 2 * 3 * 2 * n * n * (TH ? 2 : 1), voxels);
  seqx::add(s + "fresh-maps", 5, fresh);
#endif
#if HAS(2) || HAS(3) || HAS(4)
  seqx::add(s + (PART == 3 ? "registration-omp" : PART == 4 ? "registration-tbb" : "registration-serial"), n * n * 4 * 2 * 3 * 2 * (TH || PART != 2 ? 2 : 1), regs);
#endif
#if HAS(5)
  seqx::add(s + "registration-other", n * n * 5 * 3, reg_other);
#endif
#if !defined(MSANPART) && HAS(1)
  seqx::add(s + "helper", n * n * 4 * 3 * (TH ? 3 : 1), helper);
  seqx::add(s + "preprocess", n * 4 * 4 * 3 * 4, prep);
  seqx::add(s + "sorts", 4 * 6 * 3 * 4, sorts);
#endif
  return seqx::main("C19", argc, argv);
}
#endif
#ifdef PCLPART
// ---------------------------------------------------------------- PCL interfaces
using PC = pcl::PointCloud<pcl::PointXYZ>;
static PC::Ptr pclc(const Pts& p) { PC::Ptr c(new PC); for (auto& x : p) c->push_back(pcl::PointXYZ(x[0], x[1], x[2])); return c; }
static const Pts& P(int i) { return D()[i].p; }
static bool nocorr(const Pts& t, const Pts& s, const Eigen::Isometry3d& T, double maxd) {
  for (auto& q : s) { V4 x = T * q; for (auto& p : t) if (d2(x, p) <= maxd * maxd * (1 + 1e-3) + 1e-6) return false; }
  return true;
}
static std::string pclreg(uint64_t i) {
  Odo o(i);
  int n = D().size(), ti = o(n), si = o(n), type = o(2), nt = (int[]){1, 8}[o(2)], init = o(2), op = o(4);
  RegistrationPCL<pcl::PointXYZ, pcl::PointXYZ> r;
  r.setNumThreads(nt); r.setRegistrationType(type ? "VGICP" : "GICP"); r.setMaxCorrespondenceDistance(1.0); r.setNumNeighborsForCovariance((int[]){20, 3}[op == 3]);
  std::string w = str("RegistrationPCL ", D()[si].name, " to ", D()[ti].name, " type ", type, " nt ", nt, " init ", init, " op ", op);
  SAMPLE(w);
  r.setInputTarget(pclc(P(ti))); r.setInputSource(pclc(P(si)));
  int t = ti, s = si;
  if (op == 1) { r.swapSourceAndTarget(); std::swap(t, s); }
  auto I = inits()[init];
  PC out;
  r.align(out, I.matrix().cast<float>());
  step();
  if (op == 2) { r.setInputTarget(pclc(P(si))); r.align(out, I.matrix().cast<float>()); t = si; step(); }
  Eigen::Matrix4f T = r.getFinalTransformation();
  if (P(t).empty() || P(s).empty()) { state(i); return ""; }  // PCL refuses empty inputs; nothing is claimed but no crash
  if (!T.allFinite()) return w + ": transformation is not finite";
  if (out.size() != P(s).size()) return str(w, ": output has ", out.size(), " points");
  if (nocorr(P(t), P(s), I, type ? 20.0 : 1.0) && !T.isApprox(I.matrix().cast<float>(), 1e-5)) return w + ": pose moved without correspondences";
  if (r.getSourceCovariances().size() != P(s).size() || r.getTargetCovariances().size() != P(t).size()) return w + ": covariances do not match the clouds";
  if (!r.getFinalHessian().allFinite()) return w + ": Hessian is not finite";
  state(seqx::mix(r.getRegistrationResult().num_inliers, r.getRegistrationResult().iterations));
  return "";
}
static bool inrange(const Pts& p, double leaf) { for (auto& x : p) { bool in = true; for (int a = 0; a < 3; a++) { double c = std::floor((float)x[a] / leaf); in &= c >= -1048576 && c < 1048576; } if (in) return true; } return false; }
static std::string pclproxy(uint64_t i) {
  Odo o(i);
  auto& d = D()[o(D().size())]; int nt = (int[]){1, 4}[o(2)], k = (int[]){1, 5, 30}[o(3)], kind = o(3); double leaf = (double[]){0.3, 1000}[o(2)];
  std::string w = str("PCL traits ", d.name, " kind ", kind);
  SAMPLE(w);
  auto c = pclc(d.p);
  if (kind == 0) {
    auto q = voxelgrid_sampling_omp<PC, pcl::PointCloud<pcl::PointNormalCovariance>>(*c, leaf, nt);
    if (!q || q->empty() != !inrange(d.p, leaf)) return w + ": downsampling";
    estimate_normals_covariances_omp(*q, k, nt);
    for (auto& p : *q) if (!p.getNormalVector4fMap().allFinite() || !p.getCovariance4fMap().allFinite()) return w + ": attributes not finite";
    KdTree<pcl::PointCloud<pcl::PointNormalCovariance>> tree(q, KdTreeBuilderOMP(nt));
    size_t idx[4]; double sq[4];
    size_t f = tree.knn_search(V4(1, 2, 3, 1), 4, idx, sq);
    if (f != std::min<size_t>(4, q->size())) return w + ": knn on the downsampled cloud";
  } else if (kind == 1) {
    std::vector<Eigen::Matrix4d> covs(c->size());
    PointCloudProxy<pcl::PointXYZ> proxy(*c, covs);
    estimate_covariances_omp(proxy, k, nt);
    for (auto& x : covs) if (!fin(x)) return w + ": covariance not finite";
    GaussianVoxelMap m(leaf); m.insert(proxy);
    for (auto& x : traits::voxel_points(m)) if (!fin(x)) return w + ": voxel mean";
  } else {
    auto q = voxelgrid_sampling(*c, leaf);
    if (!q || q->empty() != !inrange(d.p, leaf)) return w + ": downsampling";
    std::mt19937 rng(1);
    auto t = random_sampling(*c, d.p.size() + 3, rng);
    if (!t || t->size() != c->size()) return w + ": random_sampling";
  }
  step(); state(i);
  return "";
}
int main(int argc, char** argv) {
  TH = seqx::thorough(argc, argv);
  uint64_t n = D().size();
  seqx::add("asan-pcl-registration", n * n * 2 * 2 * 2 * (TH ? 4 : 3), pclreg);
  seqx::add("asan-pcl-traits", n * 2 * 3 * 3 * 2, pclproxy);
  return seqx::main("C19", argc, argv);
}
#endif
