// Alphabet of library calls (every public part, several data sets and settings, failing and degenerate calls, reused objects, inputs
// changed in place), used by C24 (no hidden state) and C27 (ownership and memory).
#pragma once
#include "ref.hpp"
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/robust_kernel.hpp>
#include <small_gicp/points/eigen.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/registration/registration_helper.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
#include <small_gicp/util/sort_omp.hpp>
#include <small_gicp/util/sort_tbb.hpp>
#include <sys/mman.h>
#include <sys/wait.h>
#include <random>
#include <thread>
using namespace ref;
using namespace small_gicp;
using Iso = Eigen::Isometry3d;
using Out = std::vector<double>;

// ---- data sets (plain numbers; the clouds are built inside each call, so their addresses are reused from call to call)
static Pts A, B, C, E, Z, W, L, S1, S2, F;
static Iso rt(double a, double x, double y, double z) { Iso T = Iso::Identity(); T.linear() = Eigen::AngleAxisd(a, Eigen::Vector3d(0.2, -0.3, 1).normalized()).toRotationMatrix(); T.translation() = Eigen::Vector3d(x, y, z); return T; }
static Pts move(const Pts& p, const Iso& T) { Pts o; for (auto& q : p) { V4 r = T.matrix() * q; r[3] = 1; o.push_back(r); } return o; }
static Pts room(int seed, int m) { Pts p; Mix r(seed); for (int i = 0; i < m; i++) { double u = r.u(-4, 4), v = r.u(-4, 4), e = r.u(-.02, .02); p.push_back(i % 3 == 0 ? V4(u, v, -1 + e, 1) : i % 3 == 1 ? V4(-4 + e, u, v * 0.4, 1) : V4(u, 4 + e, v * 0.4, 1)); } return p; }
static void data() {
  A = shape(SHEET, 40); B = shape(SPHERE, 40); C = shape(LATTICE, 12); Z = shape(SHEET, 3); L = shape(SHEET, 1300);
  W = A; W[3][0] = 1e9; W[17][2] = -1e9; W[39][1] = 3e6;
  S1 = room(1, 90); S2 = room(2, 120); F = move(S1, rt(0, 500, 0, 0));
}
struct Rec {
  Out& o;
  Rec& operator<<(double v) { o.push_back(v); return *this; }
  template <typename M> Rec& mat(const M& m) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) o.push_back(m(i, j)); return *this; }
  Rec& res(const RegistrationResult& r, bool all = true) { mat(r.T_target_source.matrix()); if (all) { *this << r.converged << (double)r.iterations << (double)r.num_inliers << r.error; mat(r.H); mat(r.b); } return *this; }
  Rec& pts(const PointCloud& c, bool attr) { *this << (double)c.size(); for (size_t i = 0; i < c.size(); i++) { mat(c.point(i)); if (attr) { mat(c.normal(i)); mat(c.cov(i)); } } return *this; }
  Rec& sorted(const PointCloud& c) { std::vector<std::array<double, 4>> v; for (size_t i = 0; i < c.size(); i++) v.push_back({c.point(i)[0], c.point(i)[1], c.point(i)[2], c.point(i)[3]}); std::sort(v.begin(), v.end()); *this << (double)v.size(); for (auto& a : v) for (double x : a) *this << x; return *this; }
  template <typename T> Rec& knn(const T& t, const V4& q, size_t k) { std::vector<size_t> ix(k + 1, 77); std::vector<double> d(k + 1, -1); size_t n = traits::knn_search(t, q, k, ix.data(), d.data()); *this << (double)n; for (size_t i = 0; i < n && i <= k; i++) *this << (double)ix[i] << d[i]; return nn(t, q); }
  template <typename T> Rec& nn(const T& t, const V4& q) { size_t ix = 0; double d = -1; size_t n = traits::nearest_neighbor_search(t, q, &ix, &d); *this << (double)n; if (n) *this << (double)ix << d; return *this; }
};
static std::shared_ptr<PointCloud> full(const Pts& p, int seed) {  // cloud with attributes, computed without the library
  auto c = cloud(p);
  for (size_t i = 0; i < p.size(); i++) { Eigen::Vector3d n(std::sin(seed + i), std::cos(2.0 * i), 0.3); n.normalize(); c->normal(i) << n, 0; Eigen::Matrix3d m = Eigen::Matrix3d::Identity() - 0.9 * n * n.transpose(); c->cov(i).setZero(); c->cov(i).block<3, 3>(0, 0) = m; }
  return c;
}
static const V4 q1(0.3, -0.2, 4.8, 1), q2(-9, 3, 1, 1), q3(0, 0, 0, 1);

// ---- objects that are reused by several calls of a history (made on first use)
struct Objects {
  Registration<GICPFactor, SerialReduction> gicp_lm;
  Registration<ICPFactor, SerialReduction, NullFactor, DistanceRejector, GaussNewtonOptimizer> icp_gn;
  Registration<RobustFactor<Huber, PointToPlaneICPFactor>, SerialReduction, RestrictDoFFactor> robust;
  Registration<GICPFactor, ParallelReductionOMP> omp;
  KdTreeBuilder builder; KdTreeBuilderOMP builder_omp{2};
  RegistrationSetting setting;
  std::shared_ptr<PointCloud> ca, cs; std::shared_ptr<KdTree<PointCloud>> tree, stree; std::shared_ptr<GaussianVoxelMap> map; std::shared_ptr<IncrementalVoxelMap<FlatContainerCov>> flat;
  std::shared_ptr<ProjectiveSearch<PointCloud>> proj;
  std::vector<GICPFactor> factors;
  Objects() : factors(5) {
    builder.max_leaf_size = 4; builder_omp.max_leaf_size = 3; icp_gn.rejector.max_dist_sq = 0.5; robust.point_factor.robust_kernel.c = 0.3; robust.general_factor.set_translation_mask(Eigen::Array3d(1, 1, 0));
    omp.reduction.num_threads = 2; setting.num_threads = 1;
    ca = cloud(A); cs = full(S1, 1); tree = std::make_shared<KdTree<PointCloud>>(ca, builder); stree = std::make_shared<KdTree<PointCloud>>(cs);
    map = std::make_shared<GaussianVoxelMap>(1.0); map->insert(*cs); map->set_search_offsets(7);
    flat = std::make_shared<IncrementalVoxelMap<FlatContainerCov>>(1.0); flat->set_search_offsets(27); flat->insert(*cs);
    proj = std::make_shared<ProjectiveSearch<PointCloud>>(64, 32, ca);
  }
};
static Objects& obj() { static Objects* o = new Objects; return *o; }

template <typename R> static void one_align(Rec r, R& reg, const Pts& t, const Pts& s, const Iso& init, bool all = true) {
  auto ct = full(t, 1), cs = full(s, 2); KdTree<PointCloud> tree(ct);
  auto t0 = *ct, s0 = *cs;
  r.res(reg.align(*ct, *cs, tree, init), all);
  r << (t0.points == ct->points && t0.covs == ct->covs && s0.points == cs->points && s0.covs == cs->covs && s0.normals == cs->normals);
}
static const Iso g0 = Iso::Identity(), g1 = rt(0.03, 0.1, -0.05, 0.02);

struct Op { const char* name; bool exact; std::function<void(Rec)> f; };
static std::vector<Op> OPS;
static void ops() {
  auto P = [](const char* n, bool ex, std::function<void(Rec)> f) { OPS.push_back({n, ex, std::move(f)}); };
  // neighbour search
  P("kdtree(A)", true, [](Rec r) { KdTree<PointCloud> t(cloud(A)); for (auto& q : {q1, q2, q3, A[7]}) r.knn(t, q, 5); });
  P("kdtree(B)", true, [](Rec r) { KdTree<PointCloud> t(cloud(B)); for (auto& q : {q1, q2, q3, A[7]}) r.knn(t, q, 5); });
  P("kdtree(C,k>n)", true, [](Rec r) { KdTree<PointCloud> t(cloud(C), KdTreeBuilder()); for (auto& q : {q1, q3}) r.knn(t, q, 20).knn(t, q, 1); });
  P("kdtree(normal projection)", true, [](Rec r) { auto c = cloud(B); KdTreeBuilder b; b.max_leaf_size = 2; b.projection_setting.max_scan_count = 7; UnsafeKdTree<PointCloud, NormalProjection> t(*c, b); for (auto& q : {q1, q2}) r.knn(t, q, 9); });
  P("kdtree(empty)", true, [](Rec r) { UnsafeKdTree<PointCloud> t(*cloud(E)); r.knn(t, q1, 3); });
  P("kdtree_omp(L)", true, [](Rec r) { KdTree<PointCloud> t(cloud(L), KdTreeBuilderOMP(2)); for (auto& q : {q1, q2, q3}) r.knn(t, q, 12); });
  P("kdtree_tbb(L)", true, [](Rec r) { KdTree<PointCloud> t(cloud(L), KdTreeBuilderTBB()); for (auto& q : {q1, q2, q3}) r.knn(t, q, 12); });
  P("kdtree eps", true, [](Rec r) { KdTree<PointCloud> t(cloud(L)); KnnSetting s; s.epsilon = 0.5; size_t ix[4]; double d[4]; for (auto& q : {q1, q2}) { size_t n = t.knn_search(q, 4, ix, d, s); r << (double)n; for (size_t i = 0; i < n; i++) r << (double)ix[i] << d[i]; } });
  P("reused tree k=3", true, [](Rec r) { for (auto& q : {q1, q2, q3}) r.knn(*obj().tree, q, 3); });
  P("reused tree k=30", true, [](Rec r) { for (auto& q : {q2, q1}) r.knn(*obj().tree, q, 30); });
  P("reused builders", true, [](Rec r) { auto c = cloud(C), b = cloud(B); KdTree<PointCloud> t(c, obj().builder), u(b, obj().builder_omp); r.knn(t, q1, 4).knn(u, q1, 4) << (double)t.kdtree.nodes.size() << (double)u.kdtree.nodes.size(); });
  P("reused projective search", true, [](Rec r) { for (auto& q : {q1, A[3], A[30], q2}) r.knn(*obj().proj, q, 4); });
  P("projective search(B)", true, [](Rec r) { ProjectiveSearch<PointCloud> p(32, 16, cloud(B)); for (auto& q : {B[3], B[9], q1}) r.knn(p, q, 3); });
  // voxel maps
  P("gaussian map(A,B)", true, [](Rec r) { GaussianVoxelMap m(1.5); m.insert(*full(A, 1)); m.insert(*full(B, 2), rt(0.3, 1, 2, 3)); m.set_search_offsets(27); r << (double)m.size(); for (auto& v : m.flat_voxels) { r.mat(v->second.mean); r.mat(v->second.cov); } r.knn(m, q1, 3); });
  P("flat map eviction", true, [](Rec r) { IncrementalVoxelMap<FlatContainerNormalCov> m(2.0); m.lru_horizon = 1; m.lru_clear_cycle = 2; m.voxel_setting.min_sq_dist_in_cell = 0.1; m.voxel_setting.max_num_points_in_cell = 3; m.insert(*full(A, 3)); m.insert(*full(B, 4)); m.insert(*full(C, 5)); m.insert(*full(B, 6)); m.set_search_offsets(7); r << (double)m.size(); for (auto& q : {q1, q2, q3}) r.knn(m, q, 6); });
  P("reused maps", true, [](Rec r) { for (auto& q : {S1[4], S2[4], q3}) r.knn(*obj().map, q, 2).knn(*obj().flat, q, 7); });
  P("map of an empty cloud", true, [](Rec r) { IncrementalVoxelMap<FlatContainerPoints> m(1.0); m.insert(*cloud(E)); r << (double)m.size(); r.nn(m, q1); m.insert(*cloud(Z)); r.nn(m, q1); });
  // preprocessing
  P("voxelgrid(A)", true, [](Rec r) { r.pts(*voxelgrid_sampling(*cloud(A), 1.1), false); });
  P("voxelgrid(B)", true, [](Rec r) { r.pts(*voxelgrid_sampling(*cloud(B), 4.0), false); });
  P("voxelgrid(out of range)", true, [](Rec r) { r.pts(*voxelgrid_sampling(*cloud(W), 0.7), false); });
  P("voxelgrid(empty)", true, [](Rec r) { r.pts(*voxelgrid_sampling(*cloud(E), 0.7), false); });
  P("voxelgrid_omp(A)", false, [](Rec r) { r.sorted(*voxelgrid_sampling_omp(*cloud(A), 1.1, 2)); });
  P("voxelgrid_omp(W)", false, [](Rec r) { r.sorted(*voxelgrid_sampling_omp(*cloud(W), 0.7, 1)); });
  P("voxelgrid_tbb(B)", false, [](Rec r) { r.sorted(*voxelgrid_sampling_tbb(*cloud(B), 4.0)); });
  P("random_sampling(A)", true, [](Rec r) { std::mt19937 g(7); r.pts(*random_sampling(*full(A, 1), 11, g), false) << (double)g(); });
  P("random_sampling(B)", true, [](Rec r) { std::mt19937 g(3); r.pts(*random_sampling(*full(B, 1), 20, g), false) << (double)g(); });
  P("random_sampling(all)", true, [](Rec r) { std::mt19937 g(3); r.pts(*random_sampling(*full(C, 1), 12, g), false) << (double)g(); });
  P("normals(A)", true, [](Rec r) { auto c = cloud(A); estimate_normals(*c, 10); r.pts(*c, true); });
  P("normals+covs(B)", true, [](Rec r) { auto c = cloud(B); estimate_normals_covariances(*c, 6); r.pts(*c, true); });
  P("covs(Z) too few", true, [](Rec r) { auto c = full(Z, 1); estimate_covariances(*c, 10); r.pts(*c, true); });
  P("normals(C,k=4)", true, [](Rec r) { auto c = full(C, 1); estimate_normals(*c, 4); r.pts(*c, true); });
  P("covs_omp(A)", true, [](Rec r) { auto c = cloud(A); estimate_covariances_omp(*c, 8, 2); r.pts(*c, true); });
  P("normals+covs_tbb(B)", true, [](Rec r) { auto c = cloud(B); estimate_normals_covariances_tbb(*c, 20); r.pts(*c, true); });
  // registration, fresh objects
  P("ICP GN", true, [](Rec r) { Registration<ICPFactor, SerialReduction, NullFactor, DistanceRejector, GaussNewtonOptimizer> g; one_align(r, g, S1, move(S1, g1), g0); });
  P("GICP LM", true, [](Rec r) { Registration<GICPFactor, SerialReduction> g; one_align(r, g, S1, move(S1, g1), g0); });
  P("plane LM, TBB", false, [](Rec r) { Registration<PointToPlaneICPFactor, ParallelReductionTBB> g; one_align(r, g, S2, move(S2, g1), g0, false); });
  P("VGICP OMP", false, [](Rec r) { Registration<GICPFactor, ParallelReductionOMP> g; g.reduction.num_threads = 2; auto t = full(S2, 1), s = full(move(S2, g1), 1); GaussianVoxelMap m(1.0); m.insert(*t); r.res(g.align(m, *s, m, g0), false); });
  P("robust restricted", true, [](Rec r) { Registration<RobustFactor<Cauchy, GICPFactor>, SerialReduction, RestrictDoFFactor> g; g.point_factor.robust_kernel.c = 0.5; g.general_factor.set_rotation_mask(Eigen::Array3d(0, 0, 1)); one_align(r, g, S2, move(S1, g1), g0); });
  // registration, reused objects
  P("reused GICP, pair 1", true, [](Rec r) { one_align(r, obj().gicp_lm, S1, move(S1, g1), g0); });
  P("reused GICP, pair 2", true, [](Rec r) { one_align(r, obj().gicp_lm, S2, move(S1, g1.inverse()), g1); });
  P("reused GICP, nothing in reach", true, [](Rec r) { one_align(r, obj().gicp_lm, S1, F, g0); });
  P("reused GICP, empty source", true, [](Rec r) { one_align(r, obj().gicp_lm, S1, E, g1); });
  P("reused ICP GN", true, [](Rec r) { one_align(r, obj().icp_gn, S1, move(S1, g1), g0); });
  P("reused ICP GN, pair 2", true, [](Rec r) { one_align(r, obj().icp_gn, S2, S1, g1); });
  P("reused robust restricted", true, [](Rec r) { one_align(r, obj().robust, S2, move(S2, g1), g0); });
  P("reused OMP", false, [](Rec r) { one_align(r, obj().omp, S2, move(S2, g1), g0, false); });
  P("reused factors", true, [](Rec r) { auto& o = obj(); DistanceRejector rj; rj.max_dist_sq = 1; auto s = full(S1, 9); SerialReduction red; for (auto& T : {g1, g0}) { auto [H, b, e] = red.linearize(*o.cs, *s, *o.stree, rj, T, o.factors); r.mat(H).mat(b) << e << red.error(*o.cs, *s, g1, o.factors); } });
  // helpers
  P("helper align GICP raw", true, [](Rec r) { RegistrationSetting s; s.num_threads = 1; s.downsampling_resolution = 0.6; s.max_correspondence_distance = 2; r.res(align(S1, move(S1, g1), g0, s)); });
  P("helper align VGICP", true, [](Rec r) { RegistrationSetting s; s.num_threads = 1; s.type = RegistrationSetting::VGICP; s.voxel_resolution = 1.5; auto m = create_gaussian_voxelmap(*full(S2, 1), 1.5); r.res(align(*m, *full(move(S2, g1), 1), g0, s)); });
  P("helper align PLANE, few iterations", true, [](Rec r) { RegistrationSetting s; s.num_threads = 1; s.type = RegistrationSetting::PLANE_ICP; s.max_iterations = 2; s.max_correspondence_distance = 0.4; auto t = full(S2, 1); KdTree<PointCloud> k(t); r.res(align(*t, *full(S1, 1), k, g1, s)); });
  P("helper align ICP, default settings", false, [](Rec r) { RegistrationSetting s; s.type = RegistrationSetting::ICP; auto t = full(S1, 1); KdTree<PointCloud> k(t); r.res(align(*t, *full(move(S1, g1), 1), k, g0, s), false); });
  P("helper preprocess", true, [](Rec r) { auto [c, t] = preprocess_points(A, 0.9, 8, 1); r.pts(*c, true).knn(*t, q1, 4); });
  P("helper preprocess(cloud)", true, [](Rec r) { auto [c, t] = preprocess_points(*cloud(S2), 0.5, 10, 1); r.pts(*c, true).knn(*t, q1, 4); });
  // sorts
  P("sorts", true, [](Rec r) { Mix m(5); std::vector<uint32_t> v(1100); for (auto& x : v) x = m() % 5000; auto a = v, b = v, c = v; merge_sort_omp(a.begin(), a.end(), std::less<uint32_t>(), 2); quick_sort_omp(b.begin(), b.end(), std::less<uint32_t>(), 2); radix_sort_tbb(c.data(), c.data() + c.size(), [](uint32_t x) { return x; }); for (auto* p : {&a, &b, &c}) for (size_t i = 0; i < p->size(); i += 13) r << (*p)[i]; });
  P("sorts(short)", true, [](Rec r) { std::vector<int> v = {5, -2, 9, 9, 0}; auto a = v, b = v; merge_sort_omp(a.begin(), a.end(), std::less<int>(), 1); quick_sort_omp(b.begin(), b.end(), std::less<int>(), 1); std::vector<std::pair<uint64_t, size_t>> k; for (size_t i = 0; i < 70; i++) k.push_back({(i * 37) % 11 + (i << 40), i}); radix_sort_tbb(k.data(), k.data() + k.size(), [](const std::pair<uint64_t, size_t>& p) { return (uint8_t)p.first; }); for (int x : a) r << x; for (int x : b) r << x; for (auto& p : k) r << (double)p.second; });
}
// calls on inputs that stay at the same addresses and keep their sizes while their contents change between the calls
static Pts V[3];
struct Buffers {
  std::shared_ptr<PointCloud> c, s; std::vector<V4> v; std::vector<Eigen::Vector3f> w, x;
  Registration<GICPFactor, SerialReduction> reg; RegistrationSetting set;
  Buffers() : c(full(V[0], 1)), s(full(V[0], 1)), v(V[0]), w(V[0].size()), x(V[0].size()) { set.num_threads = 1; set.downsampling_resolution = 0.6; set.max_correspondence_distance = 2; fill(0); auto m = move(V[0], g1); for (size_t i = 0; i < m.size(); i++) { s->point(i) = m[i]; x[i] = m[i].head<3>().cast<float>(); } }
  void fill(int k) { for (size_t i = 0; i < V[k].size(); i++) { c->point(i) = v[i] = V[k][i]; w[i] = v[i].head<3>().cast<float>(); } auto f = full(V[k], 1); c->normals = f->normals; c->covs = f->covs; }
};
static Buffers& buf(int k) { static Buffers* b = new Buffers; b->fill(k); return *b; }
static void inplace_ops() {
  V[0] = S1; V[1] = move(S1, rt(0.05, 0.2, -0.3, 0.1)); V[2] = S1; V[2][40][0] += 0.9; V[2][40][2] += 0.4;  // all points differ, one point differs
  for (int k = 0; k < 3; k++) {
    auto P = [k](const char* n, std::function<void(Rec, Buffers&)> f) { OPS.push_back({strdup(str(n, " [contents ", k, "]").c_str()), true, [k, f](Rec r) { f(r, buf(k)); }}); };
    P("in place: kdtree", [](Rec r, Buffers& b) { KdTree<PointCloud> t(b.c); for (auto& q : {q1, V[0][40], V[2][40]}) r.knn(t, q, 5); });
    P("in place: unsafe kdtree, omp builder", [](Rec r, Buffers& b) { UnsafeKdTree<PointCloud> t(*b.c, KdTreeBuilderOMP(1)); for (auto& q : {q3, V[0][40], V[2][40]}) r.knn(t, q, 3); });
    P("in place: voxelgrid", [](Rec r, Buffers& b) { r.pts(*voxelgrid_sampling(*b.c, 0.7), false); });
    P("in place: random sampling", [](Rec r, Buffers& b) { std::mt19937 g(7); r.pts(*random_sampling(*b.c, 60, g), false); });
    P("in place: normals+covs", [](Rec r, Buffers& b) { estimate_normals_covariances(*b.c, 8); r.pts(*b.c, true); });
    P("in place: maps", [](Rec r, Buffers& b) { GaussianVoxelMap m(1.0); m.insert(*b.c); IncrementalVoxelMap<FlatContainerCov> f(1.0); f.insert(*b.c); r << (double)m.size() << (double)f.size(); for (auto& q : {V[0][40], V[2][40], q3}) r.knn(m, q, 1).knn(f, q, 3); });
    P("in place: projective", [](Rec r, Buffers& b) { UnsafeProjectiveSearch<PointCloud> p(64, 32, *b.c); for (auto& q : {V[0][40], V[2][40], q3}) r.knn(p, q, 3); });
    P("in place: registration, changing target", [](Rec r, Buffers& b) { KdTree<PointCloud> t(b.c); r.res(b.reg.align(*b.c, *b.s, t, g0)); });
    P("in place: registration, changing source", [](Rec r, Buffers& b) { KdTree<PointCloud> t(b.s); r.res(b.reg.align(*b.s, *b.c, t, g0)); });
    P("in place: registration, map", [](Rec r, Buffers& b) { GaussianVoxelMap m(1.0); m.insert(*b.c); r.res(b.reg.align(m, *b.s, m, g0)); });
    P("in place: helper, changing target", [](Rec r, Buffers& b) { r.res(align(b.w, b.x, g0, b.set)); });
    P("in place: helper, changing source", [](Rec r, Buffers& b) { r.res(align(b.x, b.w, g0, b.set)); });
    P("in place: helper preprocess", [](Rec r, Buffers& b) { auto [c, t] = preprocess_points(b.v, 0.6, 8, 1); r.pts(*c, true).knn(*t, V[2][40], 4); });
    P("in place: helper preprocess(cloud), map", [](Rec r, Buffers& b) { auto [c, t] = preprocess_points(*b.c, 0.6, 8, 1); auto m = create_gaussian_voxelmap(*c, 1.0); r.pts(*c, true).knn(*m, V[2][40], 1) << (double)m->size(); });
  }
}
static Out perform(size_t k) { Out o; OPS[k].f(Rec{o}); return o; }
// executes f in a process of its own; its text result comes back through shared memory
struct Box { volatile int done; char msg[4000]; uint64_t n; double v[40000]; };
static Box* g_box = nullptr; static pid_t g_pid = 0;
static std::string isolated(const std::function<std::string(Box&)>& f, Box** out = nullptr, int secs = 20) {
  if (g_pid != getpid()) { g_pid = getpid(); g_box = (Box*)mmap(nullptr, sizeof(Box), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
  Box& b = *g_box; b.done = 0; b.n = 0; b.msg[0] = 0;
  if (out) *out = &b;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) { seqx::quiet(); alarm(secs); std::string m = f(b); strncpy(b.msg, m.c_str(), 3999); b.done = 1; _exit(0); }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (!b.done) return WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? str("@@ does not return") : str("@@ ends with signal ", WTERMSIG(st))) : str("@@ ends the process with ", WEXITSTATUS(st));
  return b.msg;
}
