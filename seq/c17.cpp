// C17: the helper API against the explicit composition of the building blocks, over a grid of all settings.
#include "fac.hpp"
#include <atomic>
#include <omp.h>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/registration_helper.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/normal_estimation.hpp>
using namespace fac;
using namespace small_gicp;

// every parallel region that the helper opens reports its team size here
static std::set<unsigned> g_teams;
extern "C" void __real_GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned flags);
extern "C" void __wrap_GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned flags) { g_teams.insert(n ? n : (unsigned)omp_get_max_threads()); __real_GOMP_parallel(fn, data, n, flags); }

static Pts scene(int n, int kind) {
  Pts p; Mix r(kind * 7 + 1);
  for (int i = 0; i < n; i++) {
    int f = i % 4;
    V4 q = f == 0 ? V4(r.u(-4, 4), r.u(-4, 4), 5 + r.u(-.02, .02), 1) : f == 1 ? V4(-4 + r.u(-.02, .02), r.u(-4, 4), 1 + r.u(0, 4), 1) : f == 2 ? V4(r.u(-4, 4), 4 + r.u(-.02, .02), 1 + r.u(0, 4), 1) : V4(1 + r.u(-.5, .5), r.u(-.5, .5), 3 + r.u(-.5, .5), 1);
    p.push_back(q);
  }
  return p;
}
static Iso truth() { V6 d; d << 0.02, -0.03, 0.04, 0.15, -0.1, 0.08; return exp_ref(d); }
struct Data { Pts t, s; };
static const Data& data() { static Data d; if (d.t.empty()) { d.t = scene(420, 1); Iso I = truth().inverse(); for (auto& q : scene(380, 2)) d.s.push_back(I.matrix() * q); } return d; }

struct Pre { PointCloud::Ptr c; std::shared_ptr<KdTree<PointCloud>> t; };
static Pre pre_ref(const Pts& p, double res, int k) {
  auto c = cloud(p); Pre x; x.c = voxelgrid_sampling(*c, res); x.t = std::make_shared<KdTree<PointCloud>>(x.c); estimate_normals_covariances(*x.c, *x.t, k); return x;
}
// clouds match as sets of points with attributes (order of downsampled points is not part of the contract)
static std::string same_clouds(const PointCloud& a, const PointCloud& b) {
  if (a.size() != b.size()) return str(a.size(), " points, the explicit pipeline gives ", b.size());
  std::vector<char> used(b.size(), 0);
  for (size_t i = 0; i < a.size(); i++) {
    size_t j = i; auto ok = [&](size_t q) { return !used[q] && (a.point(i) - b.point(q)).cwiseAbs().maxCoeff() <= 1e-9; };
    if (!ok(j)) for (j = 0; j < b.size() && !ok(j); j++) {}
    if (j == b.size()) return str("point ", a.point(i).transpose(), " is not in the explicitly downsampled cloud");
    used[j] = 1;
    if (!((a.normal(i) - b.normal(j)).cwiseAbs().maxCoeff() <= 1e-6)) return str("normal of point ", i, " is ", a.normal(i).transpose(), ", explicit ", b.normal(j).transpose());
    if (!((a.cov(i) - b.cov(j)).cwiseAbs().maxCoeff() <= 1e-6)) return str("covariance of point ", i, " differs from the explicit pipeline");
  }
  return "";
}
static std::string threads_ok(int n, const char* what) {
  for (unsigned t : g_teams) if (t != (unsigned)n) return str(what, " with num_threads=", n, " runs a team of ", t);
  return "";
}
template <typename T, int D> static std::vector<Eigen::Matrix<T, D, 1>> conv(const Pts& p) {
  std::vector<Eigen::Matrix<T, D, 1>> v(p.size());
  for (size_t i = 0; i < p.size(); i++) { v[i].template head<3>() = p[i].head<3>().cast<T>(); if (D == 4) v[i][D - 1] = (T)(i % 3); }
  return v;
}
template <typename T> static Pts rounded(const Pts& p) { Pts q = p; for (auto& x : q) x = x.cast<T>().template cast<double>(); return q; }

static std::string tree_ok(const KdTree<PointCloud>& t, const PointCloud& c) {
  Pts p(c.points.begin(), c.points.end());
  for (size_t i = 0; i < std::min<size_t>(p.size(), 6); i++) {
    V4 q = p[i] + V4(0.1, -0.2, 0.15, 0); size_t idx[4]; double sq[4]; size_t f = t.knn_search(q, 4, idx, sq);
    auto m = check_knn(p, q, 4, f, idx, sq); if (!m.empty()) return "returned tree: " + m;
  }
  return "";
}
static const std::vector<double> RES = {0.1, 0.25, 0.5, 1.0, 3.0};
static const std::vector<int> KN = {5, 10, 20};
// at most 500 points: one block of the parallel downsampling, so its output is the serial one
static std::string preprocess(uint64_t i) {
  seqx::Odo o(i); int n = std::vector<int>{0, 1, 4, 30, 420, 500}[o(6)]; double res = RES[o(5)]; int k = KN[o(3)], nt = 1 + o(4), form = o(5);
  Pts p = scene(n, 1); g_teams.clear();
  std::pair<PointCloud::Ptr, std::shared_ptr<KdTree<PointCloud>>> r; std::string m;
  if (form == 0) { auto c = cloud(p); for (auto& x : c->normals) x.setConstant(3); PointCloud b = *c; r = preprocess_points(*c, res, k, nt); if (c->points != b.points || c->normals != b.normals || c->covs != b.covs) return "input was modified"; }
  else if (form == 1) { auto v = conv<float, 3>(p), b = v; r = preprocess_points(v, res, k, nt); if (v != b) return "input was modified"; p = rounded<float>(p); }
  else if (form == 2) { auto v = conv<float, 4>(p), b = v; r = preprocess_points(v, res, k, nt); if (v != b) return "input was modified"; p = rounded<float>(p); }
  else if (form == 3) { auto v = conv<double, 3>(p), b = v; r = preprocess_points(v, res, k, nt); if (v != b) return "input was modified"; }
  else { auto v = conv<double, 4>(p), b = v; r = preprocess_points(v, res, k, nt); if (v != b) return "input was modified"; }
  seqx::step();
  m = threads_ok(nt, "preprocess_points");
  if (m.empty()) { auto x = pre_ref(p, res, k); m = same_clouds(*r.first, *x.c); if (m.empty()) m = tree_ok(*r.second, *r.first); seqx::state(seqx::mix(i, x.c->size())); }
  SAMPLE(str("preprocess_points n=", n, " resolution=", res, " neighbours=", k, " threads=", nt, " form=", form, ": ", r.first->size(), " points, teams of ", g_teams.empty() ? 1u : (unsigned)*g_teams.begin()));
  return m.empty() ? m : str("preprocess_points n=", n, " resolution=", res, " neighbours=", k, " threads=", nt, " form=", form, ": ", m);
}
static std::string same_result(const RegistrationResult& a, const RegistrationResult& b, double tol = 1e-7) {
  double e = (a.T_target_source.matrix() - b.T_target_source.matrix()).cwiseAbs().maxCoeff();
  if (!(e <= tol)) return str("pose differs from the explicit pipeline by ", e);
  if (a.converged != b.converged || a.iterations != b.iterations || a.num_inliers != b.num_inliers) return str("converged/iterations/inliers ", a.converged, "/", a.iterations, "/", a.num_inliers, ", explicit ", b.converged, "/", b.iterations, "/", b.num_inliers);
  if (!((a.H - b.H).cwiseAbs().maxCoeff() <= tol * (1 + b.H.cwiseAbs().maxCoeff())) || !((a.b - b.b).cwiseAbs().maxCoeff() <= tol * (1 + b.b.cwiseAbs().maxCoeff() + b.H.cwiseAbs().maxCoeff())) || !(std::abs(a.error - b.error) <= tol * (1 + b.error))) return "H, b or error differ from the explicit pipeline";
  return "";
}
template <typename F, typename T, typename Tree>
static RegistrationResult explicit_align(const T& t, const PointCloud& s, const Tree& tree, const Iso& I, const RegistrationSetting& st) {
  Registration<F, SerialReduction> reg;
  reg.rejector.max_dist_sq = st.max_correspondence_distance * st.max_correspondence_distance; reg.criteria.rotation_eps = st.rotation_eps; reg.criteria.translation_eps = st.translation_eps; reg.optimizer.max_iterations = st.max_iterations;
  return reg.align(t, s, tree, I);
}
static RegistrationResult explicit_any(const Pre& t, const Pre& s, const Iso& I, const RegistrationSetting& st) {
  if (st.type == RegistrationSetting::ICP) return explicit_align<ICPFactor>(*t.c, *s.c, *t.t, I, st);
  if (st.type == RegistrationSetting::PLANE_ICP) return explicit_align<PointToPlaneICPFactor>(*t.c, *s.c, *t.t, I, st);
  if (st.type == RegistrationSetting::GICP) return explicit_align<GICPFactor>(*t.c, *s.c, *t.t, I, st);
  GaussianVoxelMap m(st.voxel_resolution); m.insert(*t.c); return explicit_align<GICPFactor>(m, *s.c, m, I, st);
}
static RegistrationSetting setting(seqx::Odo& o, bool ds) {
  RegistrationSetting s; s.type = (RegistrationSetting::RegistrationType)o(4); s.num_threads = 1 + o(3);
  s.max_correspondence_distance = std::vector<double>{0.3, 1.0, 5.0}[o(3)]; s.rotation_eps = std::vector<double>{1e-5, 0.1 * M_PI / 180, 0.5}[o(3)]; s.translation_eps = std::vector<double>{1e-5, 1e-3, 0.5}[o(3)];
  s.max_iterations = std::vector<int>{0, 1, 3, 20}[o(4)]; s.voxel_resolution = std::vector<double>{0.6, 1.0, 2.0}[o(3)]; s.verbose = o(2);
  if (ds) s.downsampling_resolution = std::vector<double>{0.25, 0.6}[o(2)];
  return s;
}
static std::string show(const RegistrationSetting& s) { return str("type=", (int)s.type, " threads=", s.num_threads, " max_dist=", s.max_correspondence_distance, " rot_eps=", s.rotation_eps, " trans_eps=", s.translation_eps, " iterations=", s.max_iterations, " voxel=", s.voxel_resolution, " downsampling=", s.downsampling_resolution); }
static const uint64_t NSET = 4 * 3 * 3 * 3 * 3 * 4 * 3 * 2;

static std::string align_pre(uint64_t i) {  // preprocessed interface
  static Pre T = pre_ref(data().t, 0.4, 10), S = pre_ref(data().s, 0.4, 10);
  seqx::Odo o(i); auto st = setting(o, false); Iso I = o(2) ? truth() : Iso::Identity();
  if (st.type != RegistrationSetting::VGICP && st.voxel_resolution != 1.0) return "";  // the resolution must not matter: covered by align_raw
  PointCloud t0 = *T.c, s0 = *S.c; g_teams.clear();
  RegistrationResult r;
  if (st.type == RegistrationSetting::VGICP) { auto m = create_gaussian_voxelmap(*T.c, st.voxel_resolution); r = align(*m, *S.c, I, st); } else r = align(*T.c, *S.c, *T.t, I, st);
  seqx::step(r.iterations + 1);
  SAMPLE(show(st) + str(": ", r.iterations, " iterations, converged=", r.converged, " error=", r.error));
  auto m = threads_ok(st.num_threads, "align"); auto x = explicit_any(T, S, I, st);
  if (m.empty()) m = same_result(r, x);
  if (T.c->points != t0.points || S.c->points != s0.points || T.c->covs != t0.covs || S.c->covs != s0.covs || T.c->normals != t0.normals || S.c->normals != s0.normals) m = "inputs were modified";
  seqx::state(seqx::hash_d(seqx::mix(st.type, r.iterations), std::round(x.error * 1e6)));
  return m.empty() ? m : show(st) + ": " + m;
}
template <typename T, int D>
static std::string align_raw(uint64_t i) {
  seqx::Odo o(i); auto st = setting(o, true); Iso I = o(2) ? truth() : Iso::Identity();
  static std::map<double, std::pair<Pre, Pre>> cache; auto& c = cache[st.downsampling_resolution];
  if (!c.first.c) { c.first = pre_ref(rounded<T>(data().t), st.downsampling_resolution, 10); c.second = pre_ref(rounded<T>(data().s), st.downsampling_resolution, 10); }
  static auto tv = conv<T, D>(data().t), sv = conv<T, D>(data().s); auto t0 = tv, s0 = sv; g_teams.clear();
  auto r = align(tv, sv, I, st);
  seqx::step(r.iterations + 1);
  SAMPLE(show(st) + str(", ", D, "-vectors: ", r.iterations, " iterations, converged=", r.converged, " error=", r.error));
  auto m = threads_ok(st.num_threads, "align"); auto x = explicit_any(c.first, c.second, I, st);
  if (m.empty()) m = same_result(r, x, 1e-6);
  if (tv != t0 || sv != s0) m = "inputs were modified";
  seqx::state(seqx::hash_d(seqx::mix(st.type + 100, r.iterations), std::round(x.error * 1e6)));
  return m.empty() ? m : show(st) + ": " + m;
}
static std::string voxelmaps(uint64_t i) {
  seqx::Odo o(i); double res = RES[o(5)]; int n = std::vector<int>{0, 1, 50, 420}[o(4)];
  auto x = pre_ref(scene(n, 1), 0.1, 10); auto m = create_gaussian_voxelmap(*x.c, res); GaussianVoxelMap e(res); e.insert(*x.c);
  seqx::step(); seqx::state(seqx::mix(i + 1, e.size()));
  if (m->size() != e.size()) return str("create_gaussian_voxelmap: ", m->size(), " voxels, explicit ", e.size());
  for (size_t id : traits::point_indices(e)) { size_t k; double sq; auto p = traits::point(e, id); if (!m->nearest_neighbor_search(p, &k, &sq) || sq > 1e-18) return "voxel mean missing"; if (!((traits::cov(*m, k) - traits::cov(e, id)).cwiseAbs().maxCoeff() < 1e-9)) return "voxel covariance differs"; }
  return "";
}
static std::string defaults(uint64_t) {
  RegistrationSetting s; seqx::state(1);
  if (s.type != RegistrationSetting::GICP || s.voxel_resolution != 1.0 || s.downsampling_resolution != 0.25 || s.max_correspondence_distance != 1.0 || std::abs(s.rotation_eps - 0.1 * M_PI / 180) > 1e-15 || s.translation_eps != 1e-3 || s.num_threads != 4 || s.max_iterations != 20 || s.verbose) return "a documented default setting changed";
  auto tv = conv<double, 3>(data().t), sv = conv<double, 3>(data().s);
  g_teams.clear(); auto r = align(tv, sv); auto m = threads_ok(4, "align"); if (!m.empty()) return m;
  m = same_result(r, explicit_any(pre_ref(data().t, 0.25, 10), pre_ref(data().s, 0.25, 10), Iso::Identity(), s), 1e-6); if (!m.empty()) return "default arguments: " + m;
  auto c = cloud(data().t); g_teams.clear(); auto p = preprocess_points(*c, 0.25); m = threads_ok(4, "preprocess_points"); if (!m.empty()) return m;
  return same_clouds(*p.first, *pre_ref(data().t, 0.25, 10).c);
}
// beyond 16 bits: one point in each of 70 001 voxels, so that no downsampler may merge or lose any
static std::string large(uint64_t i) {
  seqx::Odo o(i); const int nt = 1 + o(4), form = o(2); const size_t n = 70001; Mix r(3); Pts p(n);
  for (size_t j = 0; j < n; j++) { size_t t = (j * 7919) % n; p[j] = V4((int)(t % 250) - 125 + r.u(0.1, 0.9), (int)(t / 250) - 140 + r.u(0.1, 0.9), 7 + r.u(0.1, 0.9), 1); }
  if (form) p = rounded<float>(p);
  auto x = form ? preprocess_points(conv<float, 3>(p), 1.0, 10, nt) : preprocess_points(*cloud(p), 1.0, 10, nt); seqx::step(n);
  auto& c = *x.first; if (c.size() != n) return str("preprocess_points of ", n, " points in as many voxels returns ", c.size());
  std::map<std::pair<int, int>, size_t> at; for (size_t j = 0; j < n; j++) at[{(int)std::floor(p[j][0]), (int)std::floor(p[j][1])}] = j;
  for (size_t j = 0; j < n; j++) { auto it = at.find({(int)std::floor(c.point(j)[0]), (int)std::floor(c.point(j)[1])}); if (it == at.end() || (c.point(j) - p[it->second]).norm() > 1e-9) return str("preprocess_points: output ", j, " at ", c.point(j).transpose(), " is no input point, or was returned twice"); at.erase(it); }
  PointCloud e; e.resize(n); e.points = c.points; estimate_normals_covariances(e, 10);
  for (size_t j = 0; j < n; j++) if ((e.normal(j) - c.normal(j)).norm() > 1e-6 || (e.cov(j) - c.cov(j)).norm() > 1e-6) return str("preprocess_points, ", nt, " threads: attributes of point ", j, " of ", n, " differ from the serial estimation");
  return tree_ok(*x.second, c);
}
int main(int argc, char** argv) {
  const bool th = seqx::thorough(argc, argv);
  seqx::add("defaults", 1, defaults);
  seqx::add("preprocess", 6 * 5 * 3 * 4 * 5, preprocess);
  seqx::add("preprocess/large", 8, large, 300);
  seqx::add("voxelmaps", 20, voxelmaps);
  seqx::add("align/preprocessed", NSET * 2, align_pre);
  seqx::add("align/d3", NSET * 4, align_raw<double, 3>);
  seqx::add("align/f4", NSET * (th ? 4 : 1), align_raw<float, 4>);
  seqx::add("align/f3", NSET * (th ? 4 : 1), align_raw<float, 3>);
  seqx::add("align/d4", NSET * (th ? 4 : 1), align_raw<double, 4>);
  return seqx::main("C17", argc, argv);
}
