// C25: odometry built from the library's parts follows every bounded motion sequence. All sequences over an alphabet of motions are run
// through the real pipeline (downsampling, covariances, registration against the map or the last scan, insertion with the estimated pose)
// in a simulated scene; after every scan the estimate is compared with the true pose and the map with the scene.
#include "ref.hpp"
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/registration_helper.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
using namespace ref;
using namespace small_gicp;
using Iso = Eigen::Isometry3d;

// ---- scene: a room of 18 x 13 x 3.5 m with three boxes and a step in the floor
static Pts scene() {
  Pts p; Mix r(11);
  auto quad = [&](Eigen::Vector3d o, Eigen::Vector3d a, Eigen::Vector3d b) {
    int na = std::max(1.0, a.norm() / 0.3), nb = std::max(1.0, b.norm() / 0.3);
    for (int i = 0; i < na; i++) for (int j = 0; j < nb; j++) { Eigen::Vector3d x = o + a * ((i + r.u(0.1, 0.9)) / na) + b * ((j + r.u(0.1, 0.9)) / nb); p.push_back(V4(x[0], x[1], x[2], 1)); }
  };
  auto box = [&](double x, double y, double z, double w, double d, double h) {
    quad({x, y, z}, {w, 0, 0}, {0, 0, h}); quad({x, y + d, z}, {w, 0, 0}, {0, 0, h}); quad({x, y, z}, {0, d, 0}, {0, 0, h}); quad({x + w, y, z}, {0, d, 0}, {0, 0, h}); quad({x, y, z + h}, {w, 0, 0}, {0, d, 0});
  };
  box(-9, -6.5, -1.5, 18, 13, 3.5);                       // walls and ceiling
  quad({-9, -6.5, -1.5}, {9, 0, 0}, {0, 13, 0}); quad({0, -6.5, -1.3}, {9, 0, 0}, {0, 13, 0}); quad({0, -6.5, -1.5}, {0, 13, 0}, {0, 0, 0.2});
  box(-4, 2, -1.5, 1.2, 0.9, 2); box(3, -4, -1.3, 0.8, 2, 1.4); box(-3, -4, -1.5, 2, 0.8, 1.1); box(4, 3, -1.3, 1.5, 1.5, 2.2);
  return p;
}
static const Pts& world() { static Pts p = scene(); return p; }
static Iso mo(double x, double y, double z, double roll, double pitch, double yaw) {
  Iso T = Iso::Identity(); T.translation() = Eigen::Vector3d(x, y, z);
  T.linear() = (Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(pitch, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(roll, Eigen::Vector3d::UnitX())).toRotationMatrix();
  return T;
}
static std::vector<Iso> motions() {
  return {mo(0, 0, 0, 0, 0, 0), mo(0.35, 0.02, 0, 0, 0.01, 0), mo(0.15, 0, 0.01, 0, 0, 0.07), mo(0.1, -0.1, 0, 0.01, 0, -0.08), mo(-0.3, 0.05, 0.05, 0, -0.02, 0.02), mo(0, 0.3, -0.05, 0.03, 0.02, 0)};
}
static PointCloud::Ptr scan(const Iso& T, int step) {  // the points within 7 m in the sensor frame, each with a little noise of its own
  Iso I = T.inverse(); Mix r(1000 + step); Pts q;
  for (auto& w : world()) { V4 p = I.matrix() * w; double nx = r.u(-.01, .01), ny = r.u(-.01, .01), nz = r.u(-.01, .01); if (p.head<3>().norm() > 7 || (r() & 3) == 0) continue; q.push_back(V4(p[0] + nx, p[1] + ny, p[2] + nz, 1)); }
  return cloud(q);
}
static double terr(const Iso& a, const Iso& b) { return (a.translation() - b.translation()).norm(); }
static double rerr(const Iso& a, const Iso& b) { return Eigen::AngleAxisd(Eigen::Matrix3d(a.linear().transpose() * b.linear())).angle(); }

// ---- pipelines
enum Backend { SERIAL, OMP, TBB };
static PointCloud::Ptr prepare(const PointCloud& raw, Backend be, double leaf, int k) {
  PointCloud::Ptr d = be == OMP ? voxelgrid_sampling_omp(raw, leaf, 2) : be == TBB ? voxelgrid_sampling_tbb(raw, leaf) : voxelgrid_sampling(raw, leaf);
  if (be == OMP) estimate_normals_covariances_omp(*d, k, 2); else if (be == TBB) estimate_normals_covariances_tbb(*d, k); else estimate_normals_covariances(*d, k);
  return d;
}
struct SetThreads { template <typename R> static auto set(R& r, int) -> decltype(r.num_threads, void()) { r.num_threads = 2; } template <typename R> static void set(R&, long) {} };

template <typename Factor, typename Red, typename Contents, int Tenths = std::is_same<Contents, GaussianVoxel>::value ? 10 : 8>
struct MapOdom {
  IncrementalVoxelMap<Contents> map; Registration<Factor, Red> reg; Iso T = Iso::Identity(); int n = 0; RegistrationResult last;
  MapOdom() : map(0.1 * Tenths), last(Iso::Identity()) {
    SetThreads::set(reg.reduction, 0); map.set_search_offsets(std::is_same<Contents, GaussianVoxel>::value ? 7 : 27); map.lru_horizon = 3; map.lru_clear_cycle = 2;
    reg.rejector.max_dist_sq = 1.0; reg.criteria.translation_eps = 1e-3; reg.criteria.rotation_eps = 2e-4;
  }
  void feed(const PointCloud::Ptr& p) { if (n++) { last = reg.align(map, *p, map, T); T = last.T_target_source; } map.insert(*p, T); }
};
template <typename Factor, typename Red>
struct ScanOdom {
  PointCloud::Ptr prev; std::shared_ptr<KdTree<PointCloud>> tree; Registration<Factor, Red> reg; Iso T = Iso::Identity(); int n = 0; RegistrationResult last;
  ScanOdom() : last(Iso::Identity()) { SetThreads::set(reg.reduction, 0); reg.rejector.max_dist_sq = 1.0; reg.criteria.translation_eps = 1e-3; reg.criteria.rotation_eps = 2e-4; }
  void feed(const PointCloud::Ptr& p) { if (n++) { last = reg.align(*prev, *p, *tree, Iso::Identity()); T = T * last.T_target_source; } prev = p; tree = std::make_shared<KdTree<PointCloud>>(p, KdTreeBuilderOMP(2)); }
};
struct HelperOdom {  // the helper API, scan to scan, raw points
  std::vector<Eigen::Vector3f> prev; Iso T = Iso::Identity(); int n = 0; RegistrationSetting s; RegistrationResult last;
  HelperOdom() : last(Iso::Identity()) { s.num_threads = 1; s.downsampling_resolution = 0.5; s.max_correspondence_distance = 1.0; s.rotation_eps = 2e-4; }
  void feed(const PointCloud::Ptr& p) { std::vector<Eigen::Vector3f> cur; for (auto& q : p->points) cur.push_back(q.head<3>().cast<float>()); if (n++) { last = align(prev, cur, Iso::Identity(), s); T = T * last.T_target_source; } prev.swap(cur); }
};
template <typename Contents> static std::string check_map(const IncrementalVoxelMap<Contents>& m, const Iso& T0, double tol) {
  // every stored mean or point is near a point of the scene (brute force over a coarse grid of the scene)
  static std::map<std::array<int, 3>, std::vector<V4>> g;
  if (g.empty()) for (auto& w : world()) g[{(int)std::floor(w[0]), (int)std::floor(w[1]), (int)std::floor(w[2])}].push_back(w);
  size_t cnt = 0;
  for (auto& v : m.flat_voxels) for (size_t i = 0; i < traits::size(v->second); i++) {
    V4 x = T0.matrix() * traits::point(v->second, i); double best = 1e9;
    if ((cnt++ % 7) != 0) continue;
    for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) for (int c = -1; c <= 1; c++) { auto it = g.find({(int)std::floor(x[0]) + a, (int)std::floor(x[1]) + b, (int)std::floor(x[2]) + c}); if (it != g.end()) for (auto& w : it->second) best = std::min(best, d2(w, x)); }
    if (best > tol * tol) return str("the map holds the point ", x.transpose(), ", which is ", std::sqrt(best), " away from the scene");
  }
  return "";
}
static double g_maxt = 0, g_maxr = 0;
template <typename O> static std::string map_of(const O&, const Iso&, ...) { return ""; }
template <typename F, typename R, typename C, int L> static std::string map_of(const MapOdom<F, R, C, L>& o, const Iso& T0, int) { return check_map(o.map, T0, 0.75); }

static std::vector<Iso> starts() { return {Iso::Identity(), mo(-5, 0.5, 0, 0, 0, 0.6), mo(5, -1, 0.1, 0.02, 0, -2.5)}; }
template <typename O> static std::string drive(uint64_t i, int len, Backend be, bool raw, double tt, double tr, int period) {
  static auto M = motions(); static auto S = starts();
  seqx::Odo o(i); Iso T = S[o(S.size())], T0 = T; O od; std::string path; std::vector<int> seq;
  // prefixes of a sequence share their scans: they are kept per worker
  static std::map<std::vector<int>, PointCloud::Ptr> cache; std::vector<int> key = {(int)be * 2 + raw, (int)(i % S.size())};
  for (int s = 0; s <= len; s++) {
    if (s) { int m = (int)seq.size() < period ? (int)o(M.size()) : seq[seq.size() - period]; seq.push_back(m); key.push_back(m); path += str(m, " "); T = T * M[m]; }
    PointCloud::Ptr c;
    auto it = cache.find(key);
    if (it != cache.end()) c = it->second;
    else { auto rawc = scan(T, s * 97 + (s ? key.back() : 0)); c = raw ? rawc : prepare(*rawc, be, 0.4, 10); if (cache.size() > 400) cache.clear(); cache[key] = c; }
    PointCloud before = *c;
    od.feed(c);
    seqx::step();
    if (before.points != c->points || before.normals != c->normals || before.covs != c->covs) return str("motions ", path, ": a scan was modified");
    Iso est = T0 * od.T; const double et = terr(est, T), er = rerr(est, T);
    if (getenv("C25_STAT")) { g_maxt = std::max(g_maxt, et / (1 + 0.5 * s)); g_maxr = std::max(g_maxr, er / (1 + 0.5 * s)); }
    if (!(et <= tt * (1 + 0.5 * s) && er <= tr * (1 + 0.5 * s))) return str("start ", i % S.size(), ", motions ", path, ": the estimate is off by ", et, " m, ", er, " rad after scan ", s, " (inliers ", od.last.num_inliers, ")");
    if (s && od.last.num_inliers < c->size() / (raw ? 20 : 3)) return str("start ", i % S.size(), ", motions ", path, ": only ", od.last.num_inliers, " of ", c->size(), " points are inliers");
    if (s == len) { auto m = map_of(od, T0, 0); if (!m.empty()) return str("start ", i % S.size(), ", motions ", path, ": ", m); seqx::state(seqx::hash_d(seqx::hash_d(be, std::round(et * 1e9)), std::round(er * 1e9))); SAMPLE(str("motions ", path, ": ", et, " m, ", er, " rad off after ", s, " scans")); }
  }
  if (getenv("C25_STAT")) { FILE* f = fopen(getenv("C25_STAT"), "a"); fprintf(f, "%s %g %g\n", typeid(O).name(), g_maxt, g_maxr); fclose(f); g_maxt = g_maxr = 0; }
  return "";
}
template <typename O> static void family(const char* name, int len, Backend be, bool raw, double tt, double tr, int period = 0) {
  uint64_t n = starts().size(); for (int k = 0; k < (period ? period : len); k++) n *= motions().size();
  seqx::add(period ? str(name, "/period", period, "/len", len) : str(name, "/len", len), n, [=](uint64_t i) { return drive<O>(i, len, be, raw, tt, tr, period ? period : len); });
}
int main(int argc, char** argv) {
  const bool th = seqx::thorough(argc, argv);
  const int D = th ? 5 : 3, LN = th ? 20 : 8;
  family<MapOdom<GICPFactor, SerialReduction, GaussianVoxel>>("vgicp-map/serial", D, SERIAL, false, 0.08, 0.005);
  family<MapOdom<GICPFactor, ParallelReductionOMP, GaussianVoxel>>("vgicp-map/omp", D - 1, OMP, false, 0.08, 0.005);
  family<MapOdom<GICPFactor, ParallelReductionTBB, GaussianVoxel>>("vgicp-map/tbb", D - 1, TBB, false, 0.08, 0.005);
  family<MapOdom<GICPFactor, SerialReduction, FlatContainerCov>>("gicp-flat/serial", D, SERIAL, false, 0.02, 0.003);
  family<MapOdom<PointToPlaneICPFactor, SerialReduction, FlatContainerNormal>>("plane-flat/serial", D, SERIAL, false, 0.04, 0.012);
  family<ScanOdom<GICPFactor, SerialReduction>>("gicp-scan/serial", D, SERIAL, false, 0.03, 0.003);
  family<ScanOdom<GICPFactor, ParallelReductionOMP>>("gicp-scan/omp", D - 1, OMP, false, 0.03, 0.003);
  family<ScanOdom<PointToPlaneICPFactor, ParallelReductionTBB>>("plane-scan/tbb", D - 1, TBB, false, 0.045, 0.014);
  family<HelperOdom>("gicp-scan/helper", D - 1, SERIAL, true, 0.05, 0.005);
  family<MapOdom<GICPFactor, SerialReduction, FlatContainerCov, 4>>("gicp-fine/serial", D - 1, SERIAL, false, 0.02, 0.003);
  family<MapOdom<GICPFactor, SerialReduction, FlatContainerCov, 4>>("gicp-fine/serial", LN, SERIAL, false, 0.02, 0.003, 2);
  // every pair of motions repeated: longer drives through the room, voxels leave the map and are seen again
  family<MapOdom<GICPFactor, SerialReduction, GaussianVoxel>>("vgicp-map/serial", LN, SERIAL, false, 0.08, 0.005, 2);
  family<MapOdom<GICPFactor, ParallelReductionOMP, FlatContainerCov>>("gicp-flat/omp", LN, OMP, false, 0.02, 0.003, 2);
  family<MapOdom<PointToPlaneICPFactor, ParallelReductionTBB, FlatContainerNormalCov>>("plane-flat/tbb", LN, TBB, false, 0.04, 0.012, 2);
  family<ScanOdom<GICPFactor, SerialReduction>>("gicp-scan/serial", LN, SERIAL, false, 0.03, 0.003, 2);
  return seqx::main("C25", argc, argv);
}
