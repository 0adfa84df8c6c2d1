// C06: concurrent read-only use of shared structures and shared registration objects.
#include "common.hpp"
#include <sys/wait.h>
#include <unistd.h>
#include <cstring>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/robust_kernel.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/registration_helper.hpp>
using namespace mch;

// Result record: everything a call returned, flattened.
using Rec = std::vector<double>;
static std::string differ(const Rec& a, const Rec& b, double tol) {
  if (a.size() != b.size()) return str("returned ", a.size(), " values instead of ", b.size());
  for (size_t i = 0; i < a.size(); i++) if (!(std::abs(a[i] - b[i]) <= tol * (1 + std::abs(b[i]))) && !(std::isnan(a[i]) && std::isnan(b[i]))) return str("value ", i, " is ", a[i], ", alone ", b[i]);
  return "";
}
static std::shared_ptr<PointCloud> cloud(size_t n, uint64_t seed) {
  auto c = std::make_shared<PointCloud>();
  c->resize(n);
  Mix r(seed);
  for (size_t i = 0; i < n; i++) {
    double x = r.in(-4000, 4000) * 1e-3, y = r.in(-4000, 4000) * 1e-3;
    c->point(i) = Eigen::Vector4d(x, y, 3 + 0.3 * x + 0.5 * std::sin(2 * y) + 0.2 * std::cos(3 * x), 1);
  }
  if (n >= 6) estimate_normals_covariances(*c, 6);
  return c;
}
static std::shared_ptr<PointCloud> moved(const PointCloud& p, const Eigen::Isometry3d& T, size_t from, size_t n) {
  auto c = std::make_shared<PointCloud>();
  c->resize(n);
  for (size_t i = 0; i < n; i++) { c->point(i) = T * p.point(from + i); c->normal(i) = T.matrix() * p.normal(from + i); c->cov(i) = T.matrix() * p.cov(from + i) * T.matrix().transpose(); }
  return c;
}
static Eigen::Isometry3d pose(double rx, double ry, double rz, double x, double y, double z) {
  Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
  T.linear() = (Eigen::AngleAxisd(rx, Eigen::Vector3d::UnitX()) * Eigen::AngleAxisd(ry, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(rz, Eigen::Vector3d::UnitZ())).toRotationMatrix();
  T.translation() = Eigen::Vector3d(x, y, z);
  return T;
}
static void put(Rec& r, const RegistrationResult& q) {
  for (int i = 0; i < 16; i++) r.push_back(q.T_target_source.matrix().data()[i]);
  r.push_back(q.converged); r.push_back(q.iterations); r.push_back(q.num_inliers); r.push_back(q.error);
  for (int i = 0; i < 36; i++) r.push_back(q.H.data()[i]);
  for (int i = 0; i < 6; i++) r.push_back(q.b.data()[i]);
}
static void put(Rec& r, const PointCloud& c) { r.push_back(c.size()); for (size_t i = 0; i < c.size(); i++) for (int k = 0; k < 4; k++) r.push_back(c.point(i)[k]); }
static Rec fingerprint(const PointCloud& c) {
  Rec r;
  put(r, c);
  for (size_t i = 0; i < c.size(); i++) { for (int k = 0; k < 4; k++) r.push_back(c.normal(i)[k]); for (int k = 0; k < 16; k++) r.push_back(c.cov(i).data()[k]); }
  return r;
}

struct Shared {
  std::shared_ptr<PointCloud> target;
  std::vector<std::shared_ptr<PointCloud>> sources;
  std::shared_ptr<KdTree<PointCloud>> tree;
  std::shared_ptr<KdTree<PointCloud, NormalProjection>> ntree;
  std::unique_ptr<UnsafeKdTree<PointCloud>> utree;
  std::shared_ptr<GaussianVoxelMap> gmap;
  std::shared_ptr<IncrementalVoxelMap<FlatContainerNormalCov>> fmap;
  std::shared_ptr<ProjectiveSearch<PointCloud>> proj;
  std::shared_ptr<PointCloud> big;
  Rec before;
  Rec print() const { Rec r = fingerprint(*target); for (auto& s : sources) { auto q = fingerprint(*s); r.insert(r.end(), q.begin(), q.end()); } if (big) put(r, *big); 
    for (auto& v : gmap->flat_voxels) { for (int i = 0; i < 4; i++) r.push_back(v->second.mean[i]); r.push_back(v->second.num_points); r.push_back(v->first.lru); }
    for (auto& v : fmap->flat_voxels) { r.push_back(v->second.size()); r.push_back(v->first.lru); }
    return r; }
};
static std::shared_ptr<Shared> make(size_t nt, size_t ns, size_t nbig) {
  auto s = std::make_shared<Shared>();
  s->target = cloud(nt, 77);
  for (int k = 0; k < 3; k++) s->sources.push_back(moved(*s->target, pose(0.01 * (k + 1), -0.015 * k, 0.02, 0.05 * k, 0.04, -0.03 * k).inverse(), k, ns));
  s->tree = std::make_shared<KdTree<PointCloud>>(s->target);
  s->ntree = std::make_shared<KdTree<PointCloud, NormalProjection>>(s->target);
  s->utree = std::make_unique<UnsafeKdTree<PointCloud>>(*s->target);
  s->gmap = std::make_shared<GaussianVoxelMap>(2.0);
  s->gmap->insert(*s->target);
  s->gmap->set_search_offsets(7);
  s->fmap = std::make_shared<IncrementalVoxelMap<FlatContainerNormalCov>>(2.0);
  s->fmap->insert(*s->target);
  s->fmap->set_search_offsets(27);
  s->proj = std::make_shared<ProjectiveSearch<PointCloud>>(64, 32, s->target);
  if (nbig) s->big = cloud(nbig, 5);
  s->before = s->print();
  return s;
}

using Job = std::function<Rec(const Shared&, int)>;  // int: which thread
// The result of one call running alone, computed in a process of its own so that nothing it caches is seen by the concurrent run.
static Rec alone(const Job& job, std::array<size_t, 3> sz, int t) {
  int fd[2];
  if (pipe(fd)) return {};
  pid_t p = fork();
  if (p == 0) {
    Rec r = job(*make(sz[0], sz[1], sz[2]), t);
    size_t n = r.size() * sizeof(double), o = 0;
    while (o < n) { ssize_t k = write(fd[1], (const char*)r.data() + o, n - o); if (k <= 0) break; o += k; }
    _exit(0);
  }
  close(fd[1]);
  std::vector<char> buf; char tmp[4096]; ssize_t k;
  while ((k = read(fd[0], tmp, sizeof(tmp))) > 0) buf.insert(buf.end(), tmp, tmp + k);
  close(fd[0]);
  int st; waitpid(p, &st, 0);
  Rec r(buf.size() / sizeof(double));
  memcpy(r.data(), buf.data(), r.size() * sizeof(double));
  return r;
}
static void scen(const std::string& name, mc::Config cfg, std::array<size_t, 3> sz, int nthreads, Job job, double tol) {
  struct St { std::shared_ptr<Shared> sh; std::vector<Rec> out, alone; };
  auto st = std::make_shared<St>();
  mc::Scenario s;
  s.name = name; s.cfg = cfg;
  s.setup = [=] { st->sh = make(sz[0], sz[1], sz[2]); st->out.assign(nthreads, Rec()); for (int t = 0; t < nthreads; t++) st->alone.push_back(alone(job, sz, t)); };
  s.body = [=] {
    const Shared& sh = *st->sh;
    std::vector<int> ids;
    for (int t = 1; t < nthreads; t++) ids.push_back(mc::spawn([=, &sh] { st->out[t] = job(sh, t); }));
    st->out[0] = job(sh, 0);
    for (int i : ids) mc::join(i);
  };
  s.check = [=]() -> std::string {
    for (int t = 0; t < nthreads; t++) {
      auto m = differ(st->out[t], st->alone[t], tol);
      if (!m.empty()) return str("thread ", t, ": ", m);
    }
    if (st->sh->print() != st->sh->before) return "a shared object was changed by read-only use";
    return "";
  };
  mc::add(s);
}

template <typename Tree>
static Rec queries(const Tree& tree, const Shared& s, int t) {
  Rec r;
  for (int q = 0; q < 6; q++) {
    size_t idx[5] = {0}; double sq[5] = {0};
    Eigen::Vector4d pt = q < 3 ? Eigen::Vector4d(s.sources[t]->point(q * 3)) : Eigen::Vector4d(q - 2.5 + t, t - q * 0.3, 2.1 * t - 1, 1);
    mc::point();
    size_t n = traits::knn_search(tree, pt, 4, idx, sq);
    r.push_back(n);
    for (size_t i = 0; i < n; i++) { r.push_back(sq[i]); r.push_back((double)idx[i]); }
    n = traits::nearest_neighbor_search(tree, pt, idx, sq);
    r.push_back(n);
    if (n) { r.push_back(sq[0]); r.push_back((double)idx[0]); }
  }
  return r;
}

template <typename Reg, typename Tree>
static Job aligner(std::shared_ptr<Reg> reg, std::function<const Tree&(const Shared&)> tree, int times) {
  return [=](const Shared& s, int t) {
    Rec r;
    for (int k = 0; k < times; k++) { mc::point(); put(r, reg->align(*s.target, *s.sources[(t + k) % 3], tree(s), pose(0.01 * t, 0, 0, 0, 0.02 * k, 0))); }
    return r;
  };
}
template <typename Tree>
static Job map_aligner(std::function<RegistrationResult(const Shared&, const PointCloud&, const Eigen::Isometry3d&)> f, int times) {
  return [=](const Shared& s, int t) { Rec r; for (int k = 0; k < times; k++) { mc::point(); put(r, f(s, *s.sources[(t + k) % 3], pose(0.01 * t, 0, 0, 0, 0.02 * k, 0))); } return r; };
}

int main(int argc, char** argv) {
  const bool th = mc::thorough(argc, argv);
  auto cfg = [&](int T, int bound, mc::Policy p = mc::ROUND_ROBIN) { mc::Config c; c.max_threads = T; c.policy = p; c.bound = bound; return c; };
  const std::array<size_t, 3> Q{40, 20, 0}, A{24, 14, 0};
  for (int nth : {2, 3}) {
    const int b = nth == 2 ? (th ? 6 : 4) : (th ? 4 : 3);
    auto p = str("/t", nth);
    scen("query/kdtree" + p, cfg(2, b), Q, nth, [](const Shared& s, int t) { return queries(*s.tree, s, t); }, 0);
    scen("query/unsafe_kdtree" + p, cfg(2, b), Q, nth, [](const Shared& s, int t) { return queries(*s.utree, s, t); }, 0);
    scen("query/kdtree_normalproj" + p, cfg(2, b), Q, nth, [](const Shared& s, int t) { return queries(*s.ntree, s, t); }, 0);
    scen("query/gaussian_voxelmap" + p, cfg(2, b), Q, nth, [](const Shared& s, int t) { return queries(*s.gmap, s, t); }, 0);
    scen("query/flat_voxelmap" + p, cfg(2, b), Q, nth, [](const Shared& s, int t) { return queries(*s.fmap, s, t); }, 0);
    scen("query/projective" + p, cfg(2, b), Q, nth, [](const Shared& s, int t) { return queries(*s.proj, s, t); }, 0);
    scen("query/mixed" + p, cfg(2, b), Q, nth, [](const Shared& s, int t) { return t == 0 ? queries(*s.tree, s, t) : t == 1 ? queries(*s.fmap, s, t) : queries(*s.gmap, s, t); }, 0);
  }
  auto tune = [](auto& r, int it) { r->optimizer.max_iterations = it; r->rejector.max_dist_sq = 1.0; };
  std::function<const KdTree<PointCloud>&(const Shared&)> kd = [](const Shared& s) -> const KdTree<PointCloud>& { return *s.tree; };
  // serial reduction: user threads only
  {
    auto r1 = std::make_shared<Registration<ICPFactor, SerialReduction>>(); tune(r1, 4);
    auto r2 = std::make_shared<Registration<PointToPlaneICPFactor, SerialReduction>>(); tune(r2, 4);
    auto r3 = std::make_shared<Registration<GICPFactor, SerialReduction>>(); tune(r3, 4);
    auto r4 = std::make_shared<Registration<RobustFactor<Huber, GICPFactor>, SerialReduction>>(); tune(r4, 4);
    auto r5 = std::make_shared<Registration<RobustFactor<Cauchy, PointToPlaneICPFactor>, SerialReduction, RestrictDoFFactor, DistanceRejector, GaussNewtonOptimizer>>(); tune(r5, 4);
    r5->general_factor.set_translation_mask(Eigen::Array3d(1, 1, 0));
    for (int nth : {2, 3}) {
      const int b = nth == 2 ? (th ? 6 : 4) : (th ? 4 : 3);
      auto p = str("/t", nth);
      scen("align/serial/icp" + p, cfg(2, b), A, nth, aligner(r1, kd, 3), 0);
      scen("align/serial/plane" + p, cfg(2, b), A, nth, aligner(r2, kd, 3), 0);
      scen("align/serial/gicp" + p, cfg(2, b), A, nth, aligner(r3, kd, 3), 0);
      scen("align/serial/huber_gicp" + p, cfg(2, b), A, nth, aligner(r4, kd, 3), 0);
      scen("align/serial/cauchy_plane_dof_gn" + p, cfg(2, b), A, nth, aligner(r5, kd, 3), 0);
      scen("align/serial/vgicp" + p, cfg(2, b), A, nth, map_aligner<GaussianVoxelMap>([=](const Shared& s, const PointCloud& c, const Eigen::Isometry3d& T) { return r3->align(*s.gmap, c, *s.gmap, T); }, 3), 0);
      scen("align/serial/flatmap_gicp" + p, cfg(2, b), A, nth, map_aligner<int>([=](const Shared& s, const PointCloud& c, const Eigen::Isometry3d& T) { return r3->align(*s.fmap, c, *s.fmap, T); }, 3), 0);
      scen("align/serial/projective_plane" + p, cfg(2, b), A, nth, map_aligner<int>([=](const Shared& s, const PointCloud& c, const Eigen::Isometry3d& T) { return r2->align(*s.target, c, *s.proj, T); }, 3), 0);
    }
  }
  // parallel reductions: two user threads, each with its own team, one registration object
  {
    auto r3 = std::make_shared<Registration<GICPFactor, ParallelReductionOMP>>(); tune(r3, 2); r3->reduction.num_threads = 2;
    auto r2 = std::make_shared<Registration<PointToPlaneICPFactor, ParallelReductionOMP>>(); tune(r2, 2); r2->reduction.num_threads = 2;
    auto t3 = std::make_shared<Registration<GICPFactor, ParallelReductionTBB>>(); tune(t3, 1);
    auto t1 = std::make_shared<Registration<ICPFactor, ParallelReductionTBB>>(); tune(t1, 1);
    scen("align/omp/gicp", cfg(2, th ? 2 : 1), A, 2, aligner(r3, kd, 1), 1e-6);
    scen("align/omp/plane", cfg(2, th ? 3 : 2, mc::GREEDY), A, 2, aligner(r2, kd, 1), 1e-6);
    scen("align/tbb/gicp", cfg(2, th ? 3 : 2), A, 2, aligner(t3, kd, 1), 1e-6);
    scen("align/tbb/icp", cfg(2, th ? 3 : 2, mc::GREEDY), A, 2, aligner(t1, kd, 1), 1e-6);
  }
  // high-level helper functions on shared inputs
  for (int type = 0; type < 4; type++)
    for (int nt : {1, 2}) {
      RegistrationSetting st;
      st.type = (RegistrationSetting::RegistrationType)type; st.num_threads = nt; st.max_iterations = 2; st.voxel_resolution = 2.0;
      scen(str("helper/type", type, "/nt", nt), cfg(2, th ? (nt == 1 ? 4 : 2) : (nt == 1 ? 3 : 1)), A, 2, map_aligner<int>([=](const Shared& s, const PointCloud& c, const Eigen::Isometry3d& T) {
        return st.type == RegistrationSetting::VGICP ? align(*s.gmap, c, T, st) : align(*s.target, c, *s.tree, T, st); }, nt == 1 ? 2 : 1), 1e-6);
    }
  // shared const cloud as input of downsampling and tree construction
  const std::array<size_t, 3> B{24, 14, 600};
  scen("downsample/serial", cfg(2, th ? 3 : 2), B, 2, [](const Shared& s, int t) { Rec r; for (int k = 0; k < 2; k++) { mc::point(); put(r, *voxelgrid_sampling(*s.big, 0.5 + t + k)); } return r; }, 0);
  scen("downsample/random", cfg(2, th ? 3 : 2), B, 2, [](const Shared& s, int t) { Rec r; for (int k = 0; k < 2; k++) { mc::point(); std::mt19937 g(3 + t); put(r, *random_sampling(*s.big, 50 + t, g)); } return r; }, 0);
  scen("downsample/omp", cfg(2, th ? 2 : 1), B, 2, [](const Shared& s, int t) { Rec r; put(r, *voxelgrid_sampling_omp(*s.big, 0.5 + t, 2)); return r; }, 1e-9);
  scen("tree/serial", cfg(2, th ? 3 : 2), B, 2, [](const Shared& s, int t) { mc::point(); UnsafeKdTree<PointCloud> tr(*s.big); mc::point(); return queries(tr, s, t); }, 0);
  scen("tree/omp", cfg(2, th ? 2 : 1), B, 2, [](const Shared& s, int t) { KdTreeBuilderOMP b(2); b.max_leaf_size = 300; UnsafeKdTree<PointCloud> tr(*s.big, b); return queries(tr, s, t); }, 1e-12);
  scen("helper/preprocess", cfg(2, th ? 3 : 2), B, 2, [](const Shared& s, int t) { mc::point(); auto q = preprocess_points(*s.big, 0.8 + t, 8, 1); mc::point(); return fingerprint(*q.first); }, 1e-9);
  return mc::main("C06", argc, argv);
}
