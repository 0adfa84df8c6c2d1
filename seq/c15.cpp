// C15: registration recovers the relative pose, for every combination of factor, reduction, optimizer and search structure.
// The clouds have a minimum point spacing of 1 and every perturbation moves every point by less than 0.45, so that all
// correspondences are right from the first iteration on: the initial guesses lie inside the convergence basin by construction.
#include "fac.hpp"
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/util/normal_estimation.hpp>
using namespace fac;
using namespace small_gicp;

static Pts make(int kind) {
  Pts p; Mix r(kind + 5);
  auto far = [&](const V4& q) { for (auto& x : p) if (d2(x, q) < 1.0) return false; return true; };
  if (kind == 0) { for (int t = 0; t < 4000 && p.size() < 140; t++) { V4 q(r.u(-7, 7), r.u(-7, 7), r.u(-3, 3), 1); if (q.head<3>().norm() < 8 && far(q)) p.push_back(q); } }
  else {  // a room corner: floor and two walls, slightly uneven
    for (int i = -5; i <= 5; i++) for (int j = -5; j <= 5; j++) {
      V4 f(i * 1.3 + r.u(-.1, .1), j * 1.3 + r.u(-.1, .1), -2 + r.u(-.05, .05), 1), w(-7.5 + r.u(-.05, .05), i * 1.3 + r.u(-.1, .1), (j + 5) * 0.6 + r.u(0, .1), 1), v(i * 1.3 + r.u(-.1, .1), 7.5 + r.u(-.05, .05), (j + 5) * 0.6 + r.u(0, .1), 1);
      for (auto& q : {f, w, v}) if (far(q) && q.head<3>().norm() < 11) p.push_back(q);
    }
  }
  return p;
}
static std::vector<Iso> bases() {
  auto v = poses(8); v.erase(v.begin() + 5); return v;  // identity, quarter turn, generic, half turn, generic far, ...
}
static uint64_t NP = 729;  // 3^6 perturbations (quick) or 5^6 (thorough)
static V6 perturbation(uint64_t i, double rot, double tr) { V6 a; uint64_t r = NP == 729 ? 3 : 5; for (int k = 0; k < 6; k++) { a[k] = ((int)(i % r) - (int)(r / 2)) * (2.0 / (r - 1)) * (k < 3 ? rot : tr); i /= r; } return a; }
static PointCloud::Ptr prepared(const Pts& p) { auto c = cloud(p); estimate_normals_covariances(*c, 10); return c; }
static PointCloud::Ptr moved(const PointCloud& c, const Iso& T) {  // with its attributes
  auto o = std::make_shared<PointCloud>(c);
  for (size_t i = 0; i < c.size(); i++) { o->point(i) = T.matrix() * c.point(i); o->point(i)[3] = 1; o->normal(i) = T.matrix() * c.normal(i); o->cov(i) = T.matrix() * c.cov(i) * T.matrix().transpose(); o->cov(i).row(3).setZero(); o->cov(i).col(3).setZero(); }
  return o;
}
static bool same(const PointCloud& a, const PointCloud& b) { return a.points == b.points && a.normals == b.normals && a.covs == b.covs; }
static std::string proper(const Iso& T) {
  if (!T.matrix().allFinite()) return "pose is not finite";
  Eigen::Matrix3d R = T.linear();
  if ((R.transpose() * R - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff() > 1e-9 || R.determinant() < 0) return "pose is not a proper rotation";
  if (T.matrix().row(3) != Eigen::RowVector4d(0, 0, 0, 1)) return "last row of the pose is not 0 0 0 1";
  return "";
}
static double dist(const Iso& A, const Iso& B) { return (A.matrix() - B.matrix()).cwiseAbs().maxCoeff(); }

struct KdMaker { std::shared_ptr<KdTree<PointCloud>> t; PointCloud::Ptr c; void build(PointCloud::Ptr p) { c = p; t = std::make_shared<KdTree<PointCloud>>(p); } const PointCloud& pts() const { return *c; } const KdTree<PointCloud>& tree() const { return *t; } };
struct KdOmpMaker { std::shared_ptr<KdTree<PointCloud, NormalProjection>> t; PointCloud::Ptr c; void build(PointCloud::Ptr p) { c = p; t = std::make_shared<KdTree<PointCloud, NormalProjection>>(p, KdTreeBuilderOMP(2)); } const PointCloud& pts() const { return *c; } const KdTree<PointCloud, NormalProjection>& tree() const { return *t; } };
template <typename C> struct VoxMaker {  // one point per voxel: the voxel map represents the cloud exactly
  std::shared_ptr<IncrementalVoxelMap<C>> t;
  void build(PointCloud::Ptr p) { t = std::make_shared<IncrementalVoxelMap<C>>(std::is_same<C, GaussianVoxel>::value ? 0.55 : 0.9); t->set_search_offsets(27); t->insert(*p); }
  const IncrementalVoxelMap<C>& pts() const { return *t; } const IncrementalVoxelMap<C>& tree() const { return *t; }
};

struct SetThreads { template <typename R> static auto set(R& r, int) -> decltype(r.num_threads, void()) { r.num_threads = 2; } template <typename R> static void set(R&, long) {} };
static int g_iters = 20;
template <typename F, typename R, typename O, typename M>
static std::string align_case(uint64_t i, int kind, int mode, bool all) {
  static std::map<int, PointCloud::Ptr> protos; if (!protos.count(kind)) protos[kind] = prepared(make(kind));
  const PointCloud& proto = *protos[kind];
  static auto B = bases();
  seqx::Odo o(i);
  Iso T, init; uint64_t pi = o(NP); T = B[o(B.size())];
  V6 d = perturbation(pi, 0.012, 0.1);
  // target in its own frame; source = T^-1 target (T maps source onto target)
  auto target = std::make_shared<PointCloud>(proto); auto source = moved(proto, T.inverse());
  init = exp_ref(d) * T;
  if (mode == 1) { target = moved(proto, B[2]); source = moved(proto, B[4]); T = B[2] * B[4].inverse(); init = B[2] * exp_ref(d) * B[4].inverse(); }  // common motions of both inputs
  if (mode == 2) { source = std::make_shared<PointCloud>(proto); T = init = Iso::Identity(); }
  if (mode != 0) target = std::make_shared<PointCloud>(*target);
  PointCloud t0 = *target, s0 = *source;
  M mk; mk.build(target);
  Registration<F, R, NullFactor, DistanceRejector, O> reg;
  SetThreads::set(reg.reduction, 0);
  auto res = reg.align(mk.pts(), *source, mk.tree(), init);
  seqx::step(res.iterations + 1);
  SAMPLE(str("true translation ", T.translation().transpose(), " perturbation ", d.transpose(), ": converged=", res.converged, " after ", res.iterations, " iterations, pose error ", dist(res.T_target_source, T)));
  if (!same(*target, t0) || !same(*source, s0)) return "an input cloud was modified";
  std::string m = proper(res.T_target_source); if (!m.empty()) return m;
  const double err = dist(res.T_target_source, T);
  const double tol = 2e-4 * (1 + T.translation().norm() * 0.05);
  seqx::state(seqx::hash_d(seqx::hash_d(kind * 8 + mode, std::round(err * 1e12)), res.iterations));
  if (!res.converged) return str("did not converge from perturbation ", d.transpose(), " (pose error ", err, ", error ", res.error, ", iterations ", res.iterations, ")");
  if (!(err <= tol)) return str("perturbation ", d.transpose(), ": estimated pose differs from the true pose by ", err, "\n", res.T_target_source.matrix(), "\ntrue\n", T.matrix());
  if (res.num_inliers != source->size()) return str(res.num_inliers, " inliers of ", source->size());
  if (!(res.error <= (std::is_same<O, LevenbergMarquardtOptimizer>::value ? 1e-2 : 0.5))) return str("final error ", res.error);
  if (mode == 2 && !(err <= 1e-9)) return str("an aligned pair moves by ", err);
  if (!((res.H - res.H.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * res.H.cwiseAbs().maxCoeff())) return "H is not symmetric";
  return "";
}
// noisy partial copies: conjugation by a common motion (point-to-point and distribution-to-distribution are rotation invariant)
template <typename F, typename O>
static std::string conjugate(uint64_t i) {
  static auto proto = prepared(make(1)); static auto B = bases();
  seqx::Odo o(i); V6 d = perturbation(o(NP), 0.01, 0.08); Iso G = B[1 + o(B.size() - 1)];
  Mix r(i); PointCloud sub; sub.resize(proto->size() / 2);
  for (size_t k = 0; k < sub.size(); k++) { sub.point(k) = proto->point(2 * k) + 0.03 * V4(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1), 0); sub.normal(k) = proto->normal(2 * k); sub.cov(k) = proto->cov(2 * k); }
  auto s1 = moved(sub, exp_ref(d)), t1 = std::make_shared<PointCloud>(*proto), s2 = moved(*s1, G), t2 = moved(*t1, G);
  Registration<F, SerialReduction, NullFactor, DistanceRejector, O> reg;
  reg.criteria.rotation_eps = reg.criteria.translation_eps = 1e-9; reg.optimizer.max_iterations = 60;
  KdTree<PointCloud> k1(t1), k2(t2);
  auto r1 = reg.align(*t1, *s1, k1, Iso::Identity()), r2 = reg.align(*t2, *s2, k2, Iso::Identity());
  seqx::step(r1.iterations + r2.iterations);
  Iso c = G * r1.T_target_source * G.inverse();
  double e = dist(c, r2.T_target_source);
  seqx::state(seqx::hash_d(6, r1.error));
  if (!(e <= 1e-5 * (1 + G.translation().norm()))) return str("moving both inputs by a common motion changes the result by ", e);
  // the target frame alone: T -> G T
  auto r3 = reg.align(*t2, *s1, k2, G);
  if (!(dist(G * r1.T_target_source, r3.T_target_source) <= 1e-5 * (1 + G.translation().norm()))) return "moving target and initial guess changes the result";
  return "";
}
template <typename F, typename R, typename O, typename M>
static void combo(const char* name, bool th, bool wide) {
  for (int kind = 0; kind < 2; kind++) {
    seqx::add(str(name, "/", kind ? "room" : "ball"), NP * 7, [kind](uint64_t i) { return align_case<F, R, O, M>(i, kind, 0, true); }, 120);
    seqx::add(str(name, "/", kind ? "room" : "ball", "/common"), NP, [kind](uint64_t i) { return align_case<F, R, O, M>(i, kind, 1, true); }, 120);
    seqx::add(str(name, "/", kind ? "room" : "ball", "/aligned"), 1, [kind](uint64_t i) { return align_case<F, R, O, M>(i, kind, 2, true); }, 120);
  }
}
int main(int argc, char** argv) {
  const bool th = seqx::thorough(argc, argv);
  if (th) NP = 15625;
  using GN = GaussNewtonOptimizer; using LM = LevenbergMarquardtOptimizer; using S = SerialReduction; using OMP = ParallelReductionOMP; using TBB = ParallelReductionTBB;
#if PART == 1
  combo<ICPFactor, S, LM, KdMaker>("icp/serial/lm/kdtree", th, true);
  combo<PointToPlaneICPFactor, S, LM, KdMaker>("plane/serial/lm/kdtree", th, true);
  combo<GICPFactor, S, LM, KdMaker>("gicp/serial/lm/kdtree", th, true);
  combo<ICPFactor, S, GN, KdMaker>("icp/serial/gn/kdtree", th, false);
  combo<PointToPlaneICPFactor, S, GN, KdMaker>("plane/serial/gn/kdtree", th, false);
  combo<GICPFactor, S, GN, KdMaker>("gicp/serial/gn/kdtree", th, false);
#elif PART == 2
  combo<GICPFactor, S, LM, VoxMaker<GaussianVoxel>>("vgicp/serial/lm", th, true);
  combo<GICPFactor, S, LM, VoxMaker<FlatContainerNormalCov>>("gicp/serial/lm/flatmap", th, false);
  combo<PointToPlaneICPFactor, S, LM, VoxMaker<FlatContainerNormal>>("plane/serial/lm/flatmap", th, false);
  combo<ICPFactor, S, GN, VoxMaker<FlatContainerPoints>>("icp/serial/gn/flatmap", th, false);
#elif PART == 3
  combo<RobustFactor<Huber, GICPFactor>, S, LM, KdMaker>("huber_gicp/serial/lm/kdtree", th, false);
  combo<RobustFactor<Cauchy, ICPFactor>, S, LM, KdMaker>("cauchy_icp/serial/lm/kdtree", th, false);
  seqx::add("conjugate/icp/lm", NP * 6, conjugate<ICPFactor, LM>);
  seqx::add("conjugate/gicp/lm", NP * 6, conjugate<GICPFactor, LM>);
  seqx::add("conjugate/gicp/gn", NP * 6, conjugate<GICPFactor, GN>);
#else
  combo<GICPFactor, OMP, LM, KdOmpMaker>("gicp/omp/lm/kdtree_omp", th, false);
  combo<ICPFactor, OMP, GN, KdMaker>("icp/omp/gn/kdtree", th, false);
  combo<GICPFactor, TBB, LM, KdMaker>("gicp/tbb/lm/kdtree", th, false);
  combo<PointToPlaneICPFactor, TBB, GN, KdMaker>("plane/tbb/gn/kdtree", th, false);
#endif
  return seqx::main("C15", argc, argv);
}
