// C16: explicit-state exploration of operation histories of RegistrationPCL. After every alignment of a history the real object is
// compared with the explicit pipeline applied to the latest inputs and settings (tracked by a model of the documented rules).
#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
#include <pcl/console/print.h>
#include "fac.hpp"
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_registration.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/registration/reduction.hpp>
using namespace fac;
using namespace small_gicp;
using Cl = pcl::PointCloud<pcl::PointXYZ>;
using Covs = std::vector<Eigen::Matrix4d>;

static Cl::Ptr world(int id) {  // three clouds of one scene in slightly different frames, of different sizes
  static std::map<int, Cl::Ptr> c;
  if (c.count(id)) return c[id];
  V6 d; d << 0.03 * id, -0.02 * id, 0.04 * id, 0.1 * id, -0.05 * id, 0.08 * id;
  Iso T = exp_ref(d).inverse();
  auto o = Cl::Ptr(new Cl); Mix r(4);
  for (int i = 0; i < 48; i++) {
    V4 q = i % 3 == 0 ? V4(r.u(-3, 3), r.u(-3, 3), 5 + r.u(-.02, .02), 1) : i % 3 == 1 ? V4(-3 + r.u(-.02, .02), r.u(-3, 3), 2 + r.u(0, 3), 1) : V4(r.u(-3, 3), 3 + r.u(-.02, .02), 2 + r.u(0, 3), 1);
    if (id && i % (7 - id) == 0) continue;
    q = T.matrix() * q; o->push_back(pcl::PointXYZ(q[0], q[1], q[2]));
  }
  return c[id] = o;
}
static const Covs& computed(int id, int k) {
  static std::map<std::pair<int, int>, Covs> m;
  auto it = m.find({id, k}); if (it != m.end()) return it->second;
  Covs v; PointCloudProxy<pcl::PointXYZ> p(*world(id), v); KdTree<Cl> t(world(id)); estimate_covariances(p, t, k);
  return m[{id, k}] = v;
}
static Covs provided(int id, int which) {
  auto C = covs(); Covs v(world(id)->size());
  for (size_t i = 0; i < v.size(); i++) { v[i].setZero(); v[i].topLeftCorner<3, 3>() = C[(i + which) % 3 + 1]; }
  return v;
}
struct Side { int cloud = -1; int cov = 0; /* 0 none, k>=5 computed with k, -1/-2 provided set */ };
struct Model {
  Side s, t; int k = 20, type = 0; double res = 1.0, rot = 2e-3, trans = 5e-4, maxd = 1000; int iters = 10;
  std::string key(int guess) const { return str(s.cloud, ",", s.cov, ",", t.cloud, ",", t.cov, ",", type, ",", type ? res : 0, ",", rot, ",", trans, ",", maxd, ",", iters, ",", guess); }
};
static const Covs& cov_of(const Side& s) {
  if (s.cov > 0) return computed(s.cloud, s.cov);
  static std::map<std::pair<int, int>, Covs> m; auto& v = m[{s.cloud, s.cov}]; if (v.empty()) v = provided(s.cloud, -s.cov); return v;
}
static Iso guess_of(int g) { V6 d; d << 0.01, 0.02, -0.01, 0.05, 0.03, -0.02; return g ? exp_ref(d) : Iso::Identity(); }
struct Ref { RegistrationResult r; double fit; };
static const Ref& reference(const Model& m, int g) {
  static std::map<std::string, Ref> cache;
  auto key = m.key(g); auto it = cache.find(key); if (it != cache.end()) return it->second;
  auto sc = cov_of(m.s), tc = cov_of(m.t); auto S = world(m.s.cloud), T = world(m.t.cloud);
  PointCloudProxy<pcl::PointXYZ> sp(*S, sc), tp(*T, tc);
  Registration<GICPFactor, SerialReduction> reg;
  reg.criteria.rotation_eps = m.rot; reg.criteria.translation_eps = m.trans; reg.rejector.max_dist_sq = m.maxd * m.maxd; reg.optimizer.max_iterations = m.iters;
  Iso G(guess_of(g).matrix().cast<float>().cast<double>());
  Ref x;
  if (m.type == 0) { KdTree<Cl> tree(T); x.r = reg.align(tp, sp, tree, G); }
  else { GaussianVoxelMap vm(m.res); vm.insert(tp); x.r = reg.align(vm, sp, vm, G); }
  x.fit = 0; Eigen::Matrix4d M = x.r.T_target_source.matrix().cast<float>().cast<double>();
  for (auto& p : *S) { V4 q = M * p.getVector4fMap().cast<double>(); double b = 1e300; for (auto& t : *T) b = std::min(b, d2(t.getVector4fMap().cast<double>(), q)); x.fit += b / S->size(); }
  return cache[key] = x;
}
static bool eq(const Covs& a, const Covs& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!((a[i] - b[i]).cwiseAbs().maxCoeff() <= 1e-9)) return false; return true; }

enum Op { SRC_A, SRC_B, TGT_B, TGT_C, SWAP, ALIGN0, ALIGN1, GICP_, VGICP_, K10, KBAD, RES_HALF, RES_BAD, SCOV, TCOV, SCOV_BAD, CLR_S, CLR_T, BADTYPE, ITER1, MAXD, EPS, THREADS2, THREADS_BAD, TCOV_BAD, SRC_SAME, RES_1, NOP };
static const char* ON[] = {"setInputSource(A)", "setInputSource(B)", "setInputTarget(B)", "setInputTarget(C)", "swapSourceAndTarget", "align", "align(guess)", "type=GICP", "type=VGICP", "k=10", "k=4", "voxel=0.5", "voxel=-1", "setSourceCovariances", "setTargetCovariances", "setSourceCovariances(wrong size)", "clearSource", "clearTarget", "type=foo", "maxIterations=1", "maxCorrespondenceDistance=0.15", "epsilons=0.05", "threads=2", "threads=0", "setTargetCovariances(wrong size)", "setInputSource(current)", "voxel=1", "nop"};

struct Run {
  RegistrationPCL<pcl::PointXYZ, pcl::PointXYZ> reg; Model m; int naligns = 0;
  std::map<int, Cl> before;
  Run() { reg.setNumThreads(1); for (int i = 0; i < 3; i++) before[i] = *world(i); }
  int side_cloud(const Cl* p) { for (int i = 0; i < 3; i++) if (world(i).get() == p) return i; return -1; }
  void src(int c) { reg.setInputSource(world(c)); if (m.s.cloud != c) m.s = {c, 0}; }
  void tgt(int c) { reg.setInputTarget(world(c)); if (m.t.cloud != c) m.t = {c, 0}; }
  std::string align(int g) {
    Cl out;
    out.push_back(pcl::PointXYZ(9, 9, 9));
    reg.align(out, guess_of(g).matrix().cast<float>());
    if (m.s.cloud < 0 || m.t.cloud < 0) return "";  // PCL refuses
    if (!m.s.cov) m.s.cov = m.k;
    if (!m.t.cov) m.t.cov = m.k;
    naligns++; seqx::step();
    auto& x = reference(m, g);
    seqx::state(std::hash<std::string>()(m.key(g)));
    Eigen::Matrix4d T = reg.getFinalTransformation().cast<double>();
    double e = (T - x.r.T_target_source.matrix()).cwiseAbs().maxCoeff();
    if (!(e <= 2e-5)) return str("pose differs by ", e, " from that of a fresh object");
    if (reg.hasConverged() != x.r.converged) return str("converged=", reg.hasConverged(), ", a fresh object: ", x.r.converged);
    auto& H = reg.getFinalHessian();
    if (!((H - x.r.H).cwiseAbs().maxCoeff() <= 1e-4 * x.r.H.cwiseAbs().maxCoeff())) return "final Hessian differs from that of a fresh object";
    auto& rr = reg.getRegistrationResult();
    if (rr.num_inliers != x.r.num_inliers || !(std::abs(rr.error - x.r.error) <= 1e-6 + 1e-4 * x.r.error) || rr.iterations != x.r.iterations) return str("result (inliers ", rr.num_inliers, ", error ", rr.error, ", iterations ", rr.iterations, ") differs from that of a fresh object (", x.r.num_inliers, ", ", x.r.error, ", ", x.r.iterations, ")");
    if (!((rr.T_target_source.matrix() - T).cwiseAbs().maxCoeff() <= 1e-5)) return "detailed result holds another pose";
    if (!eq(reg.getSourceCovariances(), cov_of(m.s))) return "stored source covariances are not those of the current source";
    if (!eq(reg.getTargetCovariances(), cov_of(m.t))) return "stored target covariances are not those of the current target";
    auto S = world(m.s.cloud);
    if (out.size() != S->size()) return str("output cloud has ", out.size(), " points, the source ", S->size());
    for (size_t i = 0; i < out.size(); i++) { V4 q = T * S->at(i).getVector4fMap().cast<double>(); if (!((q - out[i].getVector4fMap().cast<double>()).cwiseAbs().maxCoeff() <= 1e-4)) return "output cloud is not the source transformed by the final pose"; }
    double f = reg.getFitnessScore();
    if (!(std::abs(f - x.fit) <= 1e-5 + 1e-3 * x.fit)) return str("fitness score ", f, ", expected ", x.fit);
    return "";
  }
  std::string apply(int op) {
    switch (op) {
      case SRC_A: src(0); break; case SRC_B: src(1); break; case TGT_B: tgt(1); break; case TGT_C: tgt(2); break;
      case SRC_SAME: if (m.s.cloud >= 0) src(m.s.cloud); break;
      case SWAP: reg.swapSourceAndTarget(); std::swap(m.s, m.t); break;
      case ALIGN0: return align(0); case ALIGN1: return align(1);
      case GICP_: reg.setRegistrationType("GICP"); m.type = 0; break; case VGICP_: reg.setRegistrationType("VGICP"); m.type = 1; break;
      case BADTYPE: reg.setRegistrationType("foo"); break;
      case K10: reg.setCorrespondenceRandomness(10); m.k = 10; break; case KBAD: reg.setNumNeighborsForCovariance(4); m.k = 5; break;
      case RES_HALF: reg.setVoxelResolution(2.5); m.res = 2.5; break; case RES_BAD: reg.setVoxelResolution(-1); m.res = 1.0; break; case RES_1: reg.setVoxelResolution(1.0); m.res = 1.0; break;
      case SCOV: if (m.s.cloud >= 0) { reg.setSourceCovariances(provided(m.s.cloud, 1)); m.s.cov = -1; } else reg.setSourceCovariances(Covs(3)); break;
      case TCOV: if (m.t.cloud >= 0) { reg.setTargetCovariances(provided(m.t.cloud, 2)); m.t.cov = -2; } else reg.setTargetCovariances(Covs(3)); break;
      case SCOV_BAD: reg.setSourceCovariances(Covs(3, Eigen::Matrix4d::Identity())); break; case TCOV_BAD: reg.setTargetCovariances(Covs(500, Eigen::Matrix4d::Identity())); break;
      case CLR_S: reg.clearSource(); m.s = Side(); break; case CLR_T: reg.clearTarget(); m.t = Side(); break;
      case ITER1: reg.setMaximumIterations(1); m.iters = 1; break;
      case MAXD: reg.setMaxCorrespondenceDistance(0.15); m.maxd = 0.15; break;
      case EPS: reg.setRotationEpsilon(0.05); reg.setTransformationEpsilon(0.05); m.rot = m.trans = 0.05; break;
      case THREADS2: reg.setNumThreads(2); break; case THREADS_BAD: reg.setNumThreads(0); break;
    }
    return "";
  }
};
static std::string history(uint64_t i, int len, const std::vector<int>& A, const std::vector<int>& prefix) {
  seqx::Odo o(i); Run r; std::vector<int> seq = prefix; for (int k = 0; k < len; k++) seq.push_back(A[o(A.size())]);
  seq.push_back(ALIGN0);
  if (seqx::sampling()) { std::string s; for (int q : seq) s += str(s.empty() ? "" : ", ", ON[q]); seqx::sample(s); }
  for (size_t k = 0; k < seq.size(); k++) {
    auto m = r.apply(seq[k]);
    if (m.empty() && k + 1 == seq.size()) for (int c = 0; c < 3; c++) for (size_t j = 0; j < world(c)->size(); j++) if (world(c)->at(j).getVector4fMap() != r.before[c][j].getVector4fMap()) m = "an input cloud was modified";
    if (!m.empty()) { std::string s; for (size_t j = 0; j <= k; j++) s += str(j ? ", " : "", ON[seq[j]]); return "after " + s + ": " + m; }
  }
  return "";
}
// values of one setting that lie close to each other and far from each other: every triple, with an alignment after each
static std::string values(uint64_t i, int what) {
  static const double RES[] = {1.0, 1.001, 1.01, 1.04, 0.96, 1.1, 1.25, 2.0, 2.04, 5.0}, DIST[] = {0.15, 0.151, 0.16, 0.2, 0.3, 0.5, 1.0, 1.05, 2.0, 1e3}, ROT[] = {2e-3, 1e-3, 5e-3, 2e-2, 0.1, 1e-5, 1e-8, 1.0, 3e-3, 0.5};
  seqx::Odo o(i); Run r; r.src(0); r.tgt(1); std::string log;
  if (what == 0) r.apply(VGICP_);
  for (int t = 0; t < 3; t++) {
    int v = o(10); const char* n = "";
    switch (what) {
      case 0: r.reg.setVoxelResolution(RES[v]); r.m.res = RES[v]; n = "voxel=" ; log += str(n, RES[v], " "); break;
      case 1: r.reg.setMaxCorrespondenceDistance(DIST[v]); r.m.maxd = DIST[v]; log += str("maxd=", DIST[v], " "); break;
      case 2: r.reg.setRotationEpsilon(ROT[v]); r.m.rot = ROT[v]; log += str("rotation epsilon=", ROT[v], " "); break;
      case 3: r.reg.setTransformationEpsilon(ROT[v]); r.m.trans = ROT[v]; log += str("translation epsilon=", ROT[v], " "); break;
      case 4: r.reg.setMaximumIterations(v); r.m.iters = v; log += str("iterations=", v, " "); break;
      case 5: r.reg.setCorrespondenceRandomness(5 + v); r.m.k = 5 + v; r.tgt(t % 2 ? 1 : 2); log += str("k=", 5 + v, ", other target "); break;
    }
    auto m = r.align(0); if (!m.empty()) return "after " + log + ": " + m;
    if (t == 1) { auto e = r.apply(SWAP); m = r.align(1); if (!m.empty()) return "after " + log + "swap: " + m; }
  }
  SAMPLE(log);
  return "";
}
static void family(const char* name, std::vector<int> A, int len, std::vector<int> prefix) {
  uint64_t n = 1; for (int k = 0; k < len; k++) n *= A.size();
  seqx::add(str(name, "/len", len), n, [=](uint64_t i) { return history(i, len, A, prefix); });
}
int main(int argc, char** argv) {
  const bool th = seqx::thorough(argc, argv);
  pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
  std::vector<int> all; for (int k = 0; k < NOP; k++) all.push_back(k);
  std::vector<int> ab = {SRC_A, TGT_B};
  family("all", all, th ? 5 : 4, ab);
  family("all/vgicp_aligned", all, th ? 4 : 3, {SRC_A, TGT_B, VGICP_, ALIGN0});
  family("inputs", {SRC_A, SRC_B, TGT_B, TGT_C, SWAP, ALIGN0, CLR_S, CLR_T}, th ? 7 : 5, {VGICP_});
  family("covs", {SCOV, TCOV, SWAP, ALIGN0, K10, SRC_B, TGT_C, VGICP_, GICP_}, th ? 6 : 5, ab);
  family("voxels", {RES_HALF, RES_BAD, RES_1, SWAP, ALIGN1, TCOV, TGT_C, GICP_, VGICP_}, th ? 6 : 5, {SRC_A, TGT_B, VGICP_});
  family("settings", {ITER1, MAXD, EPS, THREADS2, THREADS_BAD, KBAD, BADTYPE, ALIGN1, VGICP_}, th ? 6 : 5, ab);
  static const char* VN[] = {"resolution", "distance", "rotation epsilon", "translation epsilon", "iterations", "neighbours"};
  for (int w = 0; w < 6; w++) seqx::add(str("values/", VN[w]), 1000, [w](uint64_t i) { return values(i, w); });
  return seqx::main("C16", argc, argv);
}
