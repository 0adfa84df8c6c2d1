// C13: robust kernels and general factors compose consistently with the factors they wrap.
#include "fac.hpp"
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/optimizer.hpp>
#include <small_gicp/registration/registration.hpp>
using namespace fac;
using namespace small_gicp;
#define TRY(x) do { std::string m_ = (x); if (!m_.empty()) return m_; } while (0)

static double huber(double c, double e) { e = std::abs(e); return e <= c ? 1.0 : c / e; }
static double cauchy(double c, double e) { return c / (c + e * e); }
template <typename K> struct kern;
template <> struct kern<Huber> { static double w(double c, double e) { return huber(c, e); } static const char* name() { return "Huber"; } };
template <> struct kern<Cauchy> { static double w(double c, double e) { return cauchy(c, e); } static const char* name() { return "Cauchy"; } };

static const std::vector<double> WIDTHS = {1e-3, 0.1, 0.5, 1, 2, 10, 1e4};
template <typename K>
static std::string weights(uint64_t i) {
  seqx::Odo o(i); double c = WIDTHS[o(7)];
  typename K::Setting s; if (K(s).c != 1.0) return "default kernel width is not 1";
  s.c = c; K k(s);
  std::vector<double> es = {0, 1e-300, 1e-9, c * 0.5, c * (1 - 1e-12), c, c * (1 + 1e-12), 2 * c, 1e3 * c, 1e9, 1e150};
  for (int j = 0; j <= 400; j++) es.push_back(c * j * 0.01);
  std::sort(es.begin(), es.end());
  double last = 1;
  for (double e : es) {
    seqx::step();
    double w = k.weight(e), r = kern<K>::w(c, e);
    if (e == c) SAMPLE(str(kern<K>::name(), " c=", c, " weight(", e, ")=", w));
    if (!(w >= 0 && w <= 1)) return str(kern<K>::name(), " c=", c, " weight(", e, ")=", w, " outside [0,1]");
    if (e == 0 && w != 1) return str(kern<K>::name(), " c=", c, " weight(0)=", w);
    if (!(w <= last * (1 + 1e-12))) return str(kern<K>::name(), " c=", c, " weight increases to ", w, " at ", e);
    if (!(std::abs(w - r) <= 1e-12 * r)) return str(kern<K>::name(), " c=", c, " weight(", e, ")=", w, ", expected ", r);
    if (k.weight(-e) != w) return str(kern<K>::name(), " weight depends on the sign of the residual");
    last = w; seqx::state(seqx::hash_d(seqx::hash_d(3, w), c));
  }
  return "";
}

static bool same6(const M6& A, const M6& B, const V6& a, const V6& b, double ea, double eb) {
  auto t = [](double x, double y) { return std::abs(x - y) <= 1e-11 * std::max(std::abs(x), std::abs(y)) + 1e-300; };
  if (!t(ea, eb)) return false;
  double mA = B.cwiseAbs().maxCoeff(), mb = b.cwiseAbs().maxCoeff();
  return (A - B).cwiseAbs().maxCoeff() <= 1e-11 * mA && (a - b).cwiseAbs().maxCoeff() <= 1e-11 * mb;
}
static const std::vector<Eigen::Vector3d> RES = {{0, 0, 0}, {1e-4, 0, 0}, {0.05, -0.02, 0.01}, {0.5, -0.25, 0.125}, {1, 1, -1}, {3, -4, 5}, {1000, 0, -2000}};

template <typename K, typename F>
static std::string wrap(uint64_t i) {
  static auto P = poses(8); static auto N = normals(); static auto C = covs();
  seqx::Odo o(i);
  Iso T = P[o(4)]; double c = WIDTHS[o(7)]; Eigen::Vector3d r = RES[o(7)]; auto n = N[o(N.size())]; auto ct = C[o(3)];
  V4 s(1, -2, 3, 1), t = T * s; t.head<3>() += r;
  Problem p(t, n, ct, s, C[2]);
  typename RobustFactor<K, F>::Setting st; st.robust_kernel.c = c;
  RobustFactor<K, F> f(st); F g;
  if (f.inlier() || f.error(*p.target, *p.source, T) != 0) return "a fresh robust factor is an inlier or has an error";
  OneTree tree{p.target.get(), 1, true};
  M6 H, Hg; V6 b, bg; double e, eg;
  SAMPLE(str(kern<K>::name(), " c=", c, " residual ", r.transpose(), " translation ", T.translation().transpose(), ": correspondences accepted, rejected, accepted, not found"));
  // outcomes in turn: accepted, rejected, accepted, not found
  for (int k = 0; k < 4; k++) {
    seqx::step();
    OneRejector rej{k == 1}; tree.found = k != 3;
    bool a = f.linearize(*p.target, *p.source, tree, T, 1, rej, &H, &b, &e), x = g.linearize(*p.target, *p.source, tree, T, 1, rej, &Hg, &bg, &eg);
    if (a != x || f.inlier() != g.inlier() || a != (k % 2 == 0)) return "the wrapped factor decides differently about the correspondence";
    if (a) {
      double w = kern<K>::w(c, std::sqrt(eg));
      if (!same6(H, w * Hg, b, w * bg, e, w * eg)) return str(kern<K>::name(), " c=", c, " residual ", r.transpose(), ": contribution is not ", w, " times the unweighted one: e=", e, " unweighted ", eg, " b=", b.transpose(), " unweighted ", bg.transpose());
      seqx::state(seqx::hash_d(seqx::hash_d(kind_of<F>::v, e), w));
    }
    for (const Iso& X : {T, P[5], P[1]}) {
      double fe = f.error(*p.target, *p.source, X), ge = g.error(*p.target, *p.source, X), we = kern<K>::w(c, std::sqrt(ge)) * ge;
      if (!a && fe != 0) return str("a rejected robust factor has error ", fe);
      if (!(std::abs(fe - we) <= 1e-11 * we)) return str(kern<K>::name(), " c=", c, ": error ", fe, ", unweighted ", ge, ", expected ", we);
    }
  }
  return "";
}
// a robust factor around a robust factor weighs the inner (already weighted) error
static std::string nested(uint64_t i) {
  seqx::Odo o(i); double c1 = WIDTHS[o(7)], c2 = WIDTHS[o(7)]; Eigen::Vector3d r = RES[o(7)];
  V4 s(1, -2, 3, 1), t = s; t.head<3>() += r;
  Problem p(t, Eigen::Vector3d::UnitX(), Eigen::Matrix3d::Identity(), s, Eigen::Matrix3d::Identity());
  using In = RobustFactor<Cauchy, ICPFactor>; using Out = RobustFactor<Huber, In>;
  Out::Setting st; st.robust_kernel.c = c1; st.factor.robust_kernel.c = c2;
  Out f(st); In g(st.factor);
  M6 H, Hg; V6 b, bg; double e, eg; OneTree tree{p.target.get(), 1, true};
  f.linearize(*p.target, *p.source, tree, Iso::Identity(), 1, NullRejector(), &H, &b, &e); g.linearize(*p.target, *p.source, tree, Iso::Identity(), 1, NullRejector(), &Hg, &bg, &eg);
  seqx::step(); seqx::state(seqx::hash_d(9, e));
  double w = huber(c1, std::sqrt(eg));
  if (!same6(H, w * Hg, b, w * bg, e, w * eg)) return "nested robust factor: inner setting or weight not honoured";
  return "";
}

// ---- general factors
static void system(int k, M6& H, V6& b, double& e) {
  Mix r(k + 11); Eigen::Matrix<double, 9, 6> J; for (int i = 0; i < 9; i++) for (int j = 0; j < 6; j++) J(i, j) = r.u(-1, 1) * (k % 3 == 2 ? 30 : 1);
  H = J.transpose() * J + (k % 2 ? 0.1 : 10) * M6::Identity();
  for (int j = 0; j < 6; j++) b[j] = r.u(-1, 1) * (k % 4 == 3 ? 1e3 : 1);
  e = r.u(0, 10);
}
static std::string restrict_linear(uint64_t i) {
  seqx::Odo o(i); int mask = o(64), sys = o(16), order = o(4); double lam = std::vector<double>{1e9, 1e3, 1e12}[o(3)];
  Problem p(V4(0, 0, 0, 1), Eigen::Vector3d::UnitX(), Eigen::Matrix3d::Identity(), V4(0, 0, 0, 1), Eigen::Matrix3d::Identity());
  OneTree tree{p.target.get(), 1, true};
  RestrictDoFFactor f;
  if (f.lambda < 1e6) return "default restriction is not strong";
  f.lambda = lam;
  Eigen::Array3d rm(mask & 1, mask >> 1 & 1, mask >> 2 & 1), tm(mask >> 3 & 1, mask >> 4 & 1, mask >> 5 & 1);
  if (order == 1) { f.set_rotation_mask(1 - rm); f.set_translation_mask(1 - tm); }  // overwritten below
  if (order % 2) { f.set_translation_mask(tm); f.set_rotation_mask(rm); } else { f.set_rotation_mask(rm); f.set_translation_mask(tm); }
  M6 H, H0; V6 b, b0; double e, e0; system(sys, H, b, e); H0 = H; b0 = b; e0 = e;
  Iso T = poses(8)[sys % 8];
  f.update_linearized_system(*p.target, *p.source, tree, T, &H, &b, &e);
  double x = 1.25; f.update_error(*p.target, *p.source, T, &x);
  seqx::step(); seqx::state(seqx::mix(mask, sys * 4 + 1));
  if (x != 1.25 || e != e0) return "the restriction changes the error";
  if (b != b0) return "the restriction changes the gradient";
  M6 D = M6::Zero(); for (int k = 0; k < 6; k++) if (!(mask >> k & 1)) D(k, k) = lam;
  if (!((H - H0 - D).cwiseAbs().maxCoeff() <= 1e-6 * lam * 1e-6)) return str("mask ", mask, " (bit k = 1: component k active): Hessian change is\n", H - H0);
  NullFactor nf; M6 H1 = H0; V6 b1 = b0; double e1 = e0, x1 = 1.25;
  nf.update_linearized_system(*p.target, *p.source, tree, T, &H1, &b1, &e1); nf.update_error(*p.target, *p.source, T, &x1);
  if (H1 != H0 || b1 != b0 || e1 != e0 || x1 != 1.25) return "the null factor changes the problem";
  return "";
}
// records every update the optimizer proposes and accepts
struct RecCriteria { TerminationCriteria c; std::vector<V6>* log; bool converged(const V6& d) const { log->push_back(d); return c.converged(d); } };
static M6 mask_free(const M6& H, int mask) { M6 A = M6::Identity(); for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) if ((mask >> i & 1) && (mask >> j & 1)) A(i, j) = H(i, j); return A; }

template <typename F, typename Opt>
static std::string restrict_align(uint64_t i) {
  seqx::Odo o(i); int mask = o(64), pose = o(4), viaT = o(2);
  Pts tp = shape(SHEET, 120), sp; V6 d;
  Mix r(99); for (int k = 0; k < 30; k++) tp.push_back(V4(r.u(-3, 3), 4 + 0.1 * r.u(-1, 1), 6 + r.u(-2, 2), 1));
  if (pose == 0) d << 0.02, -0.03, 0.05, 0.1, -0.05, 0.08; else if (pose == 1) d << 0, 0, 0.08, 0.2, 0, 0; else if (pose == 2) d << -0.05, 0.05, 0, 0, 0.1, -0.1; else d.setZero();
  Iso T = exp_ref(d); for (auto& q : tp) sp.push_back(T.inverse() * q);
  auto tc = cloud(tp), sc = cloud(sp); for (auto& c : {tc, sc}) for (size_t k = 0; k < c->size(); k++) { c->normal(k) = V4(0.6, 0, 0.8, 0); c->cov(k).setIdentity(); c->cov(k)(3, 3) = 0; }
  KdTree<PointCloud> tree(tc);
  RestrictDoFFactor f; f.set_rotation_mask(Eigen::Array3d(mask & 1, mask >> 1 & 1, mask >> 2 & 1)); f.set_translation_mask(Eigen::Array3d(mask >> 3 & 1, mask >> 4 & 1, mask >> 5 & 1));
  std::vector<V6> log; RegistrationResult res;
  if (viaT == 0) {
    RecCriteria crit; crit.log = &log; SerialReduction red; Opt opt; std::vector<F> factors(sc->size(), F());
    DistanceRejector rej; NullFactor nf;
    res = opt.optimize(*tc, *sc, tree, rej, crit, red, Iso::Identity(), factors, f);
    seqx::step(log.size());
    if (!log.empty()) SAMPLE(str("mask ", mask, ": ", log.size(), " updates, the first is ", log[0].transpose()));
    for (auto& x : log) for (int k = 0; k < 6; k++) if (!(mask >> k & 1) && !(std::abs(x[k]) <= 2e-5)) return str("mask ", mask, ": restricted component ", k, " of an update is ", x[k]);
    for (auto& x : log) for (int k = 0; k < 6; k++) seqx::state(seqx::hash_d(k, x[k]));
    if (mask == 63) {  // nothing restricted: identical to the null factor
      std::vector<F> f2(sc->size(), F()); std::vector<V6> l2; crit.log = &l2;
      auto r2 = opt.optimize(*tc, *sc, tree, rej, crit, red, Iso::Identity(), f2, nf);
      if (l2 != log || r2.error != res.error) return "an all-active restriction changes the optimization";
    }
  } else {
    Registration<F, SerialReduction, RestrictDoFFactor, DistanceRejector, Opt> reg; reg.general_factor = f;
    res = reg.align(*tc, *sc, tree, Iso::Identity());
    // rotations only / translations only: the final pose itself shows the restriction
    if (!(mask & 7) && !((res.T_target_source.linear() - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff() < 1e-3)) return str("mask ", mask, ": rotation is restricted but the pose rotates:\n", res.T_target_source.matrix());
    if (!(mask & 63) && !(res.T_target_source.translation().norm() < 1e-3)) return str("mask ", mask, ": everything is restricted but the pose moves:\n", res.T_target_source.matrix());
    if (!(mask & 0x38) && (mask & 7) == 0 && !(res.T_target_source.translation().norm() < 1e-3)) return "translation moves";
    if (!res.T_target_source.matrix().allFinite()) return "pose is not finite";
    seqx::step();
  }
  return "";
}

int main(int argc, char** argv) {
  const bool th = seqx::thorough(argc, argv);
  seqx::add("weights/huber", 7, weights<Huber>);
  seqx::add("weights/cauchy", 7, weights<Cauchy>);
  const uint64_t W = 4 * 7 * 7 * 5 * 3;
  seqx::add("wrap/huber/icp", W, wrap<Huber, ICPFactor>);
  seqx::add("wrap/huber/plane", W, wrap<Huber, PointToPlaneICPFactor>);
  seqx::add("wrap/huber/gicp", W, wrap<Huber, GICPFactor>);
  seqx::add("wrap/cauchy/icp", W, wrap<Cauchy, ICPFactor>);
  seqx::add("wrap/cauchy/plane", W, wrap<Cauchy, PointToPlaneICPFactor>);
  seqx::add("wrap/cauchy/gicp", W, wrap<Cauchy, GICPFactor>);
  seqx::add("nested", 7 * 7 * 7, nested);
  seqx::add("restrict/linear", 64 * 16 * 4 * 3, restrict_linear);
  const uint64_t R = 64 * 4 * 2;
  seqx::add("restrict/gn/icp", R, restrict_align<ICPFactor, GaussNewtonOptimizer>);
  seqx::add("restrict/lm/icp", R, restrict_align<ICPFactor, LevenbergMarquardtOptimizer>);
  seqx::add("restrict/lm/gicp", R, restrict_align<GICPFactor, LevenbergMarquardtOptimizer>);
  seqx::add("restrict/lm/huber_gicp", R, restrict_align<RobustFactor<Huber, GICPFactor>, LevenbergMarquardtOptimizer>);
  if (th) { seqx::add("restrict/lm/plane", R, restrict_align<PointToPlaneICPFactor, LevenbergMarquardtOptimizer>); seqx::add("restrict/gn/cauchy_plane", R, restrict_align<RobustFactor<Cauchy, PointToPlaneICPFactor>, GaussNewtonOptimizer>); }
  return seqx::main("C13", argc, argv);
}
