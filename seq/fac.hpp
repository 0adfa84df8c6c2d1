// Scripted correspondence tree, poses and attribute values for the factor harnesses (C12, C13, C14).
#pragma once
#include "ref.hpp"
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/robust_kernel.hpp>
#include <small_gicp/factors/general_factor.hpp>
#include <small_gicp/registration/rejector.hpp>

// answers every nearest-neighbour query with a scripted target index (or none)
struct OneTree { const small_gicp::PointCloud* target; size_t index; bool found; };
// rejects on demand
struct OneRejector {
  bool reject; mutable int calls = 0; mutable bool ok = true;
  template <typename T, typename S>
  bool operator()(const T&, const S&, const Eigen::Isometry3d&, size_t, size_t, double) const { calls++; return reject; }
};
namespace small_gicp { namespace traits {
template <> struct Traits<OneTree> {
  static size_t knn_search(const OneTree& t, const Eigen::Vector4d& p, size_t, size_t* idx, double* sq) {
    if (!t.found) return 0;
    *idx = t.index; *sq = (t.target->point(t.index) - p).squaredNorm();
    return 1;
  }
};
} }
namespace fac {
using namespace ref;
using M6 = Eigen::Matrix<double, 6, 6>;
using V6 = Eigen::Matrix<double, 6, 1>;
using Iso = Eigen::Isometry3d;

// exact exponential, independent of the library
inline Iso exp_ref(const V6& a) {
  Eigen::Matrix4d A = Eigen::Matrix4d::Zero();
  A(0, 1) = -a[2]; A(0, 2) = a[1]; A(1, 0) = a[2]; A(1, 2) = -a[0]; A(2, 0) = -a[1]; A(2, 1) = a[0];
  A.block<3, 1>(0, 3) = a.tail<3>();
  int s = 0; double n = A.cwiseAbs().maxCoeff(); while (n > 0.125) { n *= 0.5; s++; }
  A *= std::pow(0.5, s);
  Eigen::Matrix4d E = Eigen::Matrix4d::Identity(), T = Eigen::Matrix4d::Identity();
  for (int k = 1; k < 24; k++) { T = T * A / k; E += T; }
  for (; s > 0; s--) E = E * E;
  Iso r; r.matrix() = E; r.matrix().row(3) << 0, 0, 0, 1; return r;
}
inline std::vector<Iso> poses(int n) {
  std::vector<Iso> v;
  auto add = [&](double x, double y, double z, double tx, double ty, double tz) { V6 a; a << x, y, z, 0, 0, 0; Iso T = exp_ref(a); T.translation() = Eigen::Vector3d(tx, ty, tz); v.push_back(T); };
  add(0, 0, 0, 0, 0, 0); add(0, 0, M_PI / 2, 1, -2, 3); add(0.3, -0.2, 0.5, -4, 0.5, 0.25); add(M_PI, 0, 0, 0, 0, 0); add(-1.2, 2.1, 0.4, 100, -50, 7);
  add(1e-7, 0, 0, 0, 1e-7, 0); add(0, -M_PI / 2, 0, 0, 0, -3); add(2, 2, 2, 0.1, 0.2, 0.3);
  v.resize(std::min<int>(n, v.size()));
  return v;
}
inline std::vector<Eigen::Vector3d> normals() {
  return {Eigen::Vector3d(1, 0, 0), Eigen::Vector3d(0, 0, -1), Eigen::Vector3d(0.6, 0.8, 0), Eigen::Vector3d(-1, 2, -2) / 3.0, Eigen::Vector3d(0, 0, 0)};
}
inline std::vector<Eigen::Matrix3d> covs() {
  std::vector<Eigen::Matrix3d> v;
  v.push_back(Eigen::Matrix3d::Identity());
  for (auto n : {Eigen::Vector3d(0, 0, 1), Eigen::Vector3d(-0.6, 0, 0.8), Eigen::Vector3d(2.0 / 3, -1.0 / 3, 2.0 / 3)}) v.push_back(Eigen::Matrix3d::Identity() - (1 - 1e-3) * n * n.transpose());
  Eigen::Matrix3d a; a << 2, 0.3, -0.1, 0.3, 0.5, 0.2, -0.1, 0.2, 0.05; a = a * a.transpose() + 1e-3 * Eigen::Matrix3d::Identity(); v.push_back(a);
  return v;
}
struct Problem {
  std::shared_ptr<PointCloud> target, source;
  // target point 0 is a decoy, 1 the correspondence; source point 0 is a decoy, 1 the factor's point
  Problem(const V4& t, const Eigen::Vector3d& n, const Eigen::Matrix3d& ct, const V4& s, const Eigen::Matrix3d& cs) {
    target = cloud({V4(-77, 55, 33, 1), t, V4(9, 9, 9, 1)}); source = cloud({V4(13, -17, 19, 1), s});
    for (size_t i = 0; i < 3; i++) { target->normal(i) = V4(0, 1, 0, 0); target->cov(i).setZero(); target->cov(i).topLeftCorner<3, 3>() = 5 * Eigen::Matrix3d::Identity(); }
    for (size_t i = 0; i < 2; i++) { source->normal(i) = V4(0, 1, 0, 0); source->cov(i).setZero(); source->cov(i).topLeftCorner<3, 3>() = 7 * Eigen::Matrix3d::Identity(); }
    target->normal(1).head<3>() = n; target->cov(1).topLeftCorner<3, 3>() = ct; source->cov(1).topLeftCorner<3, 3>() = cs;
  }
};
enum Kind { ICP, PTPL, GICP };
template <typename F> struct kind_of;
template <> struct kind_of<small_gicp::ICPFactor> { static constexpr int v = ICP; };
template <> struct kind_of<small_gicp::PointToPlaneICPFactor> { static constexpr int v = PTPL; };
template <> struct kind_of<small_gicp::GICPFactor> { static constexpr int v = GICP; };

// reference: weighted residual of the factor, error = 0.5 r' W r.  W is fixed at the linearization pose.
inline Eigen::Matrix3d weight(int kind, const Problem& p, const Iso& T0, size_t ti = 1, size_t si = 1) {
  if (kind == ICP) return Eigen::Matrix3d::Identity();
  if (kind == PTPL) { Eigen::Matrix3d W = Eigen::Matrix3d::Zero(); W.diagonal() = p.target->normal(ti).head<3>().cwiseAbs2(); return W; }
  Eigen::Matrix3d R = T0.linear();
  Eigen::Matrix3d S = p.target->cov(ti).topLeftCorner<3, 3>() + R * p.source->cov(si).topLeftCorner<3, 3>() * R.transpose();
  return S.fullPivLu().inverse();
}
inline Eigen::Vector3d residual(const Problem& p, const Iso& T, size_t ti = 1, size_t si = 1) {
  Eigen::Vector3d s = p.source->point(si).head<3>(), t = p.target->point(ti).head<3>();
  return t - (T.linear() * s + T.translation());
}
// exact Jacobian of the residual w.r.t. T exp(delta) at delta = 0, column by column
inline Eigen::Matrix<double, 3, 6> jacobian(const Problem& p, const Iso& T, size_t si = 1) {
  Eigen::Matrix<double, 3, 6> J; Eigen::Vector3d s = p.source->point(si).head<3>();
  for (int k = 0; k < 3; k++) { Eigen::Vector3d e = Eigen::Vector3d::Unit(k); J.col(k) = -(T.linear() * e.cross(s)); J.col(k + 3) = -(T.linear() * e); }
  return J;
}
}  // namespace fac
