// C20: SE(3) utilities against a long double closed form (itself cross-checked against the matrix power series) over a full grid of
// axes x angles (incl. every neighbourhood of the series switch-overs) x translations.
#include "seqx.hpp"
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <small_gicp/util/lie.hpp>
using seqx::str; using seqx::Odo; using seqx::step; using seqx::state;
using L = long double;
using M4 = Eigen::Matrix<L, 4, 4>;
using M3 = Eigen::Matrix<L, 3, 3>;
using L3 = Eigen::Matrix<L, 3, 1>;
static bool TH = false;
static M3 hat(const L3& w) { M3 m; m << 0, -w[2], w[1], w[2], 0, -w[0], -w[1], w[0], 0; return m; }
static M4 closed(const Eigen::Matrix<double, 6, 1>& a) {
  L3 w(a[0], a[1], a[2]), t(a[3], a[4], a[5]);
  // avoid underflow of the square: scale first
  L mx = w.cwiseAbs().maxCoeff(), th = mx == 0 ? 0 : mx * (w / mx).norm();
  M3 O = hat(w);
  L A, B, C;
  if (th < 0.5L) {
    L x = th * th; A = B = C = 0; L fa = 1, fb = 0.5L, fc = 1.0L / 6;
    for (int k = 0; k < 16; k++) { A += fa; B += fb; C += fc; fa *= -x / ((2 * k + 2) * (2 * k + 3)); fb *= -x / ((2 * k + 3) * (2 * k + 4)); fc *= -x / ((2 * k + 4) * (2 * k + 5)); }
  } else { A = sinl(th) / th; L s = sinl(th / 2); B = 2 * s * s / (th * th); C = (th - sinl(th)) / (th * th * th); }
  M4 r = M4::Identity();
  r.block<3, 3>(0, 0) = M3::Identity() + A * O + B * O * O;
  r.block<3, 1>(0, 3) = (M3::Identity() + B * O + C * O * O) * t;
  return r;
}
static M4 power(const Eigen::Matrix<double, 6, 1>& a) {
  M4 X = M4::Zero();
  X.block<3, 3>(0, 0) = hat(L3(a[0], a[1], a[2])); X.block<3, 1>(0, 3) = L3(a[3], a[4], a[5]);
  int s = 0; L n = X.cwiseAbs().maxCoeff(); while (n > 0.25L) { n /= 2; s++; }
  X *= powl(0.5L, s);
  M4 E = M4::Identity(), T = E;
  for (int k = 1; k < 26; k++) { T = T * X / (L)k; E += T; }
  for (; s > 0; s--) E = E * E;
  return E;
}
static std::vector<Eigen::Vector3d> axes() {
  std::vector<Eigen::Vector3d> v;
  for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) if (x || y || z) v.push_back(Eigen::Vector3d(x, y, z).normalized());
  for (auto a : {Eigen::Vector3d(1, 2, -3), Eigen::Vector3d(-0.1, 5, 0.2), Eigen::Vector3d(1, 1e-6, 0), Eigen::Vector3d(1e-9, -1e-9, 1)}) v.push_back(a.normalized());
  return v;
}
static std::vector<double> angles() {
  std::vector<double> v = {0.0, 5e-324, 1e-310, 1e-200, 1e-155, 1e-100, 1e-30};
  for (int e = -20; e <= 3; e++) for (double m : {1.0, 0.999, 1.001, 2.0, 3.1, 5.0, 7.3}) v.push_back(m * std::pow(10.0, e));
  for (double b : {1e-10, 1e-5, 1e-4, 1e-3}) for (int k = -3; k <= 3; k++) { double x = b; for (int q = 0; q < std::abs(k); q++) x = std::nextafter(x, k < 0 ? 0.0 : 1.0); v.push_back(x); v.push_back(b * (1 + 1e-3 * k)); }
  for (int k = 1; k <= 16; k++) for (double d : {0.0, 1e-15, -1e-15, 1e-12, -1e-9, 1e-6, 1e-3, -0.1}) v.push_back(k * M_PI / 2 * (1 + d));
  for (int k = 1; k <= (TH ? 2000 : 200); k++) v.push_back(k * 0.0371);
  return v;
}
static std::vector<Eigen::Vector3d> trans() {
  std::vector<Eigen::Vector3d> v = {Eigen::Vector3d(0, 0, 0), Eigen::Vector3d(1, 0, 0), Eigen::Vector3d(0, 1, 0), Eigen::Vector3d(0, 0, 1), Eigen::Vector3d(-3, 0.5, 2), Eigen::Vector3d(1e5, -2e5, 3e4), Eigen::Vector3d(1e-9, 2e-9, -1e-9)};
  return v;
}
static std::vector<Eigen::Vector3d> AX; static std::vector<double> AN; static std::vector<Eigen::Vector3d> TR;
static double tolr(double th) { return 2e-15 + 2e-15 * th; }
static double tolt(double th, double t) { return t * (1e-14 + 4e-15 * th + (th > 0 ? std::min(th, 4e-16 / th) : 0)); }
static Eigen::Matrix<double, 6, 1> twist(const Eigen::Vector3d& w, const Eigen::Vector3d& t) { Eigen::Matrix<double, 6, 1> a; a << w, t; return a; }

static std::string exp1(uint64_t i) {
  Odo o(i);
  double th = AN[o(AN.size())]; Eigen::Vector3d ax = AX[o(AX.size())], t = TR[o(TR.size())];
  Eigen::Vector3d w = th * ax;
  auto a = twist(w, t), before = a;
  Eigen::Isometry3d T = small_gicp::se3_exp(a);
  step();
  std::string d = str("se3_exp(", w.transpose(), " | ", t.transpose(), ")");
  SAMPLE(d + str(" translates by ", T.translation().transpose()));
  if (a != before) return d + " modified its argument";
  if (!T.matrix().allFinite()) return d + " is not finite";
  if (T.matrix().row(3) != Eigen::RowVector4d(0, 0, 0, 1)) return d + ": last row is not 0 0 0 1";
  double e = (T.linear().transpose() * T.linear() - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff();
  if (e > 1e-14) return str(d, ": rotation not orthonormal, defect ", e);
  if (std::abs(T.linear().determinant() - 1) > 1e-14) return str(d, ": determinant ", T.linear().determinant());
  M4 R = closed(a);
  double er = (T.matrix().cast<L>() - R).block<3, 3>(0, 0).cwiseAbs().maxCoeff(), et = (T.matrix().cast<L>() - R).block<3, 1>(0, 3).cwiseAbs().maxCoeff();
  if (er > tolr(th)) return str(d, ": rotation differs from the exponential by ", er);
  if (et > tolt(th, t.norm()) + 1e-300) return str(d, ": translation differs from the exponential by ", et);
  if (th < 40 && i % 3 == 0) {  // the oracle itself
    auto u = twist(w, t.norm() > 1 ? Eigen::Vector3d(t / t.norm()) : t);
    double q = (power(u) - closed(u)).cwiseAbs().maxCoeff();
    if (q > 1e-15 * (1 + th)) return str("oracle: closed form and power series differ by ", q, " at ", d);
  }
  Eigen::Quaterniond q = small_gicp::so3_exp(w);
  if (std::abs(q.norm() - 1) > 1e-14) return str("so3_exp(", w.transpose(), ") has norm ", q.norm());
  double eq = (q.toRotationMatrix() - T.linear()).cwiseAbs().maxCoeff();
  if (eq > tolr(th)) return str("so3_exp(", w.transpose(), ") differs from se3_exp by ", eq);
  // real part is the cosine of the half angle (double cover: sign matters to callers that interpolate)
  if (std::abs((L)q.w() - cosl((L)w.norm() / 2)) > tolr(th)) return str("so3_exp(", w.transpose(), "): real part ", q.w());
  state(seqx::hash_d(seqx::hash_d(0, T(0, 1)), T(2, 3)));
  return "";
}
// group laws and continuity between neighbouring angles
static std::string laws(uint64_t i) {
  Odo o(i);
  double th = AN[o(AN.size())]; Eigen::Vector3d ax = AX[o(AX.size())], t = TR[o(TR.size())]; int law = o(3);
  if (th > 50) return "";
  Eigen::Vector3d w = th * ax;
  auto a = twist(w, t);
  Eigen::Isometry3d T = small_gicp::se3_exp(a), U, V;
  step();
  double tl = 4 * tolt(th, t.norm()) + 4 * tolr(th) * t.norm() + 1e-14 * t.norm() + 1e-300, rl = 4 * tolr(th);
  const char* n = "";
  if (law == 0) { V = small_gicp::se3_exp(-a) * T; U.setIdentity(); n = "exp(-a) exp(a) != 1"; }
  else if (law == 1) { U = small_gicp::se3_exp(0.5 * a); U = U * U; V = T; tl += 4 * tolt(th / 2, t.norm()); n = "exp(a/2)^2 != exp(a)"; }
  else {
    // continuity: a relative change of 1e-9 of the twist moves the pose by at most that much
    U = small_gicp::se3_exp(a * (1 + 1e-9)); V = T; rl += 2e-9 * th; tl += 2e-9 * t.norm() * (1 + th) + tolt(th, t.norm()); n = "discontinuous";
  }
  double er = (U.linear() - V.linear()).cwiseAbs().maxCoeff(), et = (U.translation() - V.translation()).cwiseAbs().maxCoeff();
  SAMPLE(str("law ", law, " at ", w.transpose(), " | ", t.transpose(), ": deviations ", er, " / ", et, ", allowed ", rl, " / ", tl));
  if (er > rl || et > tl) return str(n, " at ", w.transpose(), " | ", t.transpose(), ": ", er, " / ", et);
  return "";
}
static std::string skw(uint64_t i) {
  Odo o(i);
  auto val = [&](uint64_t k) { static const double s[] = {0, -0.0, 1, -1, 2, -3, 0.1, 1e10, -1e-10}; return s[k]; };
  const int r = TH ? 9 : 7;
  Eigen::Vector3d a, b;
  for (int k = 0; k < 3; k++) a[k] = val(o(r));
  for (int k = 0; k < 3; k++) b[k] = val(o(r));
  Eigen::Matrix3d S = small_gicp::skew(a);
  step();
  SAMPLE(str("skew(", a.transpose(), ") ", b.transpose(), " = ", (S * b).transpose()));
  if (S != -S.transpose()) return str("skew(", a.transpose(), ") is not antisymmetric");
  if (S * b != a.cross(b) && (S * b - a.cross(b)).norm() > 1e-15 * a.norm() * b.norm()) return str("skew(", a.transpose(), ") ", b.transpose(), " = ", (S * b).transpose());
  if (S * a != Eigen::Vector3d::Zero() && (S * a).norm() > 1e-15 * a.squaredNorm()) return "skew(a) a != 0";
  return "";
}
int main(int argc, char** argv) {
  TH = seqx::thorough(argc, argv);
  AX = axes(); AN = angles(); TR = trans();
  uint64_t n = AX.size() * AN.size() * TR.size();
  seqx::add("exponential", n, exp1);
  seqx::add("group-laws", n * 3, laws);
  seqx::add("skew", TH ? 531441 : 117649, skw);
  return seqx::main("C20", argc, argv);
}
