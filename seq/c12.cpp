// C12: factor linearization against an independent reference and numeric differentiation of the factor's own error.
#include "fac.hpp"
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
using namespace fac;
using namespace small_gicp;
#define TRY(x) do { std::string m_ = (x); if (!m_.empty()) return m_; } while (0)
// clouds whose elements are a function of the index: any index of any magnitude is valid
struct Virt { int salt; };
struct VirtTree { size_t index; };
namespace small_gicp { namespace traits {
template <> struct Traits<Virt> {
  static size_t size(const Virt&) { return (size_t)-1; }
  static V4 point(const Virt& v, size_t i) { Mix r(i * 31 + v.salt + (i >> 32) * 7919); double x = r.u(-4, 4), y = r.u(-4, 4), z = r.u(-4, 4); return V4(x, y, z, 1); }
  static V4 normal(const Virt& v, size_t i) { V4 n = point(v, i + 17); n[3] = 0; return n / n.norm(); }
  static Eigen::Matrix4d cov(const Virt& v, size_t i) { V4 n = normal(v, i); Eigen::Matrix4d c = Eigen::Matrix4d::Identity() - 0.9 * n * n.transpose(); c.row(3).setZero(); c.col(3).setZero(); return c; }
};
template <> struct Traits<VirtTree> { static size_t knn_search(const VirtTree& t, const Eigen::Vector4d& p, size_t, size_t* idx, double* sq) { *idx = t.index; *sq = (Traits<Virt>::point(Virt{5}, t.index) - p).squaredNorm(); return 1; } };
} }
static const char* KN[] = {"point-to-point", "point-to-plane", "distribution-to-distribution"};

template <typename F, typename Tree, typename Rej>
static std::string lin_check(F& f, const Problem& p, const Tree& tree, const Iso& T, size_t si, size_t ti, const Rej& rej, double& e_out, const PointCloud* tgt_pts = nullptr) {
  const int kind = kind_of<F>::v;
  M6 H; H.setConstant(-3); V6 b; b.setConstant(-3); double e = -3;
  PointCloud t0 = *p.target, s0 = *p.source;
  bool in = f.linearize(*p.target, *p.source, tree, T, si, rej, &H, &b, &e);
  seqx::step();
  if (!in || !f.inlier()) return "an accepted correspondence is reported as an outlier";
  auto W = weight(kind, p, T, ti, si); auto r = residual(p, T, ti, si); auto J = jacobian(p, T, si);
  M6 Hr = J.transpose() * W * J; V6 br = J.transpose() * (W * r); double er = 0.5 * r.dot(W * r);
  const double sc = W.cwiseAbs().maxCoeff();
  const double mag = std::max(1.0, std::max(p.source->point(si).head<3>().norm(), p.target->point(ti).head<3>().norm()) + T.translation().norm());
  double tH = 1e-9 * (Hr.cwiseAbs().maxCoeff() + sc * 1e-3), tb = 1e-9 * (br.cwiseAbs().maxCoeff() + sc * mag * mag * 1e-3), te = 1e-9 * (er + sc * mag * mag * 1e-4);
  if (!(std::abs(e - er) <= te)) return str("error ", e, ", expected ", er);
  if (!((b - br).cwiseAbs().maxCoeff() <= tb)) return str("gradient ", b.transpose(), ", expected ", br.transpose());
  if (!((H - Hr).cwiseAbs().maxCoeff() <= tH)) return str("Hessian\n", H, "\nexpected\n", Hr);
  if (!((H - H.transpose()).cwiseAbs().maxCoeff() <= tH)) return "Hessian is not symmetric";
  Eigen::SelfAdjointEigenSolver<M6> es(H, Eigen::EigenvaluesOnly);
  if (!(es.eigenvalues()[0] >= -1e-9 * (1e-300 + es.eigenvalues()[5]))) return str("Hessian has eigenvalue ", es.eigenvalues()[0]);
  double e2 = f.error(*p.target, *p.source, T);
  if (!(std::abs(e2 - e) <= te)) return str("re-evaluated error ", e2, " at the linearization pose, linearized error ", e);
  // the error at other poses is the same quadratic form of the moved residual, and b is its numeric gradient
  V6 g;
  for (int k = 0; k < 6; k++) {
    double h = 1e-5;
    V6 d = V6::Unit(k) * h;
    Iso Tp = T * exp_ref(d), Tm = T * exp_ref(-d);
    double ep = f.error(*p.target, *p.source, Tp), em = f.error(*p.target, *p.source, Tm);
    auto rp = residual(p, Tp, ti, si);
    if (!(std::abs(ep - 0.5 * rp.dot(W * rp)) <= 1e-9 * (ep + sc * mag * mag * 1e-4))) return str("error ", ep, " at a moved pose, expected ", 0.5 * rp.dot(W * rp));
    g[k] = (ep - em) / (2 * h);
  }
  if (!((g - b).cwiseAbs().maxCoeff() <= 1e-5 * (b.cwiseAbs().maxCoeff() + sc * mag * mag))) return str("gradient ", b.transpose(), ", numeric ", g.transpose());
  for (size_t i = 0; i < t0.size(); i++) if (t0.point(i) != p.target->point(i) || t0.cov(i) != p.target->cov(i) || t0.normal(i) != p.target->normal(i)) return "target was modified";
  for (size_t i = 0; i < s0.size(); i++) if (s0.point(i) != p.source->point(i) || s0.cov(i) != p.source->cov(i)) return "source was modified";
  e_out = e;
  uint64_t h = kind; for (int k = 0; k < 6; k++) h = seqx::hash_d(h, std::round(b[k] * 1e6)); seqx::state(h);
  return "";
}
template <typename F>
static std::string out_check(F& f, const Problem& p, const OneTree& tree, const OneRejector& rej, const Iso& T, size_t si) {
  M6 H; H.setConstant(-3); V6 b; b.setConstant(-3); double e = -3;
  bool in = f.linearize(*p.target, *p.source, tree, T, si, rej, &H, &b, &e);
  seqx::step();
  if (in || f.inlier()) return "a missing or rejected correspondence is reported as an inlier";
  V6 d; d << 0.1, -0.2, 0.3, 1, 2, 3;
  for (const Iso& X : {T, Iso(T * exp_ref(d)), Iso(Iso::Identity())}) if (f.error(*p.target, *p.source, X) != 0) return str("a rejected factor has error ", f.error(*p.target, *p.source, X));
  return "";
}

static const std::vector<V4>& SP() { static std::vector<V4> v = {V4(0, 0, 0, 1), V4(1, -2, 3, 1), V4(-30.5, 12, 0.25, 1), V4(0, 0, 5, 1)}; return v; }
static const std::vector<Eigen::Vector3d>& RS() { static std::vector<Eigen::Vector3d> v = {{0, 0, 0}, {0.5, 0, 0}, {0, -0.25, 0.125}, {3, -4, 5}, {1e-6, 2e-6, -1e-6}}; return v; }

template <typename F>
static std::string grid(uint64_t i) {
  static auto P = poses(8); static auto N = normals(); static auto C = covs();
  seqx::Odo o(i);
  Iso T = P[o(P.size())]; V4 s = SP()[o(4)]; Eigen::Vector3d r = RS()[o(5)];
  Eigen::Vector3d n = N[0]; Eigen::Matrix3d ct = C[0], cs = C[0];
  if (kind_of<F>::v == PTPL) n = N[o(N.size())];
  if (kind_of<F>::v == GICP) { ct = C[o(C.size())]; cs = C[o(C.size())]; }
  V4 t = T * s; t.head<3>() += r;
  Problem p(t, n, ct, s, cs);
  F f; double e;
  if (f.inlier()) return "a fresh factor is an inlier";
  if (f.error(*p.target, *p.source, T) != 0) return "a fresh factor has an error";
  auto m = lin_check(f, p, OneTree{p.target.get(), 1, true}, T, 1, 1, OneRejector{false}, e);
  SAMPLE(str(KN[kind_of<F>::v], " source ", s.transpose(), " residual ", r.transpose(), " translation ", T.translation().transpose(), ": error ", e));
  return m.empty() ? m : str(KN[kind_of<F>::v], " source ", s.transpose(), " residual ", r.transpose(), ": ", m);
}
// every sequence of correspondence outcomes on one factor object: what a factor reports depends on its last linearization only
template <typename F>
static std::string history(uint64_t i, int len) {
  static auto P = poses(8); static auto N = normals(); static auto C = covs();
  Problem p(V4(1, 2, 3, 1), N[3], C[2], V4(0.5, 2, 2.5, 1), C[4]);
  p.target->point(0) = V4(0, 2, 1, 1); p.target->normal(0).head<3>() = N[2]; p.target->cov(0).topLeftCorner<3, 3>() = C[3];
  F f; std::string tr;
  seqx::Odo o(i);
  for (int k = 0; k < len; k++) {
    int a = o(6); Iso T = P[(k * 3 + a) % 4]; double e;
    tr += "ABRNCX"[a];
    std::string m;
    if (a == 0) m = lin_check(f, p, OneTree{p.target.get(), 1, true}, T, 1, 1, OneRejector{false}, e);
    else if (a == 1) m = lin_check(f, p, OneTree{p.target.get(), 0, true}, T, 1, 0, NullRejector(), e);
    else if (a == 2) m = out_check(f, p, OneTree{p.target.get(), 1, true}, OneRejector{true}, T, 1);
    else if (a == 3) m = out_check(f, p, OneTree{p.target.get(), 1, false}, OneRejector{false}, T, 1);
    else if (a == 4) m = lin_check(f, p, OneTree{p.target.get(), 1, true}, T, 0, 1, OneRejector{false}, e);
    else m = out_check(f, p, OneTree{p.target.get(), 1, false}, OneRejector{true}, T, 0);
    if (!m.empty()) return str(KN[kind_of<F>::v], " after correspondence history ", tr, ": ", m);
    F g = f;  // factors are copied into vectors; a copy reports the same
    if (g.inlier() != f.inlier() || g.error(*p.target, *p.source, P[1]) != f.error(*p.target, *p.source, P[1])) return "a copied factor differs";
  }
  SAMPLE(str("correspondence outcomes in order (A/B: other target point accepted, C: other source point accepted, R: rejected, N: not found, X: not found for the other source point): ", tr));
  return "";
}
// one factor followed along a trajectory: every sequence of small and large pose increments and of in-place changes of the
// correspondence's data; each linearization is that of the present pose and data
template <typename F>
static std::string trajectory(uint64_t i, int len) {
  static auto N = normals(); static auto C = covs(); static const char* NM[] = {"same", "rot 1e-8", "rot 1e-4", "rot 0.03", "rot 0.5", "trans 1e-6", "trans 0.5", "data"};
  Problem p(V4(1, 2, 3, 1), N[3], C[2], V4(0.5, 2, 2.5, 1), C[4]);
  F f; std::string tr; V6 a; a << 0.1, -0.2, 0.3, 0.2, -0.1, 0.3; Iso T = exp_ref(a); seqx::Odo o(i); double e;
  auto rot = [&](double r) { V6 d; d << 0.6 * r, -0.48 * r, 0.64 * r, 0, 0, 0; T = T * exp_ref(d); };
  auto m = lin_check(f, p, OneTree{p.target.get(), 1, true}, T, 1, 1, OneRejector{false}, e); if (!m.empty()) return m;
  for (int k = 0; k < len; k++) {
    int c = o(8); tr += str(k ? ", " : "", NM[c]);
    switch (c) {
      case 1: rot(1e-8); break;
      case 2: rot(1e-4); break;
      case 3: rot(0.03); break;
      case 4: rot(0.5); break;
      case 5: T.translation() += Eigen::Vector3d(1e-6, -2e-6, 1e-6); break;
      case 6: T.translation() += Eigen::Vector3d(0.5, 0.25, -0.5); break;
      case 7: p.target->point(1)[k % 3] += 0.125; p.target->normal(1).head<3>() = N[k % 4]; p.target->cov(1).topLeftCorner<3, 3>() = C[1 + k % 4]; p.source->cov(1).topLeftCorner<3, 3>() = C[1 + (k + 1) % 4]; break;
    }
    m = lin_check(f, p, OneTree{p.target.get(), 1, true}, T, 1, 1, OneRejector{false}, e);
    if (!m.empty()) return str(KN[kind_of<F>::v], " relinearized along ", tr, ": ", m);
  }
  SAMPLE(str(KN[kind_of<F>::v], " relinearized along ", tr));
  return "";
}
// the rejector decides on the true squared distance
template <typename F>
static std::string rejector(uint64_t i) {
  static auto C = covs(); static auto N = normals();
  seqx::Odo o(i);
  double d = std::vector<double>{0, 0.5, 1, 1.0000001, 2, 100}[o(6)], m = std::vector<double>{0, 0.25, 1, 4, 1e9}[o(5)];
  int ax = o(3), tr = o(3);
  V4 s(1, 2, 3, 1), t = s; t[ax] += d;
  Problem p(t, N[3], C[1], s, C[1]);
  DistanceRejector rej; rej.max_dist_sq = m;
  F f; M6 H; V6 b; double e; bool in;
  auto near = cloud({V4(1e3, 1e3, 1e3, 1), t}); near->cov(1) = p.target->cov(1); near->cov(0) = p.target->cov(1); near->normal(1) = near->normal(0) = p.target->normal(1);
  if (tr == 0) in = f.linearize(*p.target, *p.source, OneTree{p.target.get(), 1, true}, Iso::Identity(), 1, rej, &H, &b, &e);
  else if (tr == 1) { UnsafeKdTree<PointCloud> kt(*near); in = f.linearize(*near, *p.source, kt, Iso::Identity(), 1, rej, &H, &b, &e); }
  else { GaussianVoxelMap vm(1000.0); auto one = cloud({t}); one->cov(0) = p.target->cov(1); vm.insert(*one); GICPFactor gf; in = gf.linearize(vm, *p.source, vm, Iso::Identity(), 1, rej, &H, &b, &e); if (in != (t - s).squaredNorm() <= m) return str("voxel map correspondence at squared distance ", d * d, " limit ", m, ": accepted=", in); return ""; }
  seqx::step();
  double sq = (t - s).squaredNorm();
  SAMPLE(str("squared distance ", sq, " limit ", m, ": accepted=", in));
  if (in != (sq <= m) || f.inlier() != in) return str(KN[kind_of<F>::v], " correspondence at squared distance ", sq, " with limit ", m, ": accepted=", in);
  if (NullRejector()(*p.target, *p.source, Iso::Identity(), 1, 1, 1e300)) return "the null rejector rejects";
  seqx::state(seqx::mix(i, in));
  return "";
}
// element numbers of every width, relinearized between them: each value belongs to the elements of the last linearization
template <typename F>
static std::string indices(uint64_t i) {
  static const std::vector<size_t> X = {0, 1, 127, 255, 256, 32767, 32768, 65535, 65536, 70001, (1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, (7ull << 32) + 3, (1ull << 53) + 1, (1ull << 63) + 5};
  seqx::Odo o(i); const size_t t[2] = {X[o(X.size())], X[o(X.size())]}, s[2] = {X[o(X.size())], X[(i + 5) % X.size()]}; const Virt T{5}, S{9};
  F f; V6 a; a << 0.3, -0.2, 0.5, 1, -2, 0.5;
  for (int k = 0; k < 2; k++) {
    Iso P = exp_ref(a * (k + 1)); M6 H; V6 b; double e = -1;
    if (!f.linearize(T, S, VirtTree{t[k]}, P, s[k], NullRejector(), &H, &b, &e) || !f.inlier()) return "rejected";
    seqx::step();
    auto want = [&](const Iso& Q) {
      Eigen::Vector3d r = (traits::point(T, t[k]) - Q * traits::point(S, s[k])).template head<3>(); Eigen::Matrix3d W = Eigen::Matrix3d::Identity();
      if (kind_of<F>::v == PTPL) { Eigen::Vector3d n = traits::normal(T, t[k]).template head<3>(); W = n.cwiseAbs2().asDiagonal(); }
      if (kind_of<F>::v == GICP) W = (traits::cov(T, t[k]).template topLeftCorner<3, 3>() + P.linear() * traits::cov(S, s[k]).template topLeftCorner<3, 3>() * P.linear().transpose()).inverse();
      return 0.5 * r.dot(W * r);
    };
    for (int q = 0; q < 2; q++) {
      Iso Q = q ? P * exp_ref(-0.3 * a) : P; double w = want(Q), g = q ? f.error(T, S, Q) : e, g2 = f.error(T, S, Q);
      if (!(std::abs(g - w) <= 1e-9 * (1 + w)) || !(std::abs(g2 - w) <= 1e-9 * (1 + w))) return str(KN[kind_of<F>::v], " of target element ", t[k], " and source element ", s[k], ": error ", g, " / ", g2, ", expected ", w);
    }
  }
  seqx::state(seqx::mix(23, i)); return "";
}
int main(int argc, char** argv) {
  const bool th = seqx::thorough(argc, argv);
  seqx::add("grid/icp", 8 * 4 * 5, grid<ICPFactor>);
  seqx::add("grid/plane", 8 * 4 * 5 * 5, grid<PointToPlaneICPFactor>);
  seqx::add("grid/gicp", 8 * 4 * 5 * 5 * 5, grid<GICPFactor>);
  const int L = th ? 9 : 8; uint64_t n = 1; for (int k = 0; k < L; k++) n *= 6;
  seqx::add(str("history/icp/len", L), n, [L](uint64_t i) { return history<ICPFactor>(i, L); });
  seqx::add(str("history/plane/len", L), n, [L](uint64_t i) { return history<PointToPlaneICPFactor>(i, L); });
  seqx::add(str("history/gicp/len", L), n, [L](uint64_t i) { return history<GICPFactor>(i, L); });
  const int L2 = th ? 7 : 6; n = 1; for (int k = 0; k < L2; k++) n *= 8;
  seqx::add(str("trajectory/icp/len", L2), n, [L2](uint64_t i) { return trajectory<ICPFactor>(i, L2); });
  seqx::add(str("trajectory/plane/len", L2), n, [L2](uint64_t i) { return trajectory<PointToPlaneICPFactor>(i, L2); });
  seqx::add(str("trajectory/gicp/len", L2), n, [L2](uint64_t i) { return trajectory<GICPFactor>(i, L2); });
  seqx::add("indices/icp", 18 * 18 * 18, indices<ICPFactor>); seqx::add("indices/plane", 18 * 18 * 18, indices<PointToPlaneICPFactor>); seqx::add("indices/gicp", 18 * 18 * 18, indices<GICPFactor>);
  seqx::add("rejector/icp", 6 * 5 * 9, rejector<ICPFactor>);
  seqx::add("rejector/plane", 6 * 5 * 9, rejector<PointToPlaneICPFactor>);
  seqx::add("rejector/gicp", 6 * 5 * 9, rejector<GICPFactor>);
  // wide grid of poses: every triple of rotation angles and residual direction
  static const std::vector<double> A = th ? std::vector<double>{-3, -1.5, -0.5, 0, 1e-6, 0.25, 1, 2, 3} : std::vector<double>{-1.5, 0, 1e-6, 0.5, 2};
  seqx::add("rotations", A.size() * A.size() * A.size() * 25 * 3, [](uint64_t i) -> std::string {
    static auto C = covs(); static auto N = normals();
    seqx::Odo o(i); V6 a; a << A[o(A.size())], A[o(A.size())], A[o(A.size())], 0.5, -1, 2; Iso T = exp_ref(a); auto ct = C[o(5)]; auto n = N[o(5)]; int k = o(3);
    V4 s(2, -1, 0.5, 1), t = T * s; t.head<3>() += Eigen::Vector3d(0.3, -0.2, 0.1);
    Problem p(t, n, ct, s, C[4]); double e;
    OneTree tr{p.target.get(), 1, true};
    if (k == 0) { ICPFactor f; return lin_check(f, p, tr, T, 1, 1, NullRejector(), e); }
    if (k == 1) { PointToPlaneICPFactor f; return lin_check(f, p, tr, T, 1, 1, NullRejector(), e); }
    GICPFactor f; return lin_check(f, p, tr, T, 1, 1, NullRejector(), e);
  });
  return seqx::main("C12", argc, argv);
}
