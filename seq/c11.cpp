// C11: estimated normals / covariances are the PCA of the k nearest points.
#include <numeric>
#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
#include "ref.hpp"
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/pcl/pcl_proxy.hpp>
#include <small_gicp/util/normal_estimation.hpp>
using namespace ref;
using namespace small_gicp;
using PclPNC = pcl::PointCloud<pcl::PointNormalCovariance>;

// tree with brute-force answers over an explicit cloud: the estimator must use the tree it is given
struct ListTree {
  Pts p; size_t limit;  // answers at most `limit` neighbours
  size_t knn_search(const V4& q, size_t k, size_t* idx, double* sq) const {
    std::vector<size_t> o(p.size()); std::iota(o.begin(), o.end(), 0);
    std::stable_sort(o.begin(), o.end(), [&](size_t a, size_t b) { return d2(p[a], q) < d2(p[b], q); });
    size_t n = std::min({k, p.size(), limit});
    for (size_t i = 0; i < n; i++) { idx[i] = o[i]; sq[i] = d2(p[o[i]], q); }
    return n;
  }
};

enum { NORMALS = 1, COVS = 2 };
struct Got { V4 n; Eigen::Matrix4d c; };

// nb: index set of the neighbourhood (empty: ambiguous because of ties, only the format is checked)
static std::string check_point(const Pts& p, size_t i, const std::vector<size_t>& nb, bool enough, bool ambiguous, int what, const Got& g, double feps) {
  if (!enough) {
    if ((what & NORMALS) && !(g.n.array() == 0).all()) return str("normal ", g.n.transpose(), " with fewer than five neighbours");
    Eigen::Matrix4d I = Eigen::Matrix4d::Identity(); I(3, 3) = 0;
    if ((what & COVS) && !(g.c.array() == I.array()).all()) return "covariance is not the identity with fewer than five neighbours";
    return "";
  }
  Eigen::Matrix3d C = Eigen::Matrix3d::Zero(); double lmin = 0, lmax = 0, ctol = 0;
  if (!ambiguous) {
    Eigen::Matrix<long double, 3, 1> m(0, 0, 0); Eigen::Matrix<long double, 3, 3> L; L.setZero();
    for (size_t j : nb) m += p[j].head<3>().cast<long double>();
    m /= nb.size();
    double mag = 0;
    for (size_t j : nb) { auto d = (p[j].head<3>().cast<long double>() - m).eval(); L += d * d.transpose(); mag = std::max(mag, p[j].head<3>().squaredNorm()); }
    C = (L / nb.size()).cast<double>();
    Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(C);
    lmin = es.eigenvalues()[0]; lmax = es.eigenvalues()[2];
    ctol = 1e-14 * mag * nb.size() + 1e-6 * lmax + 1e-300;
  }
  auto is_min_dir = [&](const Eigen::Vector3d& n) -> std::string {
    if (ambiguous) return "";
    double r = n.dot(C * n);
    if (!(r <= lmin + ctol)) return str("direction ", n.transpose(), " has variance ", r, " in its neighbourhood, the smallest is ", lmin, " (largest ", lmax, ", ", nb.size(), " points)");
    return "";
  };
  if (what & NORMALS) {
    if (g.n[3] != 0) return str("normal has homogeneous component ", g.n[3]);
    if (!(std::abs(g.n.norm() - 1) <= 1e-9 + feps)) return str("normal has length ", g.n.norm());
    if (!(p[i].head<3>().dot(g.n.head<3>()) <= (1e-12 + feps) * p[i].head<3>().norm())) return str("normal ", g.n.transpose(), " points away from the origin at ", p[i].transpose());
    auto m = is_min_dir(g.n.head<3>()); if (!m.empty()) return "normal: " + m;
  }
  if (what & COVS) {
    if (!(g.c.row(3).array() == 0).all() || !(g.c.col(3).array() == 0).all()) return "covariance has a nonzero homogeneous part";
    Eigen::Matrix3d c = g.c.topLeftCorner<3, 3>();
    if (!((c - c.transpose()).cwiseAbs().maxCoeff() <= 1e-12 + feps)) return "covariance is not symmetric";
    Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> ec(c);
    if (!((ec.eigenvalues() - Eigen::Vector3d(1e-3, 1, 1)).cwiseAbs().maxCoeff() <= 1e-7 + 4 * feps)) return str("covariance eigenvalues ", ec.eigenvalues().transpose());
    auto m = is_min_dir(ec.eigenvectors().col(0)); if (!m.empty()) return "covariance: " + m;
    if ((what & NORMALS) && !((c * g.n.head<3>() - 1e-3 * g.n.head<3>()).norm() <= 1e-7 + 4 * feps)) return "covariance and normal disagree";
  }
  return "";
}

template <typename C> static Got get(const C& c, size_t i, int what) {
  Got g; g.n.setZero(); g.c.setZero();
  if (what & NORMALS) g.n = traits::normal(c, i);
  if (what & COVS) g.c = traits::cov(c, i);
  return g;
}

// neighbourhood of point i as the tree of the estimator sees it
static void neighbourhood(const Pts& p, size_t i, int k, std::vector<size_t>& nb, bool& ambiguous) {
  std::vector<size_t> o(p.size()); std::iota(o.begin(), o.end(), 0);
  std::sort(o.begin(), o.end(), [&](size_t a, size_t b) { return d2(p[a], p[i]) < d2(p[b], p[i]); });
  size_t n = std::min<size_t>(k, p.size());
  double s = scale(p, p[i]);
  ambiguous = n < p.size() && d2(p[o[n]], p[i]) - d2(p[o[n - 1]], p[i]) <= 1e-12 * s * s;
  nb.assign(o.begin(), o.begin() + n);
}

static int g_what[3] = {NORMALS, COVS, NORMALS | COVS};
template <typename C, typename T> static void estimate(C& c, T& tree, int what, int k) {
  if (what == NORMALS) estimate_normals(c, tree, k); else if (what == COVS) estimate_covariances(c, tree, k); else estimate_normals_covariances(c, tree, k);
}
template <typename C> static void estimate(C& c, int what, int k) {
  if (what == NORMALS) estimate_normals(c, k); else if (what == COVS) estimate_covariances(c, k); else estimate_normals_covariances(c, k);
}

// variant: 0 own tree, 1 UnsafeKdTree, 2 KdTree with random-axis projection, 3 list tree limited to few answers, 4 tree of another (denser) cloud is covered by listtree family, 5 float cloud
static std::string run(const Pts& in, int k, int what, int variant, size_t limit = 1000000) {
  seqx::step();
  std::vector<Got> got(in.size()); Pts p = in; double feps = 0;
  std::string m;
  if (variant == 5) {
    PclPNC c; c.resize(in.size());
    for (size_t i = 0; i < in.size(); i++) { c[i].getVector4fMap() = in[i].cast<float>(); c[i].getNormalVector4fMap().setConstant(7); c[i].getCovariance4fMap().setConstant(7); }
    for (size_t i = 0; i < in.size(); i++) p[i] = traits::point(c, i);
    estimate(c, what, k);
    for (size_t i = 0; i < in.size(); i++) { got[i] = get(c, i, what); if (traits::point(c, i) != p[i]) return "a point was modified"; }
    feps = 1e-6;
  } else {
    auto c = cloud(in);
    for (size_t i = 0; i < in.size(); i++) { c->normal(i).setConstant(7); c->cov(i).setConstant(7); }
    if (variant == 0) estimate(*c, what, k);
    else if (variant == 1) { UnsafeKdTree<PointCloud> t(*c); estimate(*c, t, what, k); }
    else if (variant == 2) { KdTree<PointCloud, NormalProjection> t(c); estimate(*c, t, what, k); }
    else { ListTree t{in, limit}; estimate(*c, t, what, k); }
    if (c->size() != in.size() || c->normals.size() != in.size() || c->covs.size() != in.size()) return "sizes changed";
    for (size_t i = 0; i < in.size(); i++) {
      got[i] = get(*c, i, what);
      if (memcmp(c->point(i).data(), in[i].data(), 32)) return "a point was modified";
      if (!(what & NORMALS) && !(c->normal(i).array() == 7).all()) return "covariance estimation changed a normal";
      if (!(what & COVS) && !(c->cov(i).array() == 7).all()) return "normal estimation changed a covariance";
    }
  }
  uint64_t h = k * 4 + what;
  for (size_t i = 0; i < p.size(); i++) {
    std::vector<size_t> nb; bool amb = false;
    if (variant == 3) { nb.resize(std::min<size_t>({(size_t)k, p.size(), limit})); std::vector<double> d(nb.size() + 1); nb.resize(nb.size() + 1); size_t n = ListTree{p, limit}.knn_search(p[i], k, nb.data(), d.data()); nb.resize(n); }
    else neighbourhood(p, i, k, nb, amb);
    m = check_point(p, i, nb, nb.size() >= 5, amb, what, got[i], feps);
    if (!m.empty()) return str("n=", p.size(), " k=", k, " variant=", variant, " attributes=", what, " point ", i, ": ", m);
    for (int j = 0; j < 3; j++) h = seqx::mix(h, (int64_t)std::llround(got[i].n[j] * 1e4) + (int64_t)std::llround(got[i].c(0, j) * 1e4) * 7);
  }
  seqx::state(h);
  return "";
}

int main(int argc, char** argv) {
  const bool th = seqx::thorough(argc, argv);
  // every 5- (6-) element subset of a 3x3x3 lattice, at three placements relative to the origin
  static std::vector<V4> G; for (int i = 0; i < 27; i++) G.push_back(V4(i % 3, i / 3 % 3, i / 9, 1));
  static const std::vector<V4> OFF = {V4(-1, -1, -1, 0), V4(5, 0.25, -3, 0), V4(-40.5, 30, 0.125, 0)};
  static std::vector<std::vector<int>> subs5, subs6;
  for (int r : {5, 6}) {
    std::vector<int> c(r); std::iota(c.begin(), c.end(), 0);
    for (;;) {
      (r == 5 ? subs5 : subs6).push_back(c);
      int i = r - 1; while (i >= 0 && c[i] == 27 - r + i) i--;
      if (i < 0) break;
      c[i]++; for (int j = i + 1; j < r; j++) c[j] = c[j - 1] + 1;
    }
  }
  auto lattice = [](const std::vector<std::vector<int>>& S, uint64_t i) -> std::string {
    seqx::Odo o(i); auto& s = S[o(S.size())]; auto& off = OFF[o(3)];
    Pts p; for (int k : s) p.push_back(G[k] + off);
    auto m = run(p, 10, NORMALS | COVS, 0);
    if (!m.empty()) { std::string q; for (auto& x : p) q += str(" (", x[0], ",", x[1], ",", x[2], ")"); return m + " cloud:" + q; }
    return m;
  };
  seqx::add("lattice5", subs5.size() * 3, [=](uint64_t i) { return lattice(subs5, i); });
  seqx::add("lattice6", subs6.size() * (th ? 3 : 1), [=](uint64_t i) { return lattice(subs6, i); });
  // fewer than / exactly / more than five answers: every limit and k around the threshold
  seqx::add("threshold", 9 * 9 * 9 * 3 * 3, [](uint64_t i) -> std::string {
    seqx::Odo o(i); size_t n = o(9), limit = o(9); int k = 1 + o(9), what = g_what[o(3)]; int s = std::vector<int>{LATTICE, SHEET, SPHERE}[o(3)];
    return run(shape(s, n), k, what, 3, limit);
  });
  // clouds
  static const std::vector<size_t> NS = th ? std::vector<size_t>{1, 2, 3, 4, 5, 6, 7, 10, 20, 50, 150, 400} : std::vector<size_t>{1, 2, 4, 5, 6, 10, 50, 150};
  static const std::vector<int> KS = {1, 3, 4, 5, 6, 10, 20, 40};
  seqx::add("clouds", (uint64_t)NSHAPE * NS.size() * KS.size() * 3 * 4, [](uint64_t i) -> std::string {
    seqx::Odo o(i); int s = o(NSHAPE); size_t n = NS[o(NS.size())]; int k = KS[o(KS.size())]; int what = g_what[o(3)]; static const int vs[] = {0, 1, 2, 5};
    int v = vs[o(4)];
    SAMPLE(str(shape_name(s), " n=", n, " k=", k, " variant=", v));
    auto m = run(shape(s, n), k, what, v);
    return m.empty() ? m : str(shape_name(s), " ", m);
  });
  // the same shapes from millimetre to kilometre size and placed away from the origin (rounding: coordinate^2 * 1e-16 stays far below the spread of a neighbourhood)
  seqx::add("placed", (uint64_t)NSHAPE * 5 * 4 * 3 * 3 * 2, [](uint64_t i) -> std::string {
    seqx::Odo o(i); int s = o(NSHAPE); const double sc = std::vector<double>{1e-3, 0.05, 1, 40, 2000}[o(5)]; const V4 off = std::vector<V4>{V4(0, 0, 0, 0), V4(300, -200, 10, 0), V4(-1500, 800, 1e3, 0), V4(0, 2e4, -3, 0)}[o(4)] * std::min(sc * 2, 1.0);
    int what = g_what[o(3)]; const size_t n = std::vector<size_t>{6, 30, 120}[o(3)]; const int v = o(2) * 2;
    Pts p = shape(s, n); for (auto& q : p) { q.head<3>() *= sc; q += off; q[3] = 1; }
    auto m = run(p, 10, what, v);
    return m.empty() ? m : str(shape_name(s), " scale=", sc, " at ", off.transpose(), ": ", m);
  });
  // tens of thousands of points, spot-checked everywhere
  seqx::add("large", 2 * 3 * 2, [](uint64_t i) -> std::string {
    seqx::Odo o(i); int s = o(2) ? SPHERE : SHEET; const int what = g_what[o(3)]; const int k = o(2) ? 20 : 300; const size_t n = 70001;
    Pts p = shape(s, n); auto c = cloud(p);
    for (size_t j = 0; j < n; j++) { c->normal(j).setConstant(7); c->cov(j).setConstant(7); }
    estimate(*c, what, k); seqx::step();
    for (size_t j = 0; j < n; j++) if (((what & NORMALS) && c->normal(j)[0] == 7) || ((what & COVS) && c->cov(j)(0, 0) == 7)) return str(n, " points: the attributes of point ", j, " were not estimated");
    for (size_t j = 0; j < n; j += j == 0 ? 65534 : j < 65540 ? 1 : 640) {
      std::vector<size_t> nb; bool amb = false; neighbourhood(p, j, k, nb, amb);
      auto m = check_point(p, j, nb, true, amb, what, get(*c, j, what), 0);
      if (!m.empty()) return str(shape_name(s), " n=", n, " k=", k, " point ", j, ": ", m);
    }
    return "";
  }, 300);
  // planes through every orientation of a grid: the normal is the plane normal
  seqx::add("planes", 7 * 7 * 7 * 4 * 3, [](uint64_t i) -> std::string {
    seqx::Odo o(i); Eigen::Vector3d n((int)o(7) - 3, (int)o(7) - 3, (int)o(7) - 3); double off = std::vector<double>{0.0, 0.5, 30, -1000}[o(4)]; int what = g_what[o(3)];
    if (n.norm() < 0.5) return "";
    n.normalize(); Eigen::Vector3d a = n.unitOrthogonal(), b = n.cross(a);
    Pts p; Mix r(i + 3);
    for (int k = 0; k < 12; k++) { Eigen::Vector3d x = n * off + a * r.u(-2, 2) + b * r.u(-2, 2); p.push_back(V4(x[0], x[1], x[2], 1)); }
    auto c = cloud(p);
    estimate(*c, what, 8);
    seqx::step();
    for (size_t k = 0; k < p.size(); k++) {
      if (what & NORMALS) { if (std::abs(std::abs(c->normal(k).head<3>().dot(n)) - 1) > 1e-6) return str("plane normal ", n.transpose(), " offset ", off, ": estimated ", c->normal(k).transpose()); if (off != 0 && c->normal(k).head<3>().dot(n) * off > 0) return "normal points away from the origin"; }
      if (what & COVS) { Eigen::Matrix3d w = Eigen::Matrix3d::Identity() - (1 - 1e-3) * n * n.transpose(); if ((c->cov(k).topLeftCorner<3, 3>() - w).cwiseAbs().maxCoeff() > 1e-5) return str("plane normal ", n.transpose(), " offset ", off, ": covariance\n", c->cov(k)); }
    }
    return run(p, 8, what, 1);
  });
  return seqx::main("C11", argc, argv);
}
