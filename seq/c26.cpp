// C26: algorithms see their inputs only through the documented extension points.  Every algorithm is run on the same points in every
// supported and several user-defined containers / search structures / rejectors / general factors / voxel contents, and must give
// what it gives for the library cloud; the user-defined parts check that they are used as documented.
#include "fac.hpp"
#include <omp.h>
#include <small_gicp/points/eigen.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/pcl/pcl_proxy.hpp>
using namespace ref; using namespace fac;
using namespace small_gicp; using seqx::Odo;
using M4 = Eigen::Matrix4d;
using Pcl = pcl::PointCloud<pcl::PointNormalCovariance>;
using PclXYZ = pcl::PointCloud<pcl::PointXYZ>;
#define TRY(x) do { std::string m_ = (x); if (!m_.empty()) return m_; } while (0)

// ---- contract violations noticed by the user-defined parts
static std::atomic<int> g_bad{0}; static char g_msg[256];
static void bad(const char* m, double v = 0) { if (!g_bad.exchange(1)) snprintf(g_msg, sizeof g_msg, "%s (%.17g)", m, v); }
static std::string contract() { return g_bad ? str("documented interface misused: ", g_msg) : ""; }

// user-defined cloud: structure of arrays, everything by value, remembers what was written
struct Strict {
  std::vector<double> x, y, z, n; std::vector<Eigen::Matrix3d> c; std::vector<char> wp, wn, wc; bool ro = false;
  size_t size() const { return x.size(); }
};
// user-defined read-only cloud without attributes, points packed in one array
struct Packed { std::vector<double> d; };
namespace small_gicp { namespace traits {
template <> struct Traits<Strict> {
  static size_t size(const Strict& s) { return s.x.size(); }
  static bool has_points(const Strict& s) { return !s.x.empty(); }
  static bool has_normals(const Strict& s) { return !s.x.empty(); }
  static bool has_covs(const Strict& s) { return !s.x.empty(); }
  static Eigen::Vector4d point(const Strict& s, size_t i) {
    if (i >= s.x.size()) { bad("point() beyond the end", i); return Eigen::Vector4d::Zero(); }
    if (!s.wp[i]) bad("point() of an element that was never set", i);
    return Eigen::Vector4d(s.x[i], s.y[i], s.z[i], 1);
  }
  static Eigen::Vector4d normal(const Strict& s, size_t i) {
    if (i >= s.x.size()) { bad("normal() beyond the end", i); return Eigen::Vector4d::Zero(); }
    if (!s.wn[i]) bad("normal() of an element that was never set", i);
    return Eigen::Vector4d(s.n[3 * i], s.n[3 * i + 1], s.n[3 * i + 2], 0);
  }
  static Eigen::Matrix4d cov(const Strict& s, size_t i) {
    Eigen::Matrix4d m = Eigen::Matrix4d::Zero();
    if (i >= s.x.size()) { bad("cov() beyond the end", i); return m; }
    if (!s.wc[i]) bad("cov() of an element that was never set", i);
    m.topLeftCorner<3, 3>() = s.c[i]; return m;
  }
  static void resize(Strict& s, size_t n) {
    if (s.ro) bad("resize() of an input");
    s.x.resize(n, 1e30); s.y.resize(n, 1e30); s.z.resize(n, 1e30); s.n.resize(3 * n, 1e30); s.c.resize(n, Eigen::Matrix3d::Constant(1e30)); s.wp.resize(n, 0); s.wn.resize(n, 0); s.wc.resize(n, 0);
  }
  static void set_point(Strict& s, size_t i, const Eigen::Vector4d& p) {
    if (s.ro) bad("set_point() on an input");
    if (i >= s.x.size()) return bad("set_point() beyond the end", i);
    if (!(std::abs(p[3] - 1.0) <= 1e-12)) bad("set_point() with a homogeneous coordinate other than one", p[3]);
    s.x[i] = p[0]; s.y[i] = p[1]; s.z[i] = p[2]; s.wp[i] = 1;
  }
  static void set_normal(Strict& s, size_t i, const Eigen::Vector4d& p) {
    if (s.ro) bad("set_normal() on an input");
    if (i >= s.x.size()) return bad("set_normal() beyond the end", i);
    if (p[3] != 0.0) bad("set_normal() with a homogeneous coordinate other than zero", p[3]);
    for (int k = 0; k < 3; k++) s.n[3 * i + k] = p[k];
    s.wn[i] = 1;
  }
  static void set_cov(Strict& s, size_t i, const Eigen::Matrix4d& c) {
    if (s.ro) bad("set_cov() on an input");
    if (i >= s.x.size()) return bad("set_cov() beyond the end", i);
    if ((c.row(3).array() != 0).any() || (c.col(3).array() != 0).any()) bad("set_cov() with a nonzero homogeneous row or column");
    s.c[i] = c.topLeftCorner<3, 3>(); s.wc[i] = 1;
  }
};
template <> struct Traits<Packed> {
  static size_t size(const Packed& s) { return s.d.size() / 3; }
  static bool has_points(const Packed& s) { return !s.d.empty(); }
  static Eigen::Vector4d point(const Packed& s, size_t i) { if (3 * i + 2 >= s.d.size()) { bad("point() beyond the end", i); return Eigen::Vector4d::Zero(); } return Eigen::Vector4d(s.d[3 * i], s.d[3 * i + 1], s.d[3 * i + 2], 1); }
};
} }

// user-defined searches over explicit points; one defines knn_search, the other only nearest_neighbor_search (both documented as valid)
struct KnnOnly { Pts p; size_t knn_search(const V4& q, size_t k, size_t* idx, double* sq) const; };
struct NnOnly { Pts p; };
struct Radius { Pts p; double r2; };  // knows nothing beyond a radius; a search that finds nothing leaves its outputs alone
static size_t brute(const Pts& p, const V4& q, size_t k, size_t* idx, double* sq) {
  if (!(std::abs(q[3] - 1.0) <= 1e-12)) bad("search with a homogeneous coordinate other than one", q[3]);
  std::vector<std::pair<double, size_t>> v; for (size_t i = 0; i < p.size(); i++) v.push_back({(p[i] - q).squaredNorm(), i});
  size_t n = std::min(k, p.size()); std::partial_sort(v.begin(), v.begin() + n, v.end());
  for (size_t i = 0; i < n; i++) { sq[i] = v[i].first; idx[i] = v[i].second; }
  return n;
}
size_t KnnOnly::knn_search(const V4& q, size_t k, size_t* idx, double* sq) const { return brute(p, q, k, idx, sq); }  // normal estimation calls the member
namespace small_gicp { namespace traits {
template <> struct Traits<KnnOnly> { static size_t knn_search(const KnnOnly& t, const Eigen::Vector4d& q, size_t k, size_t* idx, double* sq) { return brute(t.p, q, k, idx, sq); } };
template <> struct Traits<Radius> {
  static size_t knn_search(const Radius& t, const Eigen::Vector4d& q, size_t k, size_t* idx, double* sq) {
    std::vector<size_t> a(k); std::vector<double> d(k); size_t n = brute(t.p, q, k, a.data(), d.data()), m = 0;
    while (m < n && d[m] <= t.r2) { idx[m] = a[m]; sq[m] = d[m]; m++; }
    return m;
  }
};
template <> struct Traits<NnOnly> { static size_t nearest_neighbor_search(const NnOnly& t, const Eigen::Vector4d& q, size_t* idx, double* sq) { return brute(t.p, q, 1, idx, sq); } };
} }

// user-defined voxel contents: centroid of the points, counts its calls
struct UserVoxel {
  struct Setting { int tag = 0; };
  size_t size() const { return 1; }
  template <typename C> void add(const Setting& s, const Eigen::Vector4d& tp, const C& c, size_t i, const Eigen::Isometry3d& T) {
    if (s.tag != 77) bad("the voxel setting is not passed on", s.tag);
    if (!(std::abs(tp[3] - 1.0) <= 1e-12) || (tp - T * Eigen::Vector4d(traits::point(c, i))).norm() > 1e-9) bad("add() with a point that is not T * points[i]", tp[0]);
    sum += tp; n++; dirty = true;
  }
  void finalize() { dirty = false; mean = sum / (double)n; }
  V4 sum = V4::Zero(), mean = V4::Zero(); size_t n = 0; bool dirty = false;
};
namespace small_gicp { namespace traits {
template <> struct Traits<UserVoxel> {
  static size_t size(const UserVoxel&) { return 1; }
  static bool has_points(const UserVoxel&) { return true; }
  static Eigen::Vector4d point(const UserVoxel& v, size_t) { return v.mean; }
  template <typename R> static void knn_search(const UserVoxel& v, const Eigen::Vector4d& q, R& r) { if (v.dirty) bad("search in a voxel that was not finalized"); r.push(0, (v.mean - q).squaredNorm()); }
};
} }

// ---- clouds; coordinates and attributes are representable in float
static double q10(double v) { return std::round(v * 1024) / 1024; }
static const int NC = 10;
static const PointCloud& base(int k) {
  static PointCloud c[NC]; static bool done[NC];
  if (!done[k]) {
    static const int S[NC] = {SHEET, SHEET, SHEET, SHEET, SHEET, SHEET, LATTICE, COINCIDENT, CLUSTERS, SHEET}; static const size_t N[NC] = {0, 1, 4, 5, 12, 300, 200, 30, 150, 1100};
    Pts p = shape(S[k], N[k]); Mix r(k);
    c[k].resize(p.size());
    for (size_t i = 0; i < p.size(); i++) {
      c[k].point(i) = V4(q10(p[i][0]), q10(p[i][1]), q10(p[i][2]), 1);
      c[k].normal(i) = V4(0.25 * r.in(-3, 3), 0.25 * r.in(-3, 3), 0.5, 0);
      c[k].cov(i).setZero(); for (int a = 0; a < 3; a++) for (int b = 0; b <= a; b++) c[k].cov(i)(a, b) = c[k].cov(i)(b, a) = a == b ? 1 + 0.125 * r.in(0, 7) : 0.0625 * r.in(-3, 3);
    }
    done[k] = true;
  }
  return c[k];
}
// ---- conversion into the containers
template <typename C> struct Box;
template <> struct Box<PointCloud> { static constexpr const char* name = "PointCloud"; std::shared_ptr<PointCloud> c; explicit Box(const PointCloud& b) : c(std::make_shared<PointCloud>(b)) {} };
template <> struct Box<Strict> {
  static constexpr const char* name = "user cloud"; std::shared_ptr<Strict> c = std::make_shared<Strict>();
  explicit Box(const PointCloud& b) { traits::resize(*c, b.size()); for (size_t i = 0; i < b.size(); i++) { traits::set_point(*c, i, b.point(i)); traits::set_normal(*c, i, b.normal(i)); traits::set_cov(*c, i, b.cov(i)); } }
};
template <> struct Box<Packed> { static constexpr const char* name = "user array"; std::shared_ptr<Packed> c = std::make_shared<Packed>(); explicit Box(const PointCloud& b) { for (auto& p : b.points) for (int k = 0; k < 3; k++) c->d.push_back(p[k]); } };
template <> struct Box<Eigen::MatrixXd> { static constexpr const char* name = "matrix"; std::shared_ptr<Eigen::MatrixXd> c; explicit Box(const PointCloud& b) : c(std::make_shared<Eigen::MatrixXd>(b.size(), 3)) { for (size_t i = 0; i < b.size(); i++) c->row(i) = b.point(i).head<3>().transpose(); } };
template <> struct Box<Pcl> {
  static constexpr const char* name = "PCL cloud"; std::shared_ptr<Pcl> c = std::make_shared<Pcl>();
  explicit Box(const PointCloud& b) { c->resize(b.size()); for (size_t i = 0; i < b.size(); i++) { traits::set_point(*c, i, b.point(i)); traits::set_normal(*c, i, b.normal(i)); traits::set_cov(*c, i, b.cov(i)); } }
};
using Proxy = PointCloudProxy<pcl::PointXYZ>;
template <> struct Box<Proxy> {
  static constexpr const char* name = "PCL proxy"; std::shared_ptr<PclXYZ> x = std::make_shared<PclXYZ>(); std::vector<M4> covs; std::shared_ptr<Proxy> c;
  explicit Box(const PointCloud& b) { x->resize(b.size()); for (size_t i = 0; i < b.size(); i++) { (*x)[i].getVector4fMap() = b.point(i).cast<float>(); covs.push_back(b.cov(i)); } c = std::make_shared<Proxy>(*x, covs); }
};
template <typename C> constexpr bool has_n = !std::is_same_v<C, Eigen::MatrixXd> && !std::is_same_v<C, Packed> && !std::is_same_v<C, Proxy>;
template <typename C> constexpr bool has_c = !std::is_same_v<C, Eigen::MatrixXd> && !std::is_same_v<C, Packed>;
template <typename C> constexpr bool isf = std::is_same_v<C, Pcl>;
template <typename C> static void seal(const C&) {}
static void seal(Strict& s) { s.ro = true; }

static bool near(double a, double b, bool f) { return std::abs(a - b) <= (f ? 2e-7 : 1e-11) * std::max({1.0, std::abs(a), std::abs(b)}); }
template <typename A, typename B> static bool near(const A& a, const B& b, bool f) { for (int i = 0; i < a.size(); i++) if (!near((double)a.data()[i], (double)b.data()[i], f)) return false; return true; }
template <typename C> static std::string unchanged(const C& c, const PointCloud& b, const char* who) {
  if (traits::size(c) != b.size()) return str("the number of points of the input ", who, " changed");
  for (size_t i = 0; i < b.size(); i++) {
    if (V4(traits::point(c, i)) != b.point(i)) return str("point ", i, " of the input ", who, " changed");
    if constexpr (has_n<C>) if (V4(traits::normal(c, i)) != b.normal(i)) return str("normal ", i, " of the input ", who, " changed");
    if constexpr (has_c<C>) if (M4(traits::cov(c, i)) != b.cov(i)) return str("covariance ", i, " of the input ", who, " changed");
  }
  return "";
}

// ---- downsampling
static const char* DOWN[] = {"voxelgrid_sampling", "voxelgrid_sampling_omp(1)", "voxelgrid_sampling_omp(3)", "voxelgrid_sampling_tbb", "random_sampling"};
template <typename I, typename O> static std::shared_ptr<O> down(int op, const I& in, double leaf) {
  if (op == 0) return voxelgrid_sampling<I, O>(in, leaf);
  if (op == 1) return voxelgrid_sampling_omp<I, O>(in, leaf, 1);
  if (op == 2) return voxelgrid_sampling_omp<I, O>(in, leaf, 3);
  if (op == 3) return voxelgrid_sampling_tbb<I, O>(in, leaf);
  std::mt19937 rng(5); return random_sampling<I, O>(in, (size_t)(leaf * 20), rng);
}
template <typename C> static std::vector<std::array<double, 3>> sorted_points(const C& c) {
  std::vector<std::array<double, 3>> v; for (size_t i = 0; i < traits::size(c); i++) { V4 p = traits::point(c, i); if (!(std::abs(p[3] - 1.0) <= 1e-12)) bad("output point with a homogeneous coordinate other than one", p[3]); v.push_back({p[0], p[1], p[2]}); }
  return v;
}
template <typename I, typename O> static std::string down_case(uint64_t i) {
  Odo o(i); int op = o(5), k = o(NC); double leaf = std::array<double, 3>{0.5, 2.0, 40.0}[o(3)];
  const PointCloud& b = base(k); Box<I> in(b); seal(*in.c);
  auto ref = down<PointCloud, PointCloud>(op, b, leaf); auto got = down<I, O>(op, *in.c, leaf);
  seqx::step(2);
  TRY(unchanged(*in.c, b, Box<I>::name)); TRY(contract());
  auto r = sorted_points(*ref), g = sorted_points(*got); TRY(contract());
  if (op == 2 || op == 3) { if (b.size() > 500) { if (g.size() > r.size() + 8 || r.size() > g.size() + 8) return "very different numbers of points"; return ""; } std::sort(r.begin(), r.end()); std::sort(g.begin(), g.end()); }  // output order and block borders are not specified
  SAMPLE(str(DOWN[op], " on ", b.size(), " points in ", Box<I>::name, " to ", Box<O>::name, ": ", g.size(), " points"));
  if (r.size() != g.size()) return str(DOWN[op], " on ", Box<I>::name, " returns ", g.size(), " points, on PointCloud ", r.size());
  // with ties in the rounding the order of sorted points may differ, so compare each point with the closest
  for (size_t j = 0; j < r.size(); j++) {
    bool ok = false;
    for (int d = -3; d <= 3 && !ok; d++) { size_t m = j + d; if (op != 2 && op != 3 && d) continue; if (m < g.size()) ok = near(Eigen::Vector3d(r[j].data()), Eigen::Vector3d(g[m].data()), isf<O>); }
    if (!ok) return str(DOWN[op], " on ", Box<I>::name, ": output point ", j, " is ", g[j][0], " ", g[j][1], " ", g[j][2], ", on PointCloud ", r[j][0], " ", r[j][1], " ", r[j][2]);
  }
  seqx::state(seqx::mix(i, g.size()));
  return "";
}

// ---- attribute estimation
static const char* ATTR[] = {"serial", "serial/tree", "omp", "omp/tree", "tbb", "tbb/tree", "serial/user search", "omp/user search"};
template <typename C> static void estimate(C& c, int what, int mode, int k) {
  Pts p; if (mode >= 6) for (size_t i = 0; i < traits::size(c); i++) p.push_back(traits::point(c, i));
  KnnOnly u{p};
#define EST(F, W) case W: switch (mode) { case 0: F(c, k); break; case 1: { UnsafeKdTree<C> t(c); F(c, t, k); break; } case 2: F##_omp(c, k, 3); break; case 3: { UnsafeKdTree<C> t(c); F##_omp(c, t, k, 3); break; } \
    case 4: F##_tbb(c, k); break; case 5: { UnsafeKdTree<C> t(c); F##_tbb(c, t, k); break; } case 6: F(c, u, k); break; case 7: F##_omp(c, u, k, 3); break; } break;
  if constexpr (has_n<C>) switch (what) { EST(estimate_normals, 0) EST(estimate_covariances, 1) EST(estimate_normals_covariances, 2) }
  else switch (what) { EST(estimate_covariances, 1) }
}
template <typename C> static std::string attr_case(uint64_t i) {
  Odo o(i); int mode = o(8), what = o(3), k = std::array<int, 3>{4, 10, 25}[o(3)], kc = o(NC);
  if (!has_n<C>) what = 1;
  PointCloud b = base(kc); for (auto& n : b.normals) n = V4(7, 7, 7, 0); for (auto& m : b.covs) { m.setZero(); m.topLeftCorner<3, 3>().setConstant(7); }
  Box<C> in(b); PointCloud r = b;
  if constexpr (std::is_same_v<C, Proxy>) { if (o(2)) in.covs.clear(); }
  if constexpr (std::is_same_v<C, Strict>) { if (o(2)) { std::fill(in.c->wn.begin(), in.c->wn.end(), 0); std::fill(in.c->wc.begin(), in.c->wc.end(), 0); } }
  estimate(r, what, mode, k); estimate(*in.c, what, mode, k); seqx::step(2);
  TRY(contract());
  if (traits::size(*in.c) != b.size()) return "the number of points changed";
  SAMPLE(str(ATTR[mode], " k=", k, " on ", b.size(), " points in ", Box<C>::name));
  uint64_t h = i;
  for (size_t j = 0; j < b.size(); j++) {
    if (V4(traits::point(*in.c, j)) != b.point(j)) return "a point changed";
    if constexpr (has_n<C>) if (what != 1) { V4 n = traits::normal(*in.c, j); h = seqx::hash_d(h, n[0]); if (!near(n, r.normal(j), isf<C>)) return str(ATTR[mode], " k=", k, ": normal ", j, " in ", Box<C>::name, " is ", n.transpose(), ", in PointCloud ", r.normal(j).transpose()); }
    if constexpr (has_c<C>) if (what != 0) { M4 c = traits::cov(*in.c, j); h = seqx::hash_d(h, c(0, 1)); if (!near(c, r.cov(j), isf<C>)) return str(ATTR[mode], " k=", k, ": covariance ", j, " in ", Box<C>::name, " is\n", c, "\nin PointCloud\n", r.cov(j)); }
    if constexpr (std::is_same_v<C, Strict>) { if (what == 1 && in.c->wn[j] && traits::normal(*in.c, j) != b.normal(j)) return "covariance estimation changed a normal"; if (what == 0 && in.c->wc[j] && traits::cov(*in.c, j) != b.cov(j)) return "normal estimation changed a covariance"; }
  }
  TRY(contract());
  seqx::state(h);
  return "";
}

// ---- trees
template <typename C> static std::string tree_case(uint64_t i) {
  Odo o(i); int bl = o(3), kc = o(NC), own = o(2), proj = o(2); if (base(kc).size() == 0) return "";
  const PointCloud& b = base(kc); Box<C> in(b); seal(*in.c); auto ref = std::make_shared<PointCloud>(b);
  std::string m; static const size_t KS[] = {1, 3, 20};
  auto cmp = [&](auto& t, auto& r) {
    std::vector<size_t> a(20), c(20); std::vector<double> d(20), e(20);
    for (size_t q = 0; q < b.size(); q += 1 + b.size() / 100) for (size_t k : KS) for (int s = 0; s < 2; s++) {
      V4 p = b.point(q) + (s ? V4(0.3, -0.2, 0.1, 0) : V4(0, 0, 0, 0));
      size_t n1 = traits::knn_search(t, p, k, a.data(), d.data()), n2 = traits::knn_search(r, p, k, c.data(), e.data()); seqx::step();
      if (n1 != n2) { m = str("k=", k, ": ", n1, " neighbours in ", Box<C>::name, ", ", n2, " in PointCloud"); return; }
      for (size_t j = 0; j < n1; j++) if (d[j] != e[j] || a[j] >= b.size() || (b.point(a[j]) - p).squaredNorm() != d[j]) { m = str("k=", k, ": neighbour ", j, " in ", Box<C>::name, " at squared distance ", d[j], ", in PointCloud ", e[j]); return; }
      size_t x; double y; if (traits::nearest_neighbor_search(t, p, &x, &y) != 1 || y != e[0]) { m = str("nearest neighbour in ", Box<C>::name, " at ", y, ", in PointCloud ", e[0]); return; }
    }
  };
  auto go = [&](auto builder, auto projection) {
    using P = decltype(projection);
    if (own) { KdTree<C, P> t(in.c, builder); KdTree<PointCloud, P> r(ref, builder); cmp(t, r); }
    else { UnsafeKdTree<C, P> t(*in.c, builder); UnsafeKdTree<PointCloud, P> r(*ref, builder); cmp(t, r); }
  };
  auto with = [&](auto builder) { if (proj) go(builder, NormalProjection()); else go(builder, AxisAlignedProjection()); };
  if (bl == 0) with(KdTreeBuilder()); else if (bl == 1) with(KdTreeBuilderOMP(2)); else with(KdTreeBuilderTBB());
  TRY(contract()); TRY(unchanged(*in.c, b, Box<C>::name)); TRY(contract());
  SAMPLE(str("builder ", bl, " owning=", own, " projection=", proj, " on ", b.size(), " points in ", Box<C>::name));
  if (!m.empty()) return str("builder ", bl, " owning=", own, ": ", m);
  seqx::state(i);
  return "";
}

// ---- voxel maps and projective search
template <typename Cell, typename C> static std::string map_case(uint64_t i) {
  Odo o(i); int kc = o(NC), pose = o(3), reps = 1 + o(2), clear = o(2); static auto P = poses(3);
  const PointCloud& b = base(kc); Box<C> in(b); seal(*in.c);
  IncrementalVoxelMap<Cell> t(1.5), r(1.5); t.lru_horizon = r.lru_horizon = clear ? 0 : 100; t.lru_clear_cycle = r.lru_clear_cycle = clear ? 2 : 10;
  if constexpr (std::is_same_v<Cell, UserVoxel>) t.voxel_setting.tag = r.voxel_setting.tag = 77;
  size_t total = 0; std::set<std::array<int, 3>> occ;
  for (int k = 0; k < reps; k++) { t.insert(*in.c, P[pose + k > 2 ? 0 : pose + k]); r.insert(b, P[pose + k > 2 ? 0 : pose + k]); seqx::step(2); }
  TRY(contract()); TRY(unchanged(*in.c, b, Box<C>::name));
  if (t.size() != r.size()) return str(t.size(), " voxels from ", Box<C>::name, ", ", r.size(), " from PointCloud");
  for (size_t v = 0; v < t.size(); v++) {
    auto &A = t.flat_voxels[v]->second, &B = r.flat_voxels[v]->second;
    if (t.flat_voxels[v]->first.coord != r.flat_voxels[v]->first.coord) return "voxels differ";
    size_t n = traits::size(A); if (n != traits::size(B)) return "voxels have different sizes";
    for (size_t j = 0; j < n; j++) {
      V4 pa = traits::point(A, j), pb = traits::point(B, j); if (!near(pa, pb, false)) return str("voxel ", v, " element ", j, " from ", Box<C>::name, " at ", pa.transpose(), ", from PointCloud ", pb.transpose());
      if constexpr (std::is_same_v<Cell, FlatContainerNormal> || std::is_same_v<Cell, FlatContainerNormalCov>) { V4 na = traits::normal(A, j), nb = traits::normal(B, j); if (!near(na, nb, false)) return str("voxel ", v, " element ", j, ": normals differ"); }
      if constexpr (std::is_same_v<Cell, GaussianVoxel> || std::is_same_v<Cell, FlatContainerCov> || std::is_same_v<Cell, FlatContainerNormalCov>) { M4 ca = traits::cov(A, j), cb = traits::cov(B, j); if (!near(ca, cb, false)) return str("voxel ", v, " element ", j, ": covariances differ"); }
    }
    if constexpr (std::is_same_v<Cell, UserVoxel>) { total += A.n; if (A.dirty) return "a voxel was not finalized"; if (A.n == 0) return "an empty voxel"; }
  }
  if constexpr (std::is_same_v<Cell, UserVoxel>) if (!clear && total != reps * b.size()) return str("user voxels received ", total, " of ", reps * b.size(), " points");
  for (int off : {1, 7, 27}) {
    t.set_search_offsets(off); r.set_search_offsets(off);
    for (size_t q = 0; q < b.size(); q += 1 + b.size() / 40) {
      V4 p = P[pose] * b.point(q); std::vector<size_t> a(5), c(5); std::vector<double> d(5), e(5);
      size_t n1 = traits::knn_search(t, p, 5, a.data(), d.data()), n2 = traits::knn_search(r, p, 5, c.data(), e.data()); seqx::step();
      if (n1 != n2) return str("search in the map from ", Box<C>::name, " finds ", n1, ", from PointCloud ", n2);
      for (size_t j = 0; j < n1; j++) if (!near(d[j], e[j], false) || !near((V4(traits::point(t, a[j])) - p).squaredNorm(), d[j], false)) return str("search in the map from ", Box<C>::name, ": squared distance ", d[j], " instead of ", e[j]);
    }
  }
  TRY(contract());
  SAMPLE(str(b.size(), " points in ", Box<C>::name, " inserted ", reps, " times: ", t.size(), " voxels"));
  seqx::state(seqx::mix(i, t.size()));
  return "";
}
template <typename C> static std::string proj_case(uint64_t i) {
  Odo o(i); int kc = o(NC), w = std::array<int, 3>{1, 16, 200}[o(3)], h = std::array<int, 3>{1, 9, 60}[o(3)];
  const PointCloud& b = base(kc); Box<C> in(b); seal(*in.c);
  UnsafeProjectiveSearch<C> t(w, h, *in.c); UnsafeProjectiveSearch<PointCloud> r(w, h, b);
  if (t.index_map != r.index_map) return "index maps differ";
  for (size_t q = 0; q < b.size(); q += 1 + b.size() / 60) {
    V4 p = b.point(q) + V4(0.1, 0.05, -0.1, 0); std::vector<size_t> a(4), c(4); std::vector<double> d(4), e(4);
    size_t n1 = traits::knn_search(t, p, 4, a.data(), d.data()), n2 = traits::knn_search(r, p, 4, c.data(), e.data()); seqx::step();
    if (n1 != n2 || !std::equal(a.begin(), a.begin() + n1, c.begin()) || !std::equal(d.begin(), d.begin() + n1, e.begin())) return str("projective search in ", Box<C>::name, " differs from PointCloud");
  }
  TRY(contract()); TRY(unchanged(*in.c, b, Box<C>::name));
  SAMPLE(str(w, " x ", h, " image of ", b.size(), " points in ", Box<C>::name));
  seqx::state(i);
  return "";
}

// ---- registration
static Iso dir_pose(int k) { V6 a = V6::Zero(); const double v[4][6] = {{0, 0, 0, 0, 0, 0}, {0.01, -0.02, 0.015, 0.05, -0.04, 0.03}, {-0.03, 0.01, 0.02, -0.1, 0.05, 0.08}, {0, 0, 0.04, 0, 0.1, -0.1}}; for (int j = 0; j < 6; j++) a[j] = v[k][j]; return exp_ref(a); }
template <typename R> static void threads(R& r) { if constexpr (std::is_same_v<R, ParallelReductionOMP>) r.num_threads = 3; }
static std::pair<PointCloud, PointCloud> scene(int k) {  // target with estimated attributes, source: shifted subset, float-representable coordinates
  PointCloud t, s; Pts p = shape(k == 2 ? SPHERE : SHEET, k == 1 ? 12 : 260);
  t.resize(p.size()); for (size_t i = 0; i < p.size(); i++) t.point(i) = V4(q10(p[i][0]), q10(p[i][1]), q10(p[i][2]), 1);
  Iso T = dir_pose(1).inverse(); std::vector<V4> sp; for (size_t i = 0; i < p.size(); i += k == 1 ? 1 : 3) { V4 x = T * t.point(i); sp.push_back(V4(q10(x[0]), q10(x[1]), q10(x[2]), 1)); }
  s.resize(sp.size()); s.points = sp;
  for (auto* c : {&t, &s}) { estimate_normals_covariances(*c, 8); for (size_t i = 0; i < c->size(); i++) { c->normal(i) = c->normal(i).cast<float>().cast<double>(); c->cov(i) = c->cov(i).cast<float>().cast<double>(); } }
  return {t, s};
}
static std::string same_result(const RegistrationResult& a, const RegistrationResult& b, const char* who, double tol, bool conv = true) {
  double d = (a.T_target_source.matrix() - b.T_target_source.matrix()).norm();
  if (!(d <= tol)) return str(who, ": pose differs by ", d);
  if ((conv && a.converged != b.converged) || a.num_inliers != b.num_inliers) return str(who, ": converged/inliers ", a.converged, "/", a.num_inliers, " instead of ", b.converged, "/", b.num_inliers);
  if (!(std::abs(a.error - b.error) <= 1e-6 * (1 + std::abs(b.error)))) return str(who, ": error ", a.error, " instead of ", b.error);
  return "";
}
template <typename F, typename R, typename O, typename TC, typename SC> static std::string align_case(uint64_t i) {
  Odo o(i); int sc = o(3), tr = o(5), g = o(4); double cut = o(2) ? 100.0 : 0.04;
  static std::map<int, std::pair<PointCloud, PointCloud>> S; if (!S.count(sc)) S[sc] = scene(sc);
  const auto& [tb, sb] = S[sc];
  Box<TC> t(tb); Box<SC> s(sb); seal(*t.c); seal(*s.c);
  Registration<F, R, NullFactor, DistanceRejector, O> reg; threads(reg.reduction); reg.rejector.max_dist_sq = cut;
  Registration<F, SerialReduction, NullFactor, DistanceRejector, O> rr; rr.rejector.max_dist_sq = cut;
  UnsafeKdTree<PointCloud> rt(tb); auto ref = rr.align(tb, sb, rt, dir_pose(g));
  RegistrationResult got;
  if (tr == 0) { UnsafeKdTree<TC> k(*t.c); got = reg.align(*t.c, *s.c, k, dir_pose(g)); }
  else if (tr == 1) { KdTree<TC> k(t.c); got = reg.align(*t.c, *s.c, k, dir_pose(g)); }
  else if (tr == 2) { KnnOnly k{tb.points}; got = reg.align(*t.c, *s.c, k, dir_pose(g)); }
  else if (tr == 3) { Radius k{tb.points, cut}; reg.rejector.max_dist_sq = 1e9; got = reg.align(*t.c, *s.c, k, dir_pose(g)); }
  else { NnOnly k{tb.points}; got = reg.align(*t.c, *s.c, k, dir_pose(g)); }
  seqx::step(2);
  TRY(contract()); TRY(unchanged(*t.c, tb, Box<TC>::name)); TRY(unchanged(*s.c, sb, Box<SC>::name));
  SAMPLE(str("target ", Box<TC>::name, ", source ", Box<SC>::name, ", search ", tr, ", guess ", g, ": ", got.num_inliers, " inliers, error ", got.error));
  seqx::state(seqx::hash_d(i, got.error));
  return same_result(got, ref, str("target ", Box<TC>::name, ", source ", Box<SC>::name, ", search ", tr).c_str(), 1e-7, std::is_same_v<R, SerialReduction>);
}
// user-defined rejector: decides by source index (every subset of the source points), checks its arguments
struct MaskRejector {
  unsigned mask = ~0u; const void *t = nullptr, *s = nullptr; const Pts *tp = nullptr, *sp = nullptr; mutable std::atomic<int> calls{0};
  template <typename TC, typename SC> bool operator()(const TC& target, const SC& source, const Eigen::Isometry3d& T, size_t ti, size_t si, double sq) const {
    calls++;
    if ((const void*)&target != t || (const void*)&source != s) bad("rejector called with other clouds");
    if (si >= sp->size() || ti >= tp->size()) { bad("rejector called with an index out of range"); return true; }
    double d = ((*tp)[ti] - T * (*sp)[si]).squaredNorm();
    if (std::abs(d - sq) > 1e-9 * (1 + d)) bad("rejector called with a distance that is not that of the pair", sq);
    for (auto& x : *tp) if ((x - T * (*sp)[si]).squaredNorm() < d - 1e-9) bad("rejector called with a target point that is not the nearest", ti);
    return !(mask >> si & 1);
  }
};
static int g_bits = 10;
template <typename F, typename R, typename O, typename TC> static std::string mask_case(uint64_t i) {
  Odo o(i); unsigned mask = o(1 << g_bits); int g = o(2); static auto S = scene(0); const PointCloud& tb = S.first;
  PointCloud sb, sub; sb.resize(g_bits); for (int j = 0; j < g_bits; j++) { sb.point(j) = S.second.point(7 * j + 3); sb.normal(j) = S.second.normal(7 * j + 3); sb.cov(j) = S.second.cov(7 * j + 3); }
  for (int j = 0; j < g_bits; j++) if (mask >> j & 1) { size_t n = sub.size(); sub.resize(n + 1); sub.point(n) = sb.point(j); sub.normal(n) = sb.normal(j); sub.cov(n) = sb.cov(j); }
  Box<TC> t(tb), s(sb); seal(*t.c); seal(*s.c);
  Registration<F, R, NullFactor, MaskRejector, O> reg; threads(reg.reduction);
  reg.rejector.mask = mask; reg.rejector.t = t.c.get(); reg.rejector.s = s.c.get(); reg.rejector.tp = &tb.points; reg.rejector.sp = &sb.points;
  Registration<F, SerialReduction, NullFactor, NullRejector, O> rr; UnsafeKdTree<PointCloud> rt(tb); KnnOnly k{tb.points};
  reg.criteria.rotation_eps = rr.criteria.rotation_eps = 1e-12; reg.criteria.translation_eps = rr.criteria.translation_eps = 1e-12; reg.optimizer.max_iterations = rr.optimizer.max_iterations = 4;
  auto got = reg.align(*t.c, *s.c, k, dir_pose(g)), ref = rr.align(tb, sub, rt, dir_pose(g));
  seqx::step(2);
  TRY(contract());
  SAMPLE(str("mask ", mask, ": ", got.num_inliers, " inliers, ", reg.rejector.calls.load(), " rejector calls"));
  if (reg.rejector.calls % g_bits || reg.rejector.calls < g_bits) return str("the rejector was called ", reg.rejector.calls.load(), " times for ", g_bits, " source points");
  if (got.num_inliers != sub.size()) return str(got.num_inliers, " inliers, the rejector accepts ", sub.size());
  seqx::state(seqx::hash_d(i, got.error));
  if (sub.size() < 6) return got.T_target_source.matrix().allFinite() || !ref.T_target_source.matrix().allFinite() ? "" : "the pose is not finite";  // underdetermined
  return same_result(got, ref, "against aligning the accepted points only", 1e-6, false);
}
// user-defined general factor: quadratic prior on the translation, checks its arguments
struct Prior {
  double w = 0; Eigen::Vector3d t0 = Eigen::Vector3d::Zero(); const void *t = nullptr, *s = nullptr, *k = nullptr; mutable int lin = 0, err = 0; mutable double last = -1;
  template <typename TC, typename SC, typename K>
  void update_linearized_system(const TC& target, const SC& source, const K& tree, const Eigen::Isometry3d& T, Eigen::Matrix<double, 6, 6>* H, Eigen::Matrix<double, 6, 1>* b, double* e) const {
    if ((const void*)&target != t || (const void*)&source != s || (const void*)&tree != k) bad("general factor called with other inputs");
    lin++;
    Eigen::Vector3d r = T.translation() - t0; Eigen::Matrix<double, 3, 6> J; J.setZero(); J.rightCols<3>() = T.linear();
    *H += w * J.transpose() * J; *b += w * J.transpose() * r; *e += 0.5 * w * r.squaredNorm();
  }
  template <typename TC, typename SC> void update_error(const TC& target, const SC& source, const Eigen::Isometry3d& T, double* e) const {
    if ((const void*)&target != t || (const void*)&source != s) bad("general factor called with other inputs");
    err++; *e += 0.5 * w * (T.translation() - t0).squaredNorm();
  }
};
template <typename F, typename R, typename O, typename TC> static std::string prior_case(uint64_t i) {
  Odo o(i); double w = std::array<double, 4>{0, 10, 1e5, 1e10}[o(4)]; Eigen::Vector3d t0 = 0.05 * Eigen::Vector3d((double)o(3) - 1, (double)o(3) - 1, (double)o(3) - 1); static auto S = scene(0); const auto& [tb, sb] = S;
  Box<TC> t(tb), s(sb); KnnOnly k{tb.points};
  Registration<F, R, Prior, DistanceRejector, O> reg; threads(reg.reduction); reg.general_factor.w = w; reg.general_factor.t0 = t0; reg.general_factor.t = t.c.get(); reg.general_factor.s = s.c.get(); reg.general_factor.k = &k;
  reg.criteria.rotation_eps = reg.criteria.translation_eps = 1e-7; reg.optimizer.max_iterations = 60; reg.rejector.max_dist_sq = 100;
  auto got = reg.align(*t.c, *s.c, k, Iso::Identity()); seqx::step();
  TRY(contract());
  Registration<F, SerialReduction, NullFactor, DistanceRejector, O> rr; rr.criteria = reg.criteria; rr.optimizer = reg.optimizer; rr.rejector = reg.rejector; UnsafeKdTree<PointCloud> rt(tb); auto free = rr.align(tb, sb, rt, Iso::Identity());
  SAMPLE(str("weight ", w, " toward ", t0.transpose(), ": translation ", got.T_target_source.translation().transpose(), ", ", reg.general_factor.lin, " linearizations, ", reg.general_factor.err, " evaluations"));
  if (reg.general_factor.lin < (int)got.iterations || reg.general_factor.lin < 1) return str(reg.general_factor.lin, " calls of the general factor in ", got.iterations, " iterations");
  if (std::is_same_v<O, LevenbergMarquardtOptimizer> && reg.general_factor.err < 1) return "update_error was never called";
  seqx::state(seqx::hash_d(i, got.error));
  if (w == 0) return same_result(got, free, "with a prior of weight zero", 1e-6, false);
  double d = (got.T_target_source.translation() - t0).norm(), f = (free.T_target_source.translation() - t0).norm();
  if (w >= 1e10 && !(d <= 1e-5)) return str("a dominating prior leaves the translation ", d, " away");
  if (!(d <= f + 1e-4)) return str("the prior increases the distance to its translation from ", f, " to ", d);
  return "";
}

template <typename C> static void all_inputs() {
  std::string n = Box<C>::name; for (auto& c : n) if (c == ' ') c = '-';
  seqx::add("tree/" + n, 3 * NC * 4, tree_case<C>); seqx::add("projective/" + n, NC * 9, proj_case<C>);
  seqx::add("map/points/" + n, NC * 12, map_case<FlatContainerPoints, C>); seqx::add("map/user-voxel/" + n, NC * 12, map_case<UserVoxel, C>);
  if constexpr (has_c<C>) { seqx::add("map/gaussian/" + n, NC * 12, map_case<GaussianVoxel, C>); seqx::add("map/cov/" + n, NC * 12, map_case<FlatContainerCov, C>); }
  if constexpr (has_n<C>) { seqx::add("map/normal/" + n, NC * 12, map_case<FlatContainerNormal, C>); seqx::add("map/normal-cov/" + n, NC * 12, map_case<FlatContainerNormalCov, C>); }
}
template <typename F, typename R, typename O> static void aligns(const char* n) {
  const uint64_t N = 3 * 5 * 4 * 2;
  seqx::add(str("align/", n, "/user/user"), N, align_case<F, R, O, Strict, Strict>); seqx::add(str("align/", n, "/pcl/user"), N, align_case<F, R, O, Pcl, Strict>);
  if constexpr (std::is_same_v<R, SerialReduction>) {
    seqx::add(str("align/", n, "/user/cloud"), N, align_case<F, R, O, Strict, PointCloud>); seqx::add(str("align/", n, "/cloud/pcl"), N, align_case<F, R, O, PointCloud, Pcl>);
    if constexpr (std::is_same_v<F, GICPFactor>) seqx::add(str("align/", n, "/proxy/proxy"), N, align_case<F, R, O, Proxy, Proxy>);
    if constexpr (!std::is_same_v<F, GICPFactor>) seqx::add(str("align/", n, "/cloud/matrix"), N, align_case<F, R, O, PointCloud, Eigen::MatrixXd>);
    if constexpr (std::is_same_v<F, ICPFactor>) { seqx::add(str("align/", n, "/matrix/array"), N, align_case<F, R, O, Eigen::MatrixXd, Packed>); seqx::add(str("align/", n, "/array/proxy"), N, align_case<F, R, O, Packed, Proxy>); }
  }
}
int main(int argc, char** argv) {
  if (seqx::thorough(argc, argv)) g_bits = 12;
  using S = SerialReduction; using GN = GaussNewtonOptimizer; using LM = LevenbergMarquardtOptimizer;
#if PART == 1
  const uint64_t D = 5 * NC * 3, A = 8 * 3 * 3 * NC;
  seqx::add("down/user>user", D, down_case<Strict, Strict>); seqx::add("down/pcl>pcl", D, down_case<Pcl, Pcl>); seqx::add("down/matrix>cloud", D, down_case<Eigen::MatrixXd, PointCloud>); seqx::add("down/array>user", D, down_case<Packed, Strict>);
  seqx::add("down/cloud>pcl", D, down_case<PointCloud, Pcl>); seqx::add("down/proxy>cloud", D, down_case<Proxy, PointCloud>); seqx::add("down/user>cloud", D, down_case<Strict, PointCloud>); seqx::add("down/pcl>user", D, down_case<Pcl, Strict>);
  seqx::add("attributes/user", A * 2, attr_case<Strict>); seqx::add("attributes/pcl", A, attr_case<Pcl>); seqx::add("attributes/proxy", A * 2, attr_case<Proxy>);
#elif PART == 2
  all_inputs<Strict>(); all_inputs<Pcl>(); all_inputs<Proxy>(); all_inputs<Packed>(); all_inputs<Eigen::MatrixXd>();
#else
  aligns<ICPFactor, S, LM>("icp/serial/lm"); aligns<PointToPlaneICPFactor, S, LM>("plane/serial/lm"); aligns<GICPFactor, S, LM>("gicp/serial/lm"); aligns<GICPFactor, S, GN>("gicp/serial/gn");
  aligns<RobustFactor<Huber, PointToPlaneICPFactor>, S, LM>("huber-plane/serial/lm"); aligns<GICPFactor, ParallelReductionOMP, LM>("gicp/omp/lm"); aligns<PointToPlaneICPFactor, ParallelReductionTBB, GN>("plane/tbb/gn");
  seqx::add("rejector/gicp/serial/lm", 2ull << g_bits, mask_case<GICPFactor, S, LM, Strict>); seqx::add("rejector/icp/omp/gn", 2ull << g_bits, mask_case<ICPFactor, ParallelReductionOMP, GN, PointCloud>); seqx::add("rejector/plane/tbb/lm", 2ull << g_bits, mask_case<PointToPlaneICPFactor, ParallelReductionTBB, LM, Pcl>);
  seqx::add("prior/gicp/serial/lm", 108, prior_case<GICPFactor, S, LM, Strict>); seqx::add("prior/plane/omp/gn", 108, prior_case<PointToPlaneICPFactor, ParallelReductionOMP, GN, Pcl>); seqx::add("prior/icp/tbb/lm", 108, prior_case<ICPFactor, ParallelReductionTBB, LM, PointCloud>);
#endif
  return seqx::main("C26", argc, argv);
}
