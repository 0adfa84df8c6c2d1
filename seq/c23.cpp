// C23: every sequence of container operations up to a depth, on every supported container, against a model that remembers what was
// stored where.  Elements that no operation has written yet are unspecified and not compared.
#include "ref.hpp"
#include <list>
#include <small_gicp/points/eigen.hpp>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/pcl/pcl_proxy.hpp>
using namespace ref;
using namespace small_gicp; using seqx::Odo;
using M4 = Eigen::Matrix4d;
#define TRY(x) do { std::string m_ = (x); if (!m_.empty()) return m_; } while (0)
static bool TH = false;

// values representable in float, so that float containers must return them exactly
static V4 pv(int t) { return V4(t + 0.5, -2.0 * t, 0.125 * t - 3, 1); }
static V4 nv(int t) { return V4(0.25 * t, 1 - t, 0.5 + t, 0); }
static M4 cv(int t) { M4 m = M4::Zero(); for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) m(r, c) = 16 * t + 4 * std::min(r, c) + std::max(r, c) + 0.5; return m; }
struct Elem { int p = -1, n = -1, c = -1, x = -1; };  // tag of the value written, -1: nothing written
using Model = std::vector<Elem>;

template <typename C> struct Has { static constexpr bool normal = false, cov = false, cont = false; };
template <> struct Has<PointCloud> { static constexpr bool normal = true, cov = true; };
template <> struct Has<pcl::PointCloud<pcl::PointXYZ>> { static constexpr bool normal = false, cov = false; };
template <> struct Has<pcl::PointCloud<pcl::PointXYZI>> { static constexpr bool normal = false, cov = false; };
template <> struct Has<pcl::PointCloud<pcl::PointNormal>> { static constexpr bool normal = true, cov = false; };
template <> struct Has<pcl::PointCloud<pcl::PointCovariance>> { static constexpr bool normal = false, cov = true; };
template <> struct Has<pcl::PointCloud<pcl::PointNormalCovariance>> { static constexpr bool normal = true, cov = true; };

// a field of the PCL point types that is none of the traits' business
template <typename P> static const float* extra(const P&) { return nullptr; }
static const float* extra(const pcl::PointXYZI& p) { return &p.intensity; }
static const float* extra(const pcl::PointNormal& p) { return &p.curvature; }
template <typename C>
static std::string view(const C& c, const Model& m, const char* who) {
  if (traits::size(c) != m.size()) return str(who, " reports ", traits::size(c), " points instead of ", m.size());
  if (c.size() != m.size() || c.empty() != m.empty()) return str(who, " size()/empty() disagree with ", m.size(), " points");
  if (traits::has_points(c) != !m.empty()) return str(who, " has_points is wrong for ", m.size(), " points");
  for (size_t i = 0; i < m.size(); i++) {
    if (m[i].p >= 0) { V4 p = traits::point(c, i); if (p != pv(m[i].p)) return str(who, " point ", i, " is ", p.transpose(), " instead of ", pv(m[i].p).transpose()); }
    if constexpr (Has<C>::normal) if (m[i].n >= 0) { V4 n = traits::normal(c, i); if (n != nv(m[i].n)) return str(who, " normal ", i, " is ", n.transpose(), " instead of ", nv(m[i].n).transpose()); }
    if constexpr (Has<C>::cov) if (m[i].c >= 0) { M4 v = traits::cov(c, i); if (v != cv(m[i].c)) return str(who, " covariance ", i, " is not the one stored"); }
  }
  if constexpr (std::is_same_v<C, PointCloud>) {
    if (c.points.size() != m.size() || c.normals.size() != m.size() || c.covs.size() != m.size()) return str(who, ": attribute arrays have different lengths");
    if (traits::has_normals(c) != !m.empty() || traits::has_covs(c) != !m.empty()) return str(who, " has_normals/has_covs is wrong");
    for (size_t i = 0; i < m.size(); i++) {
      if (&c.point(i) != &c.points[i] || &c.normal(i) != &c.normals[i] || &c.cov(i) != &c.covs[i]) return str(who, ": accessor ", i, " refers to another element");
      if (m[i].p >= 0 && c.point(i) != pv(m[i].p)) return "const accessor differs";
      auto& w = const_cast<PointCloud&>(c);
      if (&w.point(i) != &c.point(i) || &w.normal(i) != &c.normal(i) || &w.cov(i) != &c.cov(i)) return str(who, ": mutable accessor ", i, " refers to another element");
    }
  } else {
    if constexpr (Has<C>::normal) if (traits::has_normals(c) != !m.empty()) return str(who, " has_normals is wrong");
    if constexpr (Has<C>::cov) if (traits::has_covs(c) != !m.empty()) return str(who, " has_covs is wrong");
    // a PCL cloud stores its size twice, and fields that small_gicp does not know must survive
    if ((size_t)c.width * c.height != m.size()) return str(who, " reports ", c.width, " x ", c.height, " points instead of ", m.size());
    for (size_t i = 0; i < m.size(); i++) if (m[i].x >= 0) if (const float* x = extra(c.points[i])) if (*x != m[i].x) return str(who, " element ", i, ": the field outside of the traits is ", *x, " instead of ", m[i].x);
  }
  return "";
}
// operations of one sequence; A and B are two objects of the same type
static const int NOPS = 16;
static const char* OPN[NOPS] = {"resize(A,0)", "resize(A,1)", "resize(A,2)", "resize(A,3)", "resize(A,5)", "set_point(A,first)", "set_point(A,last)", "set_normal(A,first)", "set_normal(A,last)", "set_cov(A,first)", "set_cov(A,last)",
  "B=A", "A=B", "swap(A,B)", "A=C(A)", "set_all(A)"};
template <typename C>
static std::string ops(uint64_t i, int depth) {
  C A, B; Model a, b; int tag = 0; std::string log;
  for (int s = 0; s < depth; s++) {
    int op = i % NOPS; i /= NOPS;
    log += str(s ? ", " : "", OPN[op]);
    size_t at = 0; bool has = !a.empty();
    static const size_t RS[] = {0, 1, 2, 3, 5};
    tag++;
    switch (op) {
      case 0: case 1: case 2: case 3: case 4: traits::resize(A, RS[op]); a.resize(RS[op]); break;
      case 6: at = a.size() - 1; [[fallthrough]];
      case 5: if (has) { traits::set_point(A, at, pv(tag)); a[at].p = tag; } break;
      case 8: at = a.size() - 1; [[fallthrough]];
      case 7: if constexpr (Has<C>::normal) if (has) { traits::set_normal(A, at, nv(tag)); a[at].n = tag; } break;
      case 10: at = a.size() - 1; [[fallthrough]];
      case 9: if constexpr (Has<C>::cov) if (has) { traits::set_cov(A, at, cv(tag)); a[at].c = tag; } break;
      case 11: B = A; b = a; break;
      case 12: A = B; a = b; break;
      case 13: std::swap(A, B); std::swap(a, b); break;
      case 14: { C t(A); A = std::move(t); break; }
      case 15: for (size_t k = 0; k < a.size(); k++) {
        int t = 100 * tag + (int)k;
        traits::set_point(A, k, pv(t)); a[k].p = t;
        if constexpr (Has<C>::normal) { traits::set_normal(A, k, nv(t)); a[k].n = t; }
        if constexpr (Has<C>::cov) { traits::set_cov(A, k, cv(t)); a[k].c = t; }
        if constexpr (!std::is_same_v<C, PointCloud>) if (const float* x = extra(A.points[k])) { *const_cast<float*>(x) = t; a[k].x = t; }
      } break;
    }
    seqx::step();
    auto m = view(A, a, "A");
    if (m.empty()) m = view(B, b, "B");
    if (!m.empty()) return str(log, ": ", m);
  }
  uint64_t h = a.size() * 16 + b.size(); for (auto& e : a) h = seqx::mix(h, e.p * 10000 + e.n * 100 + e.c);
  for (auto& e : b) h = seqx::mix(h, e.p * 10000 + e.n * 100 + e.c);
  seqx::state(h);
  SAMPLE(log);
  return "";
}
// ---- construction from vectors of every element type
template <typename T, int D>
static std::string build(int n, int w, int set) {
  using P = Eigen::Matrix<T, D, 1>;
  std::vector<P> v(n); std::vector<P, Eigen::aligned_allocator<P>> va(n);
  static const double sp[] = {0, -0.0, 1e30, -1e-30, 3, 0.1, -7.25, 16777216};
  static const double wv[] = {1, 0, -5, 1e9, NAN};
  for (int i = 0; i < n; i++) for (int k = 0; k < D; k++) { double x = set ? sp[(i * 3 + k) % 8] : i * 10 + k + 0.25; if (k >= 3) x = std::is_integral_v<T> && w == 4 ? 2 : wv[w]; if (std::is_integral_v<T> && std::abs(x) > 1e8) x = 5; v[i][k] = (T)x; va[i][k] = (T)x; }
  auto copy = v;
  for (int how = 0; how < 2; how++) {
    PointCloud c = how ? PointCloud(va) : PointCloud(v);
    if (c.size() != (size_t)n || c.points.size() != (size_t)n || c.normals.size() != (size_t)n || c.covs.size() != (size_t)n) return str("cloud of ", n, " points has wrong sizes");
    if (c.empty() != (n == 0) || traits::has_points(c) != (n > 0)) return "empty()/has_points wrong after construction";
    for (int i = 0; i < n; i++) {
      for (int k = 0; k < 3; k++) { double e = (double)copy[i][k], g = c.point(i)[k]; if (memcmp(&e, &g, 8)) return str("point ", i, " component ", k, " is ", g, " instead of ", e, " (", D, "-vectors)"); }
      if (c.point(i)[3] != 1.0) return str("point ", i, " has homogeneous coordinate ", c.point(i)[3], " (", D, "-vectors, w=", wv[w], ")");
    }
    if (how == 0 && n) { v[0][0] += 1; if (c.point(0)[0] != (double)copy[0][0]) return "the cloud shares memory with its input"; v = copy; }
  }
  for (int i = 0; i < n; i++) for (int k = 0; k < D; k++) if (memcmp(&v[i][k], &copy[i][k], sizeof(T))) return "construction modified the input";
  seqx::step();
  return "";
}
static std::string construct(uint64_t i) {
  Odo o(i); int t = o(8), n = o(9), w = o(5), set = o(2);
  switch (t) {
    case 0: return build<float, 3>(n, w, set);
    case 1: return build<float, 4>(n, w, set);
    case 2: return build<double, 3>(n, w, set);
    case 3: return build<double, 4>(n, w, set);
    case 4: return build<double, 6>(n, w, set);
    case 5: return build<float, 5>(n, w, set);
    case 6: return build<int, 3>(n, w, set);
    default: return build<int, 4>(n, w, set);
  }
}
// ---- Eigen matrices
static std::string matrix(uint64_t i) {
  Odo o(i); int rows = o(8), cols = 3 + (int)o(4); double w = o(2) ? 1 : -4;
  Eigen::MatrixXd m(rows, cols);
  for (int r = 0; r < rows; r++) for (int c = 0; c < cols; c++) m(r, c) = c < 3 ? 10 * r + c + 0.125 : w;
  const Eigen::MatrixXd keep = m;
  if (traits::size(m) != (size_t)rows) return str(rows, "x", cols, " matrix reports ", traits::size(m), " points");
  if (traits::has_points(m) != (rows > 0)) return "has_points is wrong";
  for (int r = 0; r < rows; r++) { V4 p = traits::point(m, r); if (p != V4(10 * r + 0.125, 10 * r + 1.125, 10 * r + 2.125, 1)) return str("row ", r, " of a ", rows, "x", cols, " matrix is ", p.transpose()); }
  if (m != keep) return "the matrix was modified";
  seqx::step();
  return "";
}
// ---- PCL cloud with external covariances
template <typename PT>
static std::string proxy(uint64_t i, int depth) {
  pcl::PointCloud<PT> cloud; std::vector<M4> covs; PointCloudProxy<PT> px(cloud, covs);
  std::vector<int> p, c; std::string log; int tag = 0;
  for (int s = 0; s < depth; s++) {
    int op = i % 9; i /= 9; tag++;
    static const char* N[] = {"resize(0)", "resize(1)", "resize(3)", "set_cov(first)", "set_cov(last)", "push point", "clear cloud", "set_cov(all)", "change point"};
    log += str(s ? ", " : "", N[op]);
    switch (op) {
      case 0: case 1: case 2: { size_t n = op == 0 ? 0 : op == 1 ? 1 : 3; traits::resize(px, n); c.resize(n, -1); break; }
      case 3: if (c.size()) { traits::set_cov(px, 0, cv(tag)); c[0] = tag; } break;
      case 4: if (c.size()) { traits::set_cov(px, c.size() - 1, cv(tag)); c.back() = tag; } break;
      case 5: { PT q; q.getVector4fMap() = pv(tag).template cast<float>(); cloud.push_back(q); p.push_back(tag); break; }
      case 6: cloud.clear(); p.clear(); break;
      case 7: for (size_t k = 0; k < c.size(); k++) { c[k] = 100 * tag + (int)k; traits::set_cov(px, k, cv(c[k])); } break;
      case 8: if (p.size()) { cloud.at(p.size() / 2).getVector4fMap() = pv(tag).template cast<float>(); p[p.size() / 2] = tag; } break;
    }
    seqx::step();
    if (traits::size(px) != p.size()) return str(log, ": size is ", traits::size(px), " instead of ", p.size());
    if (traits::has_points(px) != !p.empty()) return str(log, ": has_points is wrong");
    if (traits::has_covs(px) != !c.empty() || covs.size() != c.size()) return str(log, ": has_covs / number of covariances is wrong");
    for (size_t k = 0; k < p.size(); k++) if (V4(traits::point(px, k)) != pv(p[k])) return str(log, ": point ", k, " is ", V4(traits::point(px, k)).transpose());
    for (size_t k = 0; k < c.size(); k++) { if (c[k] >= 0 && M4(traits::cov(px, k)) != cv(c[k])) return str(log, ": covariance ", k, " is not the one stored"); if (c[k] >= 0 && covs[k] != cv(c[k])) return str(log, ": external covariance ", k, " was not written"); }
  }
  uint64_t h = 7; for (int t : p) h = seqx::mix(h, t); for (int t : c) h = seqx::mix(h, t + 1000);
  seqx::state(h);
  SAMPLE(log);
  return "";
}
int main(int argc, char** argv) {
  TH = seqx::thorough(argc, argv);
  auto pw = [](uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; };
  const int d = TH ? 7 : 6, dp = TH ? 6 : 5;
  seqx::add("PointCloud", pw(NOPS, d), [d](uint64_t i) { return ops<PointCloud>(i, d); });
  seqx::add("pcl-PointXYZ", pw(NOPS, dp), [dp](uint64_t i) { return ops<pcl::PointCloud<pcl::PointXYZ>>(i, dp); });
  seqx::add("pcl-PointXYZI", pw(NOPS, dp), [dp](uint64_t i) { return ops<pcl::PointCloud<pcl::PointXYZI>>(i, dp); });
  seqx::add("pcl-PointNormal", pw(NOPS, dp), [dp](uint64_t i) { return ops<pcl::PointCloud<pcl::PointNormal>>(i, dp); });
  seqx::add("pcl-PointCovariance", pw(NOPS, dp), [dp](uint64_t i) { return ops<pcl::PointCloud<pcl::PointCovariance>>(i, dp); });
  seqx::add("pcl-PointNormalCovariance", pw(NOPS, dp), [dp](uint64_t i) { return ops<pcl::PointCloud<pcl::PointNormalCovariance>>(i, dp); });
  seqx::add("pcl-proxy-PointXYZ", pw(9, dp + 1), [dp](uint64_t i) { return proxy<pcl::PointXYZ>(i, dp + 1); });
  seqx::add("pcl-proxy-PointNormal", pw(9, dp), [dp](uint64_t i) { return proxy<pcl::PointNormal>(i, dp); });
  // beyond 16 bits: 70 001 points grown, shrunk and written, on every container
  auto large = [](auto tag, const char* nm) -> std::string {
    using C = decltype(tag); C c; Model m; int t = 0;
    for (size_t n : {70001, 65535, 65536, 65537, 300, 255, 131073, 1}) {
      traits::resize(c, n); m.resize(n); t++;
      TRY(view(c, m, nm));
      for (size_t k = 0; k < n; k += (k * 7919 + t) % 5 + 1) {
        int v = (int)((k + t) % 60000);  // exactly representable in float
        traits::set_point(c, k, pv(v)); m[k].p = v;
        if constexpr (Has<C>::normal) { traits::set_normal(c, k, nv(v)); m[k].n = v; }
        if constexpr (Has<C>::cov) { traits::set_cov(c, k, cv(v)); m[k].c = v; }
      }
      auto e = view(c, m, nm); seqx::step(n);
      if (!e.empty()) return str("after resize to ", n, ": ", e);
    }
    return "";
  };
  seqx::add("large", 6, [large](uint64_t i) -> std::string {
    switch (i) {
      case 0: return large(PointCloud(), "PointCloud");
      case 1: return large(pcl::PointCloud<pcl::PointXYZ>(), "PointXYZ");
      case 2: return large(pcl::PointCloud<pcl::PointNormal>(), "PointNormal");
      case 3: return large(pcl::PointCloud<pcl::PointCovariance>(), "PointCovariance");
      case 4: return large(pcl::PointCloud<pcl::PointNormalCovariance>(), "PointNormalCovariance");
      default: {
        const int n = 70001; std::vector<Eigen::Vector3f> a(n); std::vector<Eigen::Vector4d> b(n); Eigen::MatrixXd m(n, 3);
        for (int k = 0; k < n; k++) { a[k] = Eigen::Vector3f(k, k % 256 + 0.5f, -k); b[k] = Eigen::Vector4d(k, k % 256 + 0.5, -k, k); m.row(k) = b[k].head<3>().transpose(); }
        PointCloud p(a), q(b); if (p.size() != n || q.size() != n || traits::size(m) != n) return "cloud built from 70001 points has another size";
        for (int k = 0; k < n; k++) { V4 e(k, k % 256 + 0.5, -k, 1); if (p.point(k) != e || q.point(k) != e || V4(traits::point(m, k)) != e) return str("cloud built from 70001 points: point ", k, " is ", p.point(k).transpose()); }
        return "";
      }
    }
  }, 300);
  seqx::add("construction", 8 * 9 * 5 * 2, construct);
  seqx::add("eigen-matrix", 8 * 4 * 2, matrix);
  return seqx::main("C23", argc, argv);
}
