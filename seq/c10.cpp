// C10: serial voxel-grid downsampling (exact per-voxel mean) and random downsampling (true subset).
#include <numeric>
#include <random>
#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
#include "ref.hpp"
#include <small_gicp/points/eigen.hpp>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/util/downsampling.hpp>
using namespace ref;
using namespace small_gicp;

using Cell = std::array<long long, 3>;
// voxel of a point, in extended precision; false if outside the 21-bit range
static bool cell_of(const V4& p, double leaf, Cell& c) {
  for (int k = 0; k < 3; k++) {
    if (!std::isfinite(p[k])) return false;
    long double v = std::floor((long double)p[k] / leaf);
    if (v < -1048576.0L || v > 1048575.0L) return false;
    c[k] = (long long)v;
  }
  return true;
}

static std::string check_voxelgrid(const Pts& in, double leaf, const Pts& out, double rel) {
  std::map<Cell, std::vector<V4>> vox;
  for (auto& p : in) { Cell c; if (cell_of(p, leaf, c)) vox[c].push_back(p); }
  if (out.size() != vox.size()) return str(out.size(), " output points for ", vox.size(), " occupied voxels");
  uint64_t h = 1;
  std::vector<V4> means;
  std::vector<double> mags;
  for (auto& v : vox) {
    long double s[3] = {0, 0, 0}; double mag = 0;
    for (auto& p : v.second) for (int k = 0; k < 3; k++) { s[k] += p[k]; mag = std::max(mag, std::abs(p[k])); }
    means.push_back(V4(s[0] / v.second.size(), s[1] / v.second.size(), s[2] / v.second.size(), 1));
    mags.push_back(mag * v.second.size());
    h += seqx::mix(v.second.size(), seqx::mix(v.first[0] * 131 + v.first[1], v.first[2]));
  }
  seqx::state(h);
  // every output is the mean of one voxel (cells are disjoint, so the match is by coordinates); a mean may lie on a cell border
  std::vector<char> used(means.size(), 0);
  for (auto& o : out) {
    if (!(std::abs(o[3] - 1.0) <= 1e-12)) return str("output point has homogeneous coordinate ", o[3]);
    bool ok = false; double best = 1e300; size_t bj = 0;
    for (size_t j = 0; j < means.size() && best > 0; j++) {
      double d = (o - means[j]).head<3>().cwiseAbs().maxCoeff();
      if (d < best && !used[j]) { best = d; bj = j; }
    }
    if (best <= 1e-14 * mags[bj] + rel * means[bj].head<3>().cwiseAbs().maxCoeff()) { used[bj] = 1; ok = true; }
    if (!ok) return means.empty() ? str("unexpected output point") : str("output point ", o.transpose(), " is not the mean of the points of any (unused) voxel; nearest voxel mean ", means[bj].transpose());
  }
  return "";
}

template <typename C> static Pts pts_of(const C& c) {
  Pts p;
  for (size_t i = 0; i < traits::size(c); i++) p.push_back(traits::point(c, i));
  return p;
}
static bool same(const Pts& a, const Pts& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (memcmp(a[i].data(), b[i].data(), 32)) return false;
  return true;
}
using PclXYZ = pcl::PointCloud<pcl::PointXYZ>;
using PclPNC = pcl::PointCloud<pcl::PointNormalCovariance>;

static std::string run_voxelgrid(const Pts& in, double leaf, int variant) {
  seqx::step();
  auto err = [&](const std::string& m) {
    if (m.empty()) return m;
    std::string s = str("leaf=", leaf, " variant=", variant, " n=", in.size());
    for (size_t i = 0; i < std::min<size_t>(in.size(), 8); i++) s += str(" (", in[i][0], ",", in[i][1], ",", in[i][2], ")");
    return s + ": " + m;
  };
  if (variant == 0) {
    auto c = cloud(in);
    auto out = voxelgrid_sampling(*c, leaf);
    if (!same(c->points, in)) return err("input was modified");
    if (out->normals.size() != out->points.size() || out->covs.size() != out->points.size()) return err("attribute arrays of the output have another size");
    return err(check_voxelgrid(in, leaf, pts_of(*out), 1e-15));
  }
  if (variant == 1) {  // float cloud in and out
    auto c = std::make_shared<PclXYZ>(); Pts q;
    for (auto& p : in) { c->push_back(pcl::PointXYZ(p[0], p[1], p[2])); }
    q = pts_of(*c);
    auto out = voxelgrid_sampling<PclXYZ, PclXYZ>(*c, leaf);
    if (!same(pts_of(*c), q)) return err("input was modified");
    return err(check_voxelgrid(q, leaf, pts_of(*out), 1.3e-7));
  }
  if (variant == 2) {  // float cloud in, library cloud out
    auto c = std::make_shared<PclPNC>(); c->resize(in.size());
    for (size_t i = 0; i < in.size(); i++) { c->at(i).getVector4fMap() = in[i].cast<float>(); }
    Pts q = pts_of(*c);
    auto out = voxelgrid_sampling<PclPNC, PointCloud>(*c, leaf);
    return err(check_voxelgrid(q, leaf, pts_of(*out), 1e-15));
  }
  // dense matrix in (3 or 4 columns)
  Eigen::MatrixXd m(in.size(), variant == 3 ? 3 : 4);
  for (size_t i = 0; i < in.size(); i++) m.row(i) = in[i].head(m.cols()).transpose();
  if (variant == 4) m.col(3).setConstant(-7.0);  // the fourth column is not a coordinate
  Eigen::MatrixXd m0 = m;
  auto out = voxelgrid_sampling<Eigen::MatrixXd, PointCloud>(m, leaf);
  if (m0.size() && memcmp(m0.data(), m.data(), m.size() * 8)) return err("input was modified");
  return err(check_voxelgrid(in, leaf, pts_of(*out), 1e-15));
}

// random engine whose first outputs are scripted; continues pseudo-randomly so that rejection loops end
struct ScriptRng {
  using result_type = uint32_t;
  std::vector<uint32_t> s; size_t i = 0; Mix m{7};
  static constexpr uint32_t min() { return 0; }
  static constexpr uint32_t max() { return 0xffffffffu; }
  uint32_t operator()() { return i < s.size() ? s[i++] : (uint32_t)m(); }
};

template <typename In, typename Out, typename Rng>
static std::string run_random(const In& in, const Pts& pts, size_t n, Rng& rng, double rel) {
  auto before = pts_of(in);
  auto out = random_sampling<In, Out>(in, n, rng);
  seqx::step();
  if (!same(before, pts_of(in))) return "input was modified";
  auto o = pts_of(*out);
  if (o.size() != std::min(n, pts.size())) return str(o.size(), " samples of ", pts.size(), " points for n=", n);
  std::vector<char> used(pts.size(), 0);
  uint64_t h = 5;
  for (auto& p : o) {
    if (p[3] != 1.0) return str("sample with homogeneous coordinate ", p[3]);
    bool ok = false;
    for (size_t j = 0; j < pts.size(); j++) if (!used[j] && (p - before[j]).cwiseAbs().maxCoeff() <= rel * before[j].cwiseAbs().maxCoeff()) { used[j] = 1; ok = true; h = seqx::mix(h, j); break; }
    if (!ok) return str("sample ", p.transpose(), " is no input point, or was taken twice");
  }
  seqx::state(seqx::mix(h, pts.size()));
  return "";
}

int main(int argc, char** argv) {
  const bool th = seqx::thorough(argc, argv);
  // one axis: every sequence of <= L coordinates from an alphabet on and around cell borders (dyadic leaf: borders are exact)
  static const std::vector<double> A1 = {-1.5, -1.0, -0.25, -0x1p-40, 0.0, 0x1p-40, 0.5, 1.0, 2.75};
  static const int L = th ? 7 : 6;
  uint64_t n1 = 0; { uint64_t q = 1; for (int l = 0; l <= L; l++) { n1 += q; q *= A1.size(); } }
  for (int axis = 0; axis < 3; axis++)
    seqx::add(str("axis", axis), n1 * 2, [axis](uint64_t i) {
      double leaf = i % 2 ? 1.0 : 0.5; i /= 2;
      int l = 0; uint64_t q = 1; while (i >= q) { i -= q; q *= A1.size(); l++; }
      Pts p(l); for (int k = 0; k < l; k++) { p[k] = V4(0.125, -0.375, 0.25, 1); p[k][axis] = A1[i % A1.size()]; i /= A1.size(); }
      SAMPLE(str("axis", axis, " leaf=", leaf, " coordinates ", p[0][axis], ", ", p[1][axis]));
      return run_voxelgrid(p, leaf, 0);
    });
  // 3D: every sequence of <= 4 (5) points from 12 points in and around a 2x2x2 block of voxels across the origin
  static Pts B3;
  for (double x : {-0.75, 0.0, 0.5}) for (double y : {-0.5, 0.25}) for (double z : {-0.125, 0.0}) B3.push_back(V4(x, y, z, 1));
  const int L3 = th ? 6 : 5; uint64_t n3 = 1; for (int k = 0; k < L3; k++) n3 *= B3.size();
  for (int v = 0; v < 5; v++)
    seqx::add(str("block/variant", v), v ? 20736ull : n3, [v, L3](uint64_t i) {
      int l = v ? 4 : L3; Pts p(l); for (int k = 0; k < l; k++) { p[k] = B3[i % 12]; i /= 12; }
      return run_voxelgrid(p, 0.5, v);
    });
  // the border of the 21-bit range on every axis: all sequences of <= 4 of these
  static const std::vector<double> E = {-1048576.5, -1048576.0, -1048575.75, 1048575.0, 1048575.875, 1048576.0, 1048576.25, 0.5, -3e9, 3e9, 1e19, -1e300, INFINITY, -INFINITY, NAN};
  uint64_t ne = 0; { uint64_t q = 1; for (int l = 0; l <= 4; l++) { ne += q; q *= E.size(); } }
  for (int axis = 0; axis < 3; axis++)
    seqx::add(str("range/axis", axis), ne, [axis](uint64_t i) {
      int l = 0; uint64_t q = 1; while (i >= q) { i -= q; q *= E.size(); l++; }
      Pts p(l); for (int k = 0; k < l; k++) { p[k] = V4(0.25, 0.25, 0.25, 1); p[k][axis] = E[i % E.size()]; i /= E.size(); }
      return run_voxelgrid(p, 1.0, 0);
    });
  // two axes at the border at once (one may be out of range while the other is not)
  seqx::add("range/pairs", E.size() * E.size() * 3 * 4, [](uint64_t i) {
    seqx::Odo o(i); double a = E[o(E.size())], b = E[o(E.size())]; int ax = o(3), v = o(4);
    if (v == 1 || v == 2) v = 4;
    Pts p = {V4(0.25, 0.25, 0.25, 1), V4(0.5, 0.5, 0.5, 1), V4(7, 7, 7, 1)};
    p[1][ax] = a; p[1][(ax + 1) % 3] = b; p[2][ax] = b;
    return run_voxelgrid(p, 1.0, v);
  });
  // clouds: shapes x sizes x resolutions x containers
  static const std::vector<size_t> NS = th ? std::vector<size_t>{0, 1, 2, 3, 5, 10, 33, 100, 400, 2000} : std::vector<size_t>{0, 1, 2, 5, 33, 200};
  static const std::vector<double> LS = {0.1, 0.37, 1.0, 2.5, 50.0};
  seqx::add("clouds", (uint64_t)NSHAPE * NS.size() * LS.size() * 4, [](uint64_t i) {
    seqx::Odo o(i); int s = o(NSHAPE); size_t n = NS[o(NS.size())]; double leaf = LS[o(LS.size())]; int v = o(4);
    Pts p = shape(s, n);
    if (v == 1 || v == 2) for (auto& q : p) q = q.cast<float>().cast<double>();
    for (auto& q : p) for (int k = 0; k < 3; k++) {  // keep clear of cell borders, where the voxel is a matter of rounding
      double f = q[k] / leaf - std::floor(q[k] / leaf);
      if (f < 1e-6 || f > 1 - 1e-6) q[k] += 0.01 * leaf;
    }
    if (v == 1 || v == 2) for (auto& q : p) for (int k = 0; k < 3; k++) { double f = (float)q[k] / leaf; f -= std::floor(f); if (f < 1e-3 || f > 1 - 1e-3) q[k] += 0.25 * leaf; }
    auto m = run_voxelgrid(p, leaf, v);
    return m.empty() ? m : str(shape_name(s), " ", m);
  });
  // beyond 16 bits: tens of thousands of voxels, tens of thousands of points in one voxel, and both; every mean is interior to its voxel
  seqx::add("large", 3 * 3 * 2, [](uint64_t i) -> std::string {
    seqx::Odo o(i); const int layout = o(3), order = o(3); const bool flt = o(2);
    const size_t nv = layout == 0 ? 70001 : layout == 1 ? 2 : 30000, per = layout == 0 ? 2 : layout == 1 ? 70001 : 3, n = nv * per;
    Pts p(n); for (size_t j = 0; j < n; j++) {
      size_t t = order == 0 ? j : order == 1 ? n - 1 - j : (j * 7919) % n;  // n and 7919 are coprime
      size_t v = t % nv, e = t / nv;
      p[j] = V4((int)(v % 50) - 25 + 0.25 + (e % 3) * 0.125, (int)(v / 50 % 50) - 25 + 0.5 + (e % 2) * 0.25, (int)(v / 2500) - 9 + 0.375, 1);
    }
    auto got = [&](const auto& c) -> std::string {
      std::map<Cell, std::pair<Eigen::Vector3d, size_t>> vox; for (auto& q : p) { Cell k; cell_of(q, 1.0, k); auto& x = vox[k]; if (!x.second) x.first.setZero(); x.first += q.head<3>(); x.second++; }
      if (traits::size(c) != vox.size()) return str(traits::size(c), " output points for ", vox.size(), " occupied voxels");
      for (size_t j = 0; j < traits::size(c); j++) {
        V4 q = traits::point(c, j); Cell k; if (!cell_of(q, 1.0, k) || !vox.count(k)) return str("output point ", q.transpose(), " lies in no occupied voxel (or its voxel is represented twice)");
        auto& x = vox[k]; Eigen::Vector3d m = x.first / x.second;
        if ((q.head<3>() - m).cwiseAbs().maxCoeff() > 1e-6) return str("voxel mean ", q.transpose(), " instead of ", m.transpose(), " over ", x.second, " points");
        vox.erase(k);
      }
      return "";
    };
    seqx::step(); std::string m;
    if (flt) { PclXYZ c; for (auto& q : p) c.push_back(pcl::PointXYZ(q[0], q[1], q[2])); m = got(*voxelgrid_sampling<PclXYZ, PclXYZ>(c, 1.0)); }
    else m = got(*voxelgrid_sampling(*cloud(p), 1.0));
    return m.empty() ? m : str(n, " points in ", nv, " voxels, order ", order, flt ? ", float cloud: " : ": ", m);
  }, 300);
  seqx::add("random/large", 9 * 2, [](uint64_t i) -> std::string {
    seqx::Odo o(i); const size_t N = o(2) ? 70001 : 131072, n = std::vector<size_t>{1, 10, 1000, N / 10, N / 2, 65536, N - 1, N, N + 5}[o(9)];
    Pts p(N); for (size_t j = 0; j < N; j++) p[j] = V4(j + 0.5, -(double)j, 3.0 * (j % 3), 1);
    std::mt19937 rng(n); auto out = random_sampling(*cloud(p), n, rng); seqx::step();
    if (out->size() != std::min(n, N)) return str(out->size(), " samples of ", N, " points for n=", n);
    std::vector<char> used(N, 0);
    for (size_t j = 0; j < out->size(); j++) { double x = out->point(j)[0] - 0.5; if (!(x >= 0 && x < N) || x != std::floor(x) || out->point(j) != p[(size_t)x] || used[(size_t)x]++) return str("sample ", out->point(j).transpose(), " of ", N, " points is no input point, or was taken twice"); }
    return "";
  }, 300);
  // random downsampling: every prefix of engine outputs from an alphabet of extreme and middle values
  static const std::vector<uint32_t> W = {0u, 1u, 0x3fffffffu, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu};
  const int RL = th ? 7 : 5; uint64_t nr = 1; for (int k = 0; k < RL; k++) nr *= W.size();
  seqx::add("random/scripted", nr * 8, [RL](uint64_t i) -> std::string {
    seqx::Odo o(i); ScriptRng r; for (int k = 0; k < RL; k++) r.s.push_back(W[o(W.size())]);
    size_t N = 1 + o(8);
    Pts p(N); for (size_t k = 0; k < N; k++) p[k] = V4(k + 0.5, -(double)k, 3.0 * (k % 3), 1);
    if (N == 8) p[7] = p[2];  // a duplicate
    auto c = cloud(p);
    for (size_t n = 0; n <= N + 1; n++) {
      ScriptRng q = r;
      auto m = run_random<PointCloud, PointCloud>(*c, p, n, q, 0);
      if (!m.empty()) return str("N=", N, " n=", n, " engine outputs ", r.s[0], ",", r.s[1], ",...: ", m);
    }
    return "";
  });
  // few samples of many points, so that any sampling that may repeat an index does so for some scripted outputs
  static const std::vector<uint32_t> W2 = {0u, 0x10000000u, 0x80000000u, 0xffffffffu};
  static const std::vector<size_t> BIG = {9, 16, 17, 33, 64, 100, 257, 1000};
  seqx::add("random/few-of-many", 256 * BIG.size() * 9, [](uint64_t i) -> std::string {
    seqx::Odo o(i); ScriptRng r; for (int k = 0; k < 4; k++) r.s.push_back(W2[o(4)]);
    size_t N = BIG[o(BIG.size())], n = std::vector<size_t>{1, 2, 3, 5, N / 20, N / 10, N / 8, N / 4, N / 2 + 1}[o(9)];
    Pts p(N); for (size_t k = 0; k < N; k++) p[k] = V4(k + 0.5, -(double)k, 3.0 * (k % 3), 1);
    auto m = run_random<PointCloud, PointCloud>(*cloud(p), p, n, r, 0);
    return m.empty() ? m : str("N=", N, " n=", n, " engine outputs ", r.s[0], ",", r.s[1], ",...: ", m);
  });
  seqx::add("random/clouds", (uint64_t)NSHAPE * NS.size() * 6 * 3, [](uint64_t i) -> std::string {
    seqx::Odo o(i); int s = o(NSHAPE); size_t n = NS[o(NS.size())]; size_t k = std::vector<size_t>{0, 1, n / 2, n ? n - 1 : 0, n, 3 * n + 1}[o(6)]; int v = o(3);
    Pts p = shape(s, n); std::mt19937 rng(i); std::string m;
    if (v == 0) m = run_random<PointCloud, PointCloud>(*cloud(p), p, k, rng, 0);
    else if (v == 1) { PclXYZ c; for (auto& q : p) c.push_back(pcl::PointXYZ(q[0], q[1], q[2])); m = run_random<PclXYZ, PointCloud>(c, p, k, rng, 0); }
    else { Eigen::MatrixXd c(n, 3); for (size_t j = 0; j < n; j++) c.row(j) = p[j].head<3>().transpose(); m = run_random<Eigen::MatrixXd, PointCloud>(c, p, k, rng, 0); }
    return m.empty() ? m : str(shape_name(s), " n=", n, " samples=", k, " container=", v, ": ", m);
  });
  return seqx::main("C10", argc, argv);
}
