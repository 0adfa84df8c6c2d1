// C08: incremental voxel maps against a reference model, every insertion history up to a depth.
#include "ref.hpp"
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
using namespace ref;
using namespace small_gicp;
#define TRY(x) do { std::string m_ = (x); if (!m_.empty()) return m_; } while (0)

using Key = std::array<int, 3>;
struct Elem { V4 p, n; Eigen::Matrix4d c; };
struct Vox { size_t touched = 0, count = 0; V4 sum = V4::Zero(); Eigen::Matrix4d csum = Eigen::Matrix4d::Zero(); std::vector<Elem> pts; };

// Reference model of the documented rules.
struct Model {
  double leaf; size_t horizon, cycle, steps = 0; double min_sq; size_t maxp;
  std::map<Key, Vox> v;
  void insert(const PointCloud& c, const Eigen::Isometry3d& T) {
    for (size_t i = 0; i < c.size(); i++) {
      V4 p = T.matrix() * c.point(i);
      Key k = {(int)std::floor(p[0] / leaf), (int)std::floor(p[1] / leaf), (int)std::floor(p[2] / leaf)};
      Vox& x = v[k];
      x.touched = steps;
      x.count++;
      Eigen::Matrix4d cc = Eigen::Matrix4d::Zero();
      cc.block<3, 3>(0, 0) = T.linear() * c.cov(i).block<3, 3>(0, 0) * T.linear().transpose();
      V4 nn = V4::Zero();
      nn.head<3>() = T.linear() * c.normal(i).head<3>();
      x.sum += p; x.csum += cc;
      bool ok = x.pts.size() < maxp;
      for (auto& e : x.pts) if (d2(e.p, p) < min_sq) ok = false;
      if (ok) x.pts.push_back({p, nn, cc});
    }
    steps++;
    if (steps % cycle == 0)
      for (auto it = v.begin(); it != v.end();) { if (it->second.touched + horizon < steps) it = v.erase(it); else ++it; }
  }
};

template <typename C> struct Kind;
template <> struct Kind<GaussianVoxel> { static constexpr bool gauss = true, normals = false, covs = true; static const char* name() { return "gaussian"; } };
template <bool N, bool CV> struct Kind<FlatContainer<N, CV>> { static constexpr bool gauss = false, normals = N, covs = CV; static const char* name() { return N ? (CV ? "flat_nc" : "flat_n") : (CV ? "flat_c" : "flat"); } };

static Key cell(const V4& p, double leaf) { return {(int)std::floor(p[0] / leaf), (int)std::floor(p[1] / leaf), (int)std::floor(p[2] / leaf)}; }

template <typename C>
std::string compare(const IncrementalVoxelMap<C>& map, const Model& m, bool search) {
  using K = Kind<C>;
  if (map.size() != m.v.size()) return str("map has ", map.size(), " voxels, expected ", m.v.size());
  auto ids = traits::point_indices(map);
  auto pts = traits::voxel_points(map);
  if (ids.size() != pts.size()) return "iteration returns different numbers of indices and points";
  std::map<Key, std::vector<size_t>> by;
  uint64_t h = m.steps % m.cycle;
  const size_t max_cell = K::gauss ? 1 : m.maxp;
  for (size_t i = 0; i < ids.size(); i++) {
    V4 p = traits::point(map, ids[i]);
    if (p != pts[i]) return str("lookup of global index ", ids[i], " returns another element than iteration");
    if (std::abs(p[3] - 1.0) > 1e-12) return str("element has homogeneous coordinate ", p[3]);
    by[cell(p, m.leaf)].push_back(i);
  }
  if constexpr (K::covs) { auto cv = traits::voxel_covs(map); if (cv.size() != ids.size()) return "wrong number of covariances"; for (size_t i = 0; i < ids.size(); i++) if (cv[i] != traits::cov(map, ids[i])) return "covariance lookup differs from iteration"; }
  if constexpr (K::normals) { auto cv = traits::voxel_normals(map); if (cv.size() != ids.size()) return "wrong number of normals"; for (size_t i = 0; i < ids.size(); i++) if (cv[i] != traits::normal(map, ids[i])) return "normal lookup differs from iteration"; }
  for (auto& [k, x] : m.v) {
    auto& g = by[k];
    auto where = str("voxel (", k[0], ",", k[1], ",", k[2], ")");
    h = seqx::mix(h, (uint64_t)(k[0] * 961 + k[1] * 31 + k[2])); h = seqx::mix(h, std::min<size_t>(m.steps - x.touched, m.horizon + m.cycle + 1)); h = seqx::mix(h, x.count);
    if constexpr (K::gauss) {
      if (g.size() != 1) return str(where, " is represented ", g.size(), " times");
      V4 mean = x.sum / x.count; Eigen::Matrix4d cov = x.csum / x.count;
      if ((traits::point(map, ids[g[0]]) - mean).norm() > 1e-9 * (1 + mean.norm())) return str(where, ": mean ", pts[g[0]].transpose(), ", expected ", mean.transpose(), " over ", x.count, " points");
      Eigen::Matrix4d c = traits::cov(map, ids[g[0]]);
      if ((c - cov).norm() > 1e-9 * (1 + cov.norm())) return str(where, ": covariance differs from the mean of the ", x.count, " point covariances by ", (c - cov).norm());
      h = seqx::hash_d(h, mean[0]);
    } else {
      if (g.size() != x.pts.size()) return str(where, " holds ", g.size(), " points, expected ", x.pts.size(), " (limit ", max_cell, ")");
      std::vector<char> used(g.size(), 0);
      for (auto& e : x.pts) {
        bool ok = false;
        for (size_t j = 0; j < g.size() && !ok; j++) {
          if (used[j] || (pts[g[j]] - e.p).norm() > 1e-9) continue;
          bool same = true;
          if constexpr (K::normals) same = same && (traits::normal(map, ids[g[j]]) - e.n).norm() < 1e-9;
          if constexpr (K::covs) same = same && (traits::cov(map, ids[g[j]]) - e.c).norm() < 1e-9 * (1 + e.c.norm());
          if (same) { used[j] = 1; ok = true; }
        }
        if (!ok) return str(where, ": the admitted point ", e.p.transpose(), " is missing or has wrong attributes");
        h = seqx::hash_d(h, e.p[0] + 3 * e.p[1]);
      }
    }
  }
  if (search)
    for (size_t i = 0; i < ids.size(); i++) {
      size_t id = 0; double sq = -1;
      if (map.nearest_neighbor_search(pts[i], &id, &sq) != 1) return str("stored element ", pts[i].transpose(), " is not found by search");
      if (sq > 1e-15 || d2(traits::point(map, id), pts[i]) > 1e-15) return str("search at a stored element returns another one at squared distance ", sq);
    }
  seqx::state(h);
  seqx::step();
  return "";
}

static PointCloud::Ptr mk(std::vector<V4> p, int tag) {
  auto c = cloud(p);
  for (size_t i = 0; i < p.size(); i++) {
    Mix r(tag * 31 + i);
    c->normal(i) = V4(r.in(-3, 3), r.in(-3, 3), 1, 0).normalized(); c->normal(i)[3] = 0;
    Eigen::Matrix3d A;
    for (int k = 0; k < 9; k++) A.data()[k] = r.in(-2, 2) * 0.5;
    c->cov(i).setZero();
    c->cov(i).block<3, 3>(0, 0) = A * A.transpose() + Eigen::Matrix3d::Identity() * 0.25;
  }
  return c;
}
static Eigen::Isometry3d pose(int i) {
  Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
  Eigen::Matrix3d R;
  if (i == 1) T.translation() = Eigen::Vector3d(1.0, -2.0, 0.5);
  if (i == 2) { R << 0, -1, 0, 1, 0, 0, 0, 0, 1; T.linear() = R; }
  if (i == 3) { R << 0, 0, 1, 1, 0, 0, 0, 1, 0; T.linear() = R; T.translation() = Eigen::Vector3d(-0.25, 3, 0.125); }
  if (i == 4) { R << 1, 0, 0, 0, -1, 0, 0, 0, -1; T.linear() = R; T.translation() = Eigen::Vector3d(0, 0, 1024); }
  return T;
}
struct Op { PointCloud::Ptr c; Eigen::Isometry3d T; };

template <typename C>
std::string run(const std::vector<const Op*>& seq, double leaf, size_t horizon, size_t cycle, double min_sq, size_t maxp, bool search) {
  IncrementalVoxelMap<C> map(leaf);
  map.lru_horizon = horizon; map.lru_clear_cycle = cycle;
  if constexpr (!Kind<C>::gauss) { map.voxel_setting.min_sq_dist_in_cell = min_sq; map.voxel_setting.max_num_points_in_cell = maxp; }
  Model m{leaf, horizon, cycle, 0, min_sq, maxp, {}};
  if (seqx::sampling()) { std::string d; for (auto* q : seq) d += str(" ", q->c->size(), " points from ", q->c->size() ? q->c->point(0).head<3>().transpose() : Eigen::RowVector3d(0, 0, 0), " moved by ", q->T.translation().transpose(), ";"); seqx::sample(str(Kind<C>::name(), " horizon=", horizon, " cycle=", cycle, " min_sq=", min_sq, " max=", maxp, " leaf=", leaf, ":", d)); }
  for (size_t i = 0; i < seq.size(); i++) {
    auto copy = *seq[i]->c;
    map.insert(*seq[i]->c, seq[i]->T);
    for (size_t j = 0; j < copy.size(); j++) if (copy.point(j) != seq[i]->c->point(j) || copy.cov(j) != seq[i]->c->cov(j)) return "insertion modified the input cloud";
    m.insert(*seq[i]->c, seq[i]->T);
    auto e = compare(map, m, search);
    if (!e.empty()) return str(Kind<C>::name(), " horizon=", horizon, " cycle=", cycle, " min_sq=", min_sq, " max=", maxp, " leaf=", leaf, ": after insertion ", i + 1, " of ", seq.size(), ": ", e);
  }
  return "";
}

int main(int argc, char** argv) {
  const bool th = seqx::thorough(argc, argv);
  static std::vector<Op> ops;
  auto I = pose(0);
  ops.push_back({mk({}, 0), I});
  ops.push_back({mk({V4(0.25, 0.5, 0.125, 1)}, 1), I});
  ops.push_back({mk({V4(0.75, 0.5, 0.125, 1), V4(0.25, 0.25, 0.75, 1)}, 2), I});
  ops.push_back({mk({V4(-0.25, 0.5, 0.125, 1), V4(0.25, -0.5, 0.125, 1)}, 3), I});
  ops.push_back({mk({V4(0, 0, 0, 1), V4(1, 0, 0, 1), V4(-1, -1, 0, 1)}, 4), I});
  ops.push_back({mk({V4(0.25, 0.5, 0.125, 1), V4(2.5, 0.5, 0.125, 1)}, 5), pose(2)});
  ops.push_back({mk({V4(0.5, 0.25, 0.625, 1), V4(0.5, 0.375, 0.625, 1), V4(0.5, 0.25, 0.625, 1)}, 6), pose(1)});
  ops.push_back({mk({V4(0.375, 0.5, 0.25, 1)}, 7), pose(3)});
  const size_t NO = ops.size();
  // every history of the alphabet up to the depth, for every eviction setting
  const int D = th ? 7 : 6;
  uint64_t total = 1;
  for (int i = 0; i < D; i++) total *= NO;
  auto decode = [=](seqx::Odo& o) { std::vector<const Op*> s(D); for (auto& p : s) p = &ops[o(NO)]; return s; };
  struct HC { size_t h, c; };
  for (auto hc : std::vector<HC>{{0, 1}, {1, 1}, {2, 1}, {1, 2}, {2, 3}, {0, 2}, {100, 10}}) {
    if (!th && (hc.h == 2 && hc.c == 1)) continue;
    auto nm = str("/h", hc.h, "/c", hc.c);
    seqx::add(str("history/gaussian", nm), total, [=](uint64_t i) { seqx::Odo o(i); return run<GaussianVoxel>(decode(o), 1.0, hc.h, hc.c, 0, 10, true); });
    seqx::add(str("history/flat_nc", nm), total, [=](uint64_t i) { seqx::Odo o(i); return run<FlatContainerNormalCov>(decode(o), 1.0, hc.h, hc.c, 0.04, 3, true); });
  }
  // every admission setting of point-storing voxels
  const int D2 = th ? 6 : 5;
  uint64_t t2 = 1;
  for (int i = 0; i < D2; i++) t2 *= NO;
  auto decode2 = [=](seqx::Odo& o) { std::vector<const Op*> s(D2); for (auto& p : s) p = &ops[o(NO)]; return s; };
  for (double ms : {0.0, 1e-3, 0.015625, 0.09, 4.0})
    for (size_t mp : {1, 2, 4})
      seqx::add(str("admission/min", ms, "/max", mp), t2 * 2, [=](uint64_t i) {
        seqx::Odo o(i); int w = o(2); auto s = decode2(o);
        if (w == 0) { auto m = run<FlatContainerPoints>(s, 1.0, 1, 2, ms, mp, true); return m.empty() ? run<FlatContainerNormal>(s, 2.0, 2, 2, ms, mp, true) : m; }
        auto m = run<FlatContainerCov>(s, 0.5, 2, 1, ms, mp, true);
        return m.empty() ? run<FlatContainerNormalCov>(s, 4.0, 3, 2, ms, mp, true) : m;
      });
  // Gaussian voxels for other leaf sizes
  for (double leaf : {0.25, 0.5, 2.0, 16.0})
    seqx::add(str("gaussian/leaf", leaf), t2, [=](uint64_t i) { seqx::Odo o(i); return run<GaussianVoxel>(decode2(o), leaf, 2, 2, 0, 10, true); });
  // default eviction settings over long histories: one voxel touched at step a and again at b, others kept alive
  static std::vector<Op> lo;
  lo.push_back({mk({V4(0.5, 0.5, 0.5, 1)}, 20), I});
  lo.push_back({mk({V4(5.5, 0.5, 0.5, 1), V4(5.25, 0.5, 0.5, 1)}, 21), I});
  lo.push_back({mk({V4(0.75, 0.25, 0.5, 1), V4(9.5, 0.5, -0.5, 1)}, 22), I});
  const int span = th ? 60 : 24;
  seqx::add("longrun/default", (uint64_t)span * span * 2, [=](uint64_t i) -> std::string {
    seqx::Odo o(i);
    int a = o(span), b = o(span), kind = o(2);
    std::vector<const Op*> s;
    for (int t = 0; t < 235; t++) s.push_back(t == a ? &lo[0] : t == a + b + 95 ? &lo[2] : t == a + 3 ? &lo[2] : &lo[1]);
    return kind ? run<GaussianVoxel>(s, 1.0, 100, 10, 0, 10, true) : run<FlatContainerNormalCov>(s, 1.0, 100, 10, 0.01, 10, true);
  });
  // histories so long that narrow counters would overflow: one voxel is refreshed every r insertions, another one once in a while
  seqx::add("longrun/counters", 2 * 7 * 4 * 3, [=](uint64_t i) -> std::string {
    seqx::Odo o(i);
    const int kind = o(2), refresh[] = {1, 2, 7, 50, 99, 101, 256}, r = refresh[o(7)];
    const struct { size_t h, c; } hc[] = {{100, 10}, {1, 1}, {7, 3}, {300, 16}};
    const auto [h, c] = hc[o(4)];
    const int s0 = o(3);
    const size_t start = s0 == 1 ? (1ull << 31) - 3000 : s0 == 2 ? (1ull << 32) - 3000 : 0;  // a map that has already seen that many insertions
    auto go = [&](auto tag) -> std::string {
      using C = typename decltype(tag)::type;
      IncrementalVoxelMap<C> map(1.0); map.lru_horizon = h; map.lru_clear_cycle = c;
      if constexpr (!Kind<C>::gauss) { map.voxel_setting.min_sq_dist_in_cell = 0.04; map.voxel_setting.max_num_points_in_cell = 3; }
      Model m{1.0, h, c, 0, 0.04, 3, {}};
      map.lru_counter = m.steps = start;
      for (int t = 0; t < (start ? 6000 : 70000); t++) {
        const Op* q = t % r == 0 ? &lo[0] : t % 1013 == 5 ? &lo[2] : &lo[1];
        map.insert(*q->c, q->T); m.insert(*q->c, q->T);
        const int d = t & 255, e = t & 32767;
        if (t % 997 == 0 || (start && t > 2800 && t < 3800) || (t < 1024 && (d < 3 || d > 252)) || e < 120 || e > 32764) { auto x = compare(map, m, false); if (!x.empty()) return str(Kind<C>::name(), " horizon=", h, " cycle=", c, ", one voxel refreshed every ", r, " insertions: after insertion ", start + t + 1, ": ", x); }
      }
      return "";
    };
    struct G { using type = GaussianVoxel; }; struct F { using type = FlatContainerNormalCov; };
    return kind ? go(G()) : go(F());
  });
  // larger clouds: every shape, inserted three times with different poses, for several settings
  std::vector<size_t> ns = {1, 7, 40, 150};
  std::vector<double> leaves = {0.5, 1.0, 4.0};
  seqx::add("clouds", (uint64_t)NSHAPE * ns.size() * leaves.size() * 5 * 5, [=](uint64_t i) -> std::string {
    seqx::Odo o(i);
    int s = o(NSHAPE); size_t n = ns[o(ns.size())]; double leaf = leaves[o(leaves.size())]; int p1 = o(5), kind = o(5);
    auto snap = [&](Pts p) { for (auto& q : p) for (int k = 0; k < 3; k++) q[k] = std::round(q[k] * 256) / 256 + 1.0 / 1024; return p; };
    Op a{mk(snap(shape(s, n)), 1), pose(0)}, b{mk(snap(shape(s, n)), 2), pose(p1)}, c{mk(snap(shape((s + 1) % NSHAPE, n)), 3), pose((p1 + 1) % 5)};
    std::vector<const Op*> q = {&a, &b, &c, &b};
    bool srch = n <= 40;
    switch (kind) {
      case 0: return run<GaussianVoxel>(q, leaf, 1, 2, 0, 10, srch);
      case 1: return run<FlatContainerPoints>(q, leaf, 100, 10, 0.01, 10, srch);
      case 2: return run<FlatContainerNormal>(q, leaf, 1, 1, 0.25, 5, srch);
      case 3: return run<FlatContainerCov>(q, leaf, 2, 1, 1e-4, 20, srch);
      default: return run<FlatContainerNormalCov>(q, leaf, 1, 3, 0.04, 3, srch);
    }
  });
  // tens of thousands of voxels, and one voxel with tens of thousands of points: numbering and counting beyond 8 and 16 bits
  seqx::add("large", 6 * 2, [=](uint64_t i) -> std::string {
    seqx::Odo o(i); int kind = o(6); bool grow = o(2);
    auto grid = [](int n, int off) { Pts p; for (int j = 0; j < n; j++) p.push_back(V4(j % 50 + 0.5 + off, j / 50 % 50 + 0.25, j / 2500 + 0.75, 1)); return p; };
    if (kind < 3) {
      Op a{mk(grid(70001, 0), 1), I}, b{mk(grid(300, 0), 2), I}, c{mk(grid(grow ? 70001 : 5, 7), 3), I};
      std::vector<const Op*> q = {&a, &b, &c, &b};
      if (kind == 0) return run<GaussianVoxel>(q, 1.0, 1, 2, 0, 10, true);
      if (kind == 1) return run<FlatContainerPoints>(q, 1.0, 1, 2, 0.01, 3, true);
      return run<FlatContainerNormalCov>(q, 1.0, 1, 3, 0, 20, true);
    }
    Pts cell; for (int j = 0; j < (kind == 3 ? 70001 : grow ? (kind == 4 ? 1500 : 700) : 270); j++) cell.push_back(V4(j % 64 / 64.0 + 1.0 / 128, j / 64 % 64 / 64.0 + 1.0 / 128, j / 4096 % 32 / 32.0 + 1.0 / 128, 1));
    Op a{mk(cell, 4), I}, b{mk({V4(0.3, 0.4, 0.6, 1), V4(2.5, 0.5, 0.5, 1)}, 5), I};
    std::vector<const Op*> q = {&a, &b, &b, &a};
    if (kind == 3) return grow ? run<GaussianVoxel>({&a, &b, &a}, 1.0, 100, 10, 0, 10, true) : run<GaussianVoxel>(q, 1.0, 0, 2, 0, 10, true);
    if (kind == 4) return run<FlatContainerPoints>(q, 1.0, 100, 10, 1e-6, grow ? 1400 : 1000, true);
    return run<FlatContainerNormalCov>(q, 1.0, 1, 2, 1e-6, grow ? 300 : 256, true);
  }, 300);
  // distant voxels: every pair of far cells stays distinct
  std::vector<double> far = {0.5, -0.5, 1000000.5, -1000000.5, 2000000000.5, -2000000000.5, 1073741824.5, 255.5};
  seqx::add("far", far.size() * far.size() * far.size(), [=](uint64_t i) -> std::string {
    seqx::Odo o(i);
    V4 p(far[o(far.size())], far[o(far.size())], far[o(far.size())], 1);
    Op a{mk({p, V4(p[1], p[0], p[2], 1), V4(-p[0], p[1], p[2], 1), V4(0.5, 0.5, 0.5, 1)}, 1), I};
    auto e = run<GaussianVoxel>({&a, &a, &a}, 1.0, 2, 2, 0, 10, false);
    return e.empty() ? run<FlatContainerPoints>({&a, &a, &a}, 1.0, 2, 2, 0.01, 10, true) : e;
  });
  return seqx::main("C08", argc, argv);
}
