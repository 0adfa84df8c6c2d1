// C07: k-d tree nearest-neighbour search is exact: every cloud, query, k, leaf size, projection of the bounded families.
#include "ref.hpp"
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/points/eigen.hpp>
using namespace ref;
using namespace small_gicp;

static constexpr size_t NOTFOUND = std::numeric_limits<size_t>::max();
static std::string slots(size_t k, size_t found, const std::vector<size_t>& idx, const std::vector<double>& sq, size_t guard) {
  for (size_t i = found; i < k; i++) {
    if (idx[i] != NOTFOUND) return str("unused slot ", i, " holds index ", idx[i], " instead of the not-found marker");
    if (!(sq[i] > 1e300)) return str("unused slot ", i, " holds distance ", sq[i]);
  }
  for (size_t i = k; i < guard; i++) if (idx[i] != 12345 || sq[i] != -7) return "the search wrote past the k result slots";
  return "";
}
// one dynamic search, checked
template <typename Tree>
static std::string one(const Tree& t, const Pts& p, const V4& q, size_t k, double eps = 0) {
  std::vector<size_t> idx(k + 2, 12345); std::vector<double> sq(k + 2, -7);
  KnnSetting st; st.epsilon = eps;
  size_t f = t.knn_search(q, k, idx.data(), sq.data(), st);
  auto m = check_knn(p, q, k, f, idx.data(), sq.data(), eps);
  if (m.empty()) m = slots(k, f, idx, sq, k + 2);
  uint64_t h = 3;
  for (size_t i = 0; i < f; i++) h = seqx::mix(seqx::hash_d(h, sq[i]), idx[i]);
  SAMPLE(str(p.size(), " points from ", p[0].transpose(), " to ", p.back().transpose(), ", query ", q.transpose(), ", k=", k, ", epsilon=", eps, ": found ", f, f ? str(", nearest point ", idx[0], " at squared distance ", sq[0]) : std::string()));
  seqx::state(h);
  seqx::step();
  return m.empty() ? m : str(m, " [query ", q.transpose(), ", k=", k, ", eps=", eps, "]");
}
template <int N, typename Tree>
static std::string fixed(const Tree& t, const Pts& p, const V4& q, double eps = 0) {
  std::vector<size_t> idx(N + 2, 12345); std::vector<double> sq(N + 2, -7);
  KnnSetting st; st.epsilon = eps;
  size_t f = t.template knn_search<N>(q, idx.data(), sq.data(), st);
  auto m = check_knn(p, q, N, f, idx.data(), sq.data(), eps);
  if (m.empty()) m = slots(N, f, idx, sq, N + 2);
  return m.empty() ? m : str(m, " [query ", q.transpose(), ", static k=", N, "]");
}
template <typename Tree>
static std::string nn(const Tree& t, const Pts& p, const V4& q, double eps = 0) {
  size_t idx[2] = {12345, 12345}; double sq[2] = {-7, -7};
  KnnSetting st; st.epsilon = eps;
  size_t f = t.nearest_neighbor_search(q, idx, sq, st);
  auto m = check_knn(p, q, 1, f, idx, sq, eps);
  if (m.empty() && (idx[1] != 12345 || sq[1] != -7)) m = "nearest_neighbor_search wrote past its result slot";
  return m.empty() ? m : str(m, " [query ", q.transpose(), ", nearest]");
}
#define TRY(x) do { std::string m_ = (x); if (!m_.empty()) return m_; } while (0)

template <typename Proj>
static std::string small_case(const Pts& p, const Pts& queries, int leaf) {
  auto c = cloud(p);
  KdTreeBuilder b; b.max_leaf_size = leaf;
  UnsafeKdTree<PointCloud, Proj> t(*c, b);
  for (auto& q : queries) {
    for (size_t k = 1; k <= p.size() + 1; k++) TRY(one(t, p, q, k));
    TRY(nn(t, p, q));
    TRY(fixed<2>(t, p, q));
  }
  return "";
}

static std::string shape_case(int s, size_t n, int leaf, int scan, int proj) {
  Pts p = shape(s, n);
  Pts qs;
  for (size_t i = 0; i < n; i += 1 + n / 9) { qs.push_back(p[i]); qs.push_back(p[i] + V4(0.3, -0.2, 0.15, 0)); }
  for (int i = 0; i + 1 < (int)n && i < 4; i++) qs.push_back(0.5 * (p[i] + p[n - 1 - i]));
  qs.push_back(V4(0, 0, 0, 1)); qs.push_back(V4(1e4, -1e4, 1e4, 1)); qs.push_back(V4(-3, 1e3, 0.5, 1));
  auto c = cloud(p);
  auto run = [&](const auto& t) -> std::string {
    for (auto& q : qs) {
      for (size_t k : {size_t(1), size_t(2), size_t(5), size_t(10), size_t(21), n, n + 3}) if (k <= 140 || k >= n) { if (k > 310) continue; TRY(one(t, p, q, k)); }
      TRY(nn(t, p, q));
    }
    return "";
  };
  auto run_fixed = [&](const auto& t) -> std::string {
    for (auto& q : qs) { TRY(fixed<1>(t, p, q)); TRY(fixed<3>(t, p, q)); TRY(fixed<8>(t, p, q)); TRY(fixed<20>(t, p, q)); }
    return "";
  };
  KdTreeBuilder b; b.max_leaf_size = leaf; b.projection_setting.max_scan_count = scan;
  if (proj == 0) { UnsafeKdTree<PointCloud, AxisAlignedProjection> t(*c, b); TRY(run(t)); TRY(run_fixed(t)); }
  else if (proj == 1) { UnsafeKdTree<PointCloud, NormalProjection> t(*c, b); TRY(run(t)); TRY(run_fixed(t)); }
  else if (proj == 2) { KdTree<PointCloud> t(c, b); TRY(run(t)); }
  else if (proj == 3) { auto m = std::make_shared<Eigen::MatrixXd>(n, 4); for (size_t i = 0; i < n; i++) m->row(i) = p[i].transpose(); KdTree<Eigen::MatrixXd, NormalProjection> t(m, b); TRY(run(t)); }
  else if (proj == 4) {
    UnsafeKdTree<PointCloud> t(*c, b);
    for (auto& q : qs) for (int k : {1, 4, 17}) {
      std::vector<size_t> idx(k); std::vector<double> sq(k);
      size_t f = traits::knn_search(t, q, k, idx.data(), sq.data());
      TRY(check_knn(p, q, k, f, idx.data(), sq.data()));
      f = traits::nearest_neighbor_search(t, q, idx.data(), sq.data());
      TRY(check_knn(p, q, 1, f, idx.data(), sq.data()));
    }
  } else {
    KdTreeBuilderOMP o(2); o.max_leaf_size = leaf; o.projection_setting.max_scan_count = scan;
    UnsafeKdTree<PointCloud, AxisAlignedProjection> t(*c, o);
    TRY(run(t));
  }
  for (size_t i = 0; i < n; i++) if (c->point(i) != p[i]) return "the tree modified the input points";
  return "";
}

int main(int argc, char** argv) {
  const bool th = seqx::thorough(argc, argv);
  // every ordered cloud of n points over a 12-cell grid, every half-grid query, every k
  Pts grid, gq;
  for (int z = 0; z < 2; z++) for (int y = 0; y < 3; y++) for (int x = 0; x < 2; x++) grid.push_back(V4(x, y, z, 1));
  for (double z : {-0.5, 0.5, 1.0}) for (double y : {-1.0, 0.5, 1.0, 2.0, 4.0}) for (double x : {-0.25, 0.0, 0.5, 1.75}) gq.push_back(V4(x, y, z, 1));
  for (int n = 1; n <= (th ? 5 : 4); n++) {
    uint64_t total = 1;
    for (int i = 0; i < n; i++) total *= 12;
    for (int leaf : {1, 2})
      for (int pr : {0, 1}) {
        seqx::add(str("grid/n", n, "/leaf", leaf, pr ? "/normal" : "/axis"), total, [=](uint64_t i) {
          seqx::Odo o(i); Pts p(n);
          for (auto& a : p) a = grid[o(12)];
          return pr ? small_case<NormalProjection>(p, gq, leaf) : small_case<AxisAlignedProjection>(p, gq, leaf);
        });
      }
  }
  // every sequence over few values on a line (duplicates and ties at the split threshold)
  Pts lq;
  for (double x : {-1.0, 0.0, 0.5, 1.0, 1.5, 2.0, 3.0}) { lq.push_back(V4(x, 0, 0, 1)); lq.push_back(V4(x, 0.7, 0, 1)); }
  for (int n = 5; n <= (th ? 9 : 7); n++) {
    uint64_t total = 1;
    for (int i = 0; i < n; i++) total *= 3;
    for (int leaf : {1, 3})
      seqx::add(str("line/n", n, "/leaf", leaf), total, [=](uint64_t i) {
        seqx::Odo o(i); Pts p(n);
        for (auto& a : p) a = V4(o(3), 0, 0, 1);
        auto m = small_case<AxisAlignedProjection>(p, lq, leaf);
        return m.empty() ? small_case<NormalProjection>(p, lq, leaf) : m;
      });
  }
  // near ties: points straight across a splitting plane against points that are farther by a few parts in 1e8, on every side
  const int NT = th ? 5 : 4; uint64_t nt = 1; for (int k = 0; k < NT; k++) nt *= 18;
  seqx::add(str("near-ties/n", NT), nt * 3, [=](uint64_t i) -> std::string {
    seqx::Odo o(i); const double d = std::vector<double>{1.1, 1.3, 7.7}[o(3)]; Pts p(NT);
    for (auto& a : p) { a = V4(0, 0, 0, 1); int ax = o(3), sg = o(2); a[ax] = (sg ? -d : d) * (1 + 1e-8 * o(3)); }
    auto c = cloud(p); KdTreeBuilder b; b.max_leaf_size = 1;
    UnsafeKdTree<PointCloud> t(*c, b); UnsafeKdTree<PointCloud, NormalProjection> t2(*c, b);
    for (const V4& q : {V4(0, 0, 0, 1), V4(0.5 * d, 0, 0, 1)}) { for (size_t k : {1, 2}) { TRY(one(t, p, q, k)); TRY(one(t2, p, q, k)); } TRY(nn(t, p, q)); TRY(nn(t2, p, q)); }
    return "";
  });
  std::vector<size_t> ns = {1, 2, 3, 5, 8, 19, 20, 21, 22, 41, 64, 100, 127, 128, 129, 260, 300};
  if (th) for (size_t n : {4, 6, 7, 10, 15, 33, 63, 65, 80, 130, 200, 255, 256, 257, 511, 700, 1025, 2100}) ns.push_back(n);
  std::vector<int> leaves = {1, 2, 3, 10, 20, 100}, scans = {1, 2, 7, 128};
  seqx::add("shapes", (uint64_t)NSHAPE * ns.size() * leaves.size() * scans.size() * 6, [=](uint64_t i) {
    seqx::Odo o(i);
    int s = o(NSHAPE); size_t n = ns[o(ns.size())]; int leaf = leaves[o(leaves.size())], scan = scans[o(scans.size())], proj = o(6);
    auto m = shape_case(s, n, leaf, scan, proj);
    return m.empty() ? m : str(shape_name(s), " n=", n, " leaf=", leaf, " scan=", scan, " variant=", proj, ": ", m);
  });
  // beyond 16-bit indices: every tree variant over 70 000 points, k beyond one byte
  seqx::add("large", NSHAPE * 2 * 2, [](uint64_t i) -> std::string {
    seqx::Odo o(i); const int s = o(NSHAPE), variant = o(2); const size_t n = o(2) ? 70001 : 66000;
    if (s == COINCIDENT || s == FEWVAL) return "";
    Pts p = shape(s, n); auto c = cloud(p); Pts qs;
    for (size_t j = 0; j < n; j += n / 7) { qs.push_back(p[j]); qs.push_back(p[j] + V4(0.3, -0.2, 0.15, 0)); }
    qs.push_back(p[n - 1]); qs.push_back(p[65535]); qs.push_back(p[65536]); qs.push_back(V4(1e4, -1e4, 1e4, 1));
    auto go = [&](const auto& t) -> std::string {
      for (auto& q : qs) { TRY(one(t, p, q, 1)); TRY(one(t, p, q, 12)); TRY(nn(t, p, q)); }
      TRY(one(t, p, qs[1], 300)); return one(t, p, qs[3], 1030);
    };
    std::string m;
    if (variant == 0) { KdTree<PointCloud> t(c); m = go(t); }
    else { UnsafeKdTree<PointCloud, NormalProjection> t(*c); m = go(t); }
    return m.empty() ? m : str(shape_name(s), " n=", n, " variant=", variant, ": ", m);
  }, 300);
  // early termination: every threshold between consecutive true distances
  std::vector<size_t> en = {3, 9, 24, 50, 90};
  seqx::add("epsilon", (uint64_t)NSHAPE * en.size() * 4 * 2, [=](uint64_t i) -> std::string {
    seqx::Odo o(i);
    int s = o(NSHAPE); size_t n = en[o(en.size())]; int leaf = std::vector<int>{1, 2, 7, 20}[o(4)], pr = o(2);
    Pts p = shape(s, n);
    auto c = cloud(p);
    KdTreeBuilder b; b.max_leaf_size = leaf;
    auto go = [&](const auto& t, auto has_fixed) -> std::string {
      for (size_t qi = 0; qi < 5; qi++) {
        V4 q = qi < 2 ? p[qi * (n - 1)] : V4(0.5 * p[n / 2] + 0.5 * p[n / 3] + V4(0.1 * qi, 0.05, 0, 0)); q[3] = 1;
        std::vector<double> bf;
        for (auto& a : p) bf.push_back(d2(a, q));
        std::sort(bf.begin(), bf.end());
        for (size_t e = 0; e <= n; e += 1 + n / 24) {
          double eps = e == 0 ? bf[0] * 0.5 + 1e-12 : e == n ? bf[n - 1] * 2 + 1 : 0.5 * (bf[e - 1] + bf[e]);
          for (size_t k : {size_t(1), size_t(3), size_t(7)}) TRY(one(t, p, q, k, eps));
          TRY(nn(t, p, q, eps));
          if constexpr (has_fixed) TRY(fixed<4>(t, p, q, eps));
        }
      }
      return "";
    };
    if (pr) { UnsafeKdTree<PointCloud, NormalProjection> t(*c, b); TRY(go(t, std::true_type())); }
    else { UnsafeKdTree<PointCloud> t(*c, b); TRY(go(t, std::true_type())); KdTree<PointCloud> t2(c, b); TRY(go(t2, std::false_type())); }
    return "";
  });
  // the result container as a state machine: every push sequence
  const int L = th ? 8 : 7;
  uint64_t total = 1;
  for (int i = 0; i < L; i++) total *= 5;
  seqx::add(str("knn_result/len", L), total, [=](uint64_t i) -> std::string {
    seqx::Odo o(i);
    std::vector<int> d(L);
    for (auto& v : d) v = (int)o(5);  // 4 = stop
    int len = 0;
    while (len < L && d[len] != 4) len++;
    for (int v = len; v < L; v++) if (d[v] != 4 && v > len && d[v] != 0) return "";  // canonical form of shorter sequences only
    for (int k = 1; k <= 5; k++) {
      std::vector<size_t> idx(k + 1, 12345); std::vector<double> sq(k + 1, -7);
      KnnResult<-1> r(idx.data(), sq.data(), k);
      std::vector<double> all;
      for (int v = 0; v < len; v++) {
        r.push(v, d[v]);
        all.push_back(d[v]);
        auto best = all; std::sort(best.begin(), best.end());
        size_t w = std::min<size_t>(k, best.size());
        seqx::step();
        if (r.num_found() != w) return str("KnnResult k=", k, ": num_found ", r.num_found(), " after ", v + 1, " pushes");
        for (size_t x = 0; x < w; x++) {
          if (sq[x] != best[x]) return str("KnnResult k=", k, ": slot ", x, " holds ", sq[x], ", expected ", best[x]);
          if (idx[x] > (size_t)v || d[idx[x]] != sq[x]) return str("KnnResult k=", k, ": slot ", x, " pairs index ", idx[x], " with distance ", sq[x]);
          for (size_t y = 0; y < x; y++) if (idx[x] == idx[y]) return str("KnnResult k=", k, ": index twice");
        }
        if ((int)w == k && r.worst_distance() != best[k - 1]) return "worst_distance is not the k-th distance";
        if ((int)w < k && r.worst_distance() < 1e300) return "worst_distance of an unfilled result is finite";
      }
      auto m = slots(k, r.num_found(), idx, sq, k + 1);
      if (!m.empty()) return str("KnnResult k=", k, ": ", m);
    }
    return "";
  });
  return seqx::main("C07", argc, argv);
}
