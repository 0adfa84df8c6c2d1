// C02: parallel kd-tree construction under every schedule.
#include "common.hpp"
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
using namespace mch;

template <typename Proj>
struct State { std::shared_ptr<PointCloud> pts; std::unique_ptr<KdTree<PointCloud, Proj>> tree; std::vector<double> xyz; };

template <typename Tree>
std::string verify(const PointCloud& pts, const Tree& tree) {
  const size_t n = pts.size();
  std::vector<size_t> idx(n + 2); std::vector<double> sq(n + 2), bf(n);
  std::vector<Eigen::Vector4d> qs = {pts.point(0), pts.point(n / 2), Eigen::Vector4d(0.3, -0.7, 0.1, 1), Eigen::Vector4d(100, 3, -50, 1)};
  size_t f = 0;
  if (n > 5000) {  // large clouds: every point is found at its own position (positions are distinct), and spot checks
    for (size_t i = 0; i < n; i++) {
      size_t j; double d;
      if (!tree.nearest_neighbor_search(pts.point(i), &j, &d) || d > 1e-12) return str("point ", i, " is not found at its own position");
      if (pts.point(j) != pts.point(i)) return str("point ", i, " is answered with point ", j);
    }
  } else {
  // complete search: every point exactly once, at its true distance
  auto q0 = qs[2];
  f = tree.knn_search(q0, n + 1, idx.data(), sq.data());
  if (f != n) return str("a search for all ", n, " points found ", f);
  std::vector<char> seen(n, 0);
  for (size_t i = 0; i < n; i++) {
    if (idx[i] >= n) return str("search returned invalid index ", idx[i]);
    if (seen[idx[i]]++) return str("point ", idx[i], " is indexed more than once");
    if (std::abs(sq[i] - (pts.point(idx[i]) - q0).squaredNorm()) > 1e-9 * (1 + sq[i])) return "wrong distance reported";
  }
  }
  for (auto& q : qs)
    for (size_t k : {size_t(1), size_t(7)}) {
      if (k > n) continue;
      for (size_t i = 0; i < n; i++) bf[i] = (pts.point(i) - q).squaredNorm();
      std::partial_sort(bf.begin(), bf.begin() + k, bf.end());
      f = tree.knn_search(q, k, idx.data(), sq.data());
      if (f != k) return str("k=", k, " search found ", f);
      for (size_t i = 0; i < k; i++) if (std::abs(sq[i] - bf[i]) > 1e-9 * (1 + bf[i])) return str("k=", k, " neighbour ", i, ": distance ", sq[i], ", brute force ", bf[i]);
    }
  for (size_t i = 0; i < n; i += 7) {
    size_t j; double d;
    if (!tree.nearest_neighbor_search(pts.point(i), &j, &d) || d > 1e-12) return str("point ", i, " is not found at its own position");
  }
  return "";
}

template <typename Proj, typename Builder>
void scen(const std::string& name, mc::Config cfg, std::function<std::shared_ptr<PointCloud>()> gen, Builder b) {
  auto st = std::make_shared<State<Proj>>();
  mc::Scenario s;
  s.name = name; s.cfg = cfg;
  s.setup = [st, gen] { st->pts = gen(); };
  s.body = [st, b] {
    st->tree = std::make_unique<KdTree<PointCloud, Proj>>(st->pts, b);
  };
  s.check = [st, gen]() -> std::string {
    auto fresh = gen();
    for (size_t i = 0; i < fresh->size(); i++) if (fresh->point(i) != st->pts->point(i)) return "the builder modified the input points";
    uint64_t h = 0;
    size_t j; double d;
    for (size_t i = 0; i < fresh->size(); i += 5) { st->tree->nearest_neighbor_search(st->pts->point(i), &j, &d); h = h * 31 + j; }
    mc::observe(h);
    return verify(*st->pts, *st->tree);
  };
  mc::add(s);
}

// Every size of a list in one execution.
template <typename Builder>
void sizes(const std::string& name, mc::Config cfg, std::vector<size_t> ns, Builder b, int nest = 1) {
  struct S { std::vector<std::shared_ptr<PointCloud>> c; std::vector<std::unique_ptr<KdTree<PointCloud>>> t; };
  auto st = std::make_shared<S>();
  mc::Scenario s; s.name = name; s.cfg = cfg;
  s.setup = [=] { st->c.clear(); st->t.clear(); for (size_t n : ns) st->c.push_back(int_cloud(n, n > 5000 ? -2000 : -9, n > 5000 ? 2000 : 9, n + 3)); };
  s.body = [=] { st->t.resize(ns.size()); in_team(nest, [&](int t) { for (size_t k = t; k < ns.size(); k += nest) st->t[k] = std::make_unique<KdTree<PointCloud>>(st->c[k], b); }); };
  s.check = [=]() -> std::string {
    for (size_t k = 0; k < ns.size(); k++) { auto m = verify(*st->c[k], *st->t[k]); if (!m.empty()) return str("n=", ns[k], ": ", m); }
    return "";
  };
  mc::add(s);
}

static std::shared_ptr<PointCloud> line(size_t n) {
  auto c = std::make_shared<PointCloud>(); c->resize(n);
  for (size_t i = 0; i < n; i++) { double t = (double)((i * 7919) % n); c->point(i) = Eigen::Vector4d(t, 2 * t, 0, 1); }
  return c;
}

int main(int argc, char** argv) {
  const bool th = mc::thorough(argc, argv);
  auto cfg = [&](int T, mc::Policy p, int bound) { mc::Config c; c.max_threads = T; c.policy = p; c.bound = bound; return c; };
  auto omp = [](int nt, int leaf) { KdTreeBuilderOMP b(nt); b.max_leaf_size = leaf; return b; };
  auto tbb = [](int leaf) { KdTreeBuilderTBB b; b.max_leaf_size = leaf; return b; };
  auto cloud = [](size_t n, int r) { return [n, r] { return int_cloud(n, -r, r, 11 + n); }; };
  const char* pn[] = {"greedy", "rr", "last"};
#ifdef MCRT_MAXT
  for (int p : {0, 1, 2})
    for (int nt : {9, 17, 33, 65, 70}) { sizes(str("omp/wide/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, 0), {5, 513, 2100}, omp(nt, 20)); sizes(str("tbb/wide/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, 0), {5, 513, 2100}, tbb(20)); }
  return mc::main("C02", argc, argv);
#endif
  for (int nt : {1, 2, 3}) { sizes(str("omp/nested/t", nt), cfg(2, mc::ROUND_ROBIN, th ? 3 : 2), {30, 520}, omp(nt, 300), 2); sizes(str("tbb/nested/t", nt), cfg(nt, mc::ROUND_ROBIN, th ? 2 : 1), {30, 520}, tbb(300), 2); }
  // small clouds, serial part of the builders, extreme leaf sizes
  for (size_t n : {1, 2, 3, 9, 40})
    for (int leaf : {1, 2, 20}) {
      scen<AxisAlignedProjection>(str("omp/small/n", n, "/leaf", leaf), cfg(2, mc::ROUND_ROBIN, 1), cloud(n, 5), omp(2, leaf));
      scen<AxisAlignedProjection>(str("tbb/small/n", n, "/leaf", leaf), cfg(2, mc::ROUND_ROBIN, 1), cloud(n, 5), tbb(leaf));
    }
  for (int p : {0, 1, 2}) {
    if (!th && p == 2) continue;
    for (size_t n : {512, 513, 600, 1030})
      for (int nt : {2, 3}) {
        if (!th && (n == 512 || (nt == 3 && n == 513))) { if (p) continue; }
        auto c = cfg(nt, (mc::Policy)p, th ? (n <= 600 ? 4 : 3) : (nt == 2 && n <= 600 ? 3 : 2));
        scen<AxisAlignedProjection>(str("omp/n", n, "/t", nt, "/", pn[p]), c, cloud(n, 12), omp(nt, n > 1000 ? 140 : 200));
        auto ct = c; ct.bound = th ? 4 : (n <= 600 ? 3 : 2);
        scen<AxisAlignedProjection>(str("tbb/n", n, "/t", nt, "/", pn[p]), ct, cloud(n, 12), tbb(n > 1000 ? 140 : 200));
      }
  }
  {
    auto c = cfg(2, mc::ROUND_ROBIN, th ? 3 : 2);
    c.task_undeferred = true; c.team_shrink = true;
    scen<AxisAlignedProjection>("omp/undeferred/n600/leaf20", c, cloud(600, 12), omp(2, 20));
    scen<AxisAlignedProjection>("omp/dup/n600", c, cloud(600, 1), omp(2, 60));
    scen<NormalProjection>("omp/normalproj/n600", c, cloud(600, 9), omp(2, 150));
    scen<NormalProjection>("tbb/normalproj/n600", c, cloud(600, 9), tbb(150));
    scen<AxisAlignedProjection>("tbb/dup/n600", c, cloud(600, 1), tbb(60));
    scen<AxisAlignedProjection>("omp/line/n520/leaf1", cfg(2, mc::ROUND_ROBIN, 1), [] { return line(520); }, omp(2, 1));
    scen<AxisAlignedProjection>("tbb/line/n520/leaf1", cfg(2, mc::ROUND_ROBIN, th ? 1 : 0), [] { return line(520); }, tbb(1));
  }
  // every number of points up to a limit, in blocks (one execution each)
  for (int leaf : {1, 2, 3, 5, 8, 20, 21})
    for (size_t n0 = 1; n0 <= (th ? 2060u : 700u); n0 += 50) {
      std::vector<size_t> ns; for (size_t n = n0; n < n0 + 50; n++) ns.push_back(n);
      if (!th && n0 > 350 && leaf < 20) continue;
      sizes(str("omp/sizes/", n0, "/leaf", leaf), cfg(2, mc::ROUND_ROBIN, 0), ns, omp(2, leaf)); sizes(str("tbb/sizes/", n0, "/leaf", leaf), cfg(2, mc::ROUND_ROBIN, 0), ns, tbb(leaf));
    }
  for (int nt : {2, 5}) { sizes(str("omp/large/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), {20001, 66001}, omp(nt, 20)); sizes(str("tbb/large/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), {20001, 66001}, tbb(20)); }
  std::vector<size_t> mid = {513, 514, 515, 767, 768, 1025, 1026, 1027, 1537, 2049};
  for (int leaf : {1, 3, 20}) {
    sizes(str("omp/sizes/big/leaf", leaf), cfg(3, mc::GREEDY, 0), mid, omp(3, leaf)); sizes(str("tbb/sizes/big/leaf", leaf), cfg(3, mc::GREEDY, 0), mid, tbb(leaf));
  }
  if (th) {
    scen<AxisAlignedProjection>("omp/n2100/t3", cfg(3, mc::ROUND_ROBIN, 1), cloud(2100, 30), omp(3, 300));
    scen<AxisAlignedProjection>("tbb/n2100/t3", cfg(3, mc::ROUND_ROBIN, 1), cloud(2100, 30), tbb(300));
    scen<AxisAlignedProjection>("omp/n1030/t4", cfg(4, mc::ROUND_ROBIN, 2), cloud(1030, 12), omp(4, 300));
  }
  return mc::main("C02", argc, argv);
}
