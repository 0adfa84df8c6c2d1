// C05: parallel normal / covariance estimation under every schedule.
#include "common.hpp"
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
using namespace mch;

// A bumpy sheet seen from the origin with irrational-looking offsets: no equidistant neighbours, distinct eigenvalues.
static std::shared_ptr<PointCloud> sheet(size_t n, bool prefill) {
  auto c = std::make_shared<PointCloud>();
  c->resize(n);
  Mix r(n + 5);
  for (size_t i = 0; i < n; i++) {
    double x = r.in(-20000, 20000) * 1e-3 + 0.00037 * i, y = r.in(-20000, 20000) * 1e-3 - 0.00021 * i;
    c->point(i) = Eigen::Vector4d(x, y, 5.0 + 0.13 * x - 0.21 * y + 0.4 * std::sin(x) + 0.3 * std::cos(1.7 * y), 1.0);
    c->normal(i) = prefill ? Eigen::Vector4d(7, 7, 7, 7) : Eigen::Vector4d::Zero().eval();
    c->cov(i) = prefill ? Eigen::Matrix4d(Eigen::Matrix4d::Constant(9)) : Eigen::Matrix4d(Eigen::Matrix4d::Zero());
  }
  return c;
}

struct State { std::shared_ptr<PointCloud> c; std::unique_ptr<UnsafeKdTree<PointCloud>> tree; };
// what: 0 normals, 1 covariances, 2 both
template <typename... Tree>
static void serial(int what, PointCloud& c, int k, Tree&... t) {
  if (what == 0) estimate_normals(c, t..., k); else if (what == 1) estimate_covariances(c, t..., k); else estimate_normals_covariances(c, t..., k);
}
template <typename... Tree>
static void run_omp(int what, PointCloud& c, int k, int nt, Tree&... t) {
  if (what == 0) estimate_normals_omp(c, t..., k, nt); else if (what == 1) estimate_covariances_omp(c, t..., k, nt); else estimate_normals_covariances_omp(c, t..., k, nt);
}
template <typename... Tree>
static void run_tbb(int what, PointCloud& c, int k, Tree&... t) {
  if (what == 0) estimate_normals_tbb(c, t..., k); else if (what == 1) estimate_covariances_tbb(c, t..., k); else estimate_normals_covariances_tbb(c, t..., k);
}

static void scen(const std::string& name, mc::Config cfg, size_t n, int k, int what, bool use_tbb, bool with_tree, bool prefill, int nt) {
  auto st = std::make_shared<State>();
  mc::Scenario s;
  s.name = name; s.cfg = cfg;
  s.setup = [=] { st->c = sheet(n, prefill); if (with_tree) st->tree = std::make_unique<UnsafeKdTree<PointCloud>>(*st->c); };
  s.body = [=] {
    if (with_tree) { if (use_tbb) run_tbb(what, *st->c, k, *st->tree); else run_omp(what, *st->c, k, nt, *st->tree); }
    else { if (use_tbb) run_tbb(what, *st->c, k); else run_omp(what, *st->c, k, nt); }
  };
  s.check = [=]() -> std::string {
    auto ref = sheet(n, prefill);
    if (n) serial(what, *ref, k);
    if (st->c->size() != n) return str("cloud size changed to ", st->c->size());
    for (size_t i = 0; i < n; i++) {
      if (st->c->point(i) != ref->point(i)) return str("coordinates of point ", i, " were modified");
      if ((st->c->normal(i) - ref->normal(i)).norm() > 1e-6) return str("normal of point ", i, " is (", st->c->normal(i).transpose(), "), serial gives (", ref->normal(i).transpose(), ")");
      if ((st->c->cov(i) - ref->cov(i)).norm() > 1e-6) return str("covariance of point ", i, " differs from the serial one by ", (st->c->cov(i) - ref->cov(i)).norm());
    }
    return "";
  };
  mc::add(s);
}

// Every size of a list in one execution, with a cheap search: block and grain borders of any block size.
struct RingTree {
  const PointCloud* c;
  template <typename Setting = KnnSetting> size_t knn_search(const Eigen::Vector4d& q, int k, size_t* idx, double* sq, const Setting& = Setting()) const {
    const size_t n = c->size(), f = std::min<size_t>(n, 6);
    // the neighbours are a function of the query coordinates only
    size_t h = (size_t)(std::abs(q[0]) * 1000 + std::abs(q[1]) * 77) % (n ? n : 1);
    for (size_t j = 0; j < f && (int)j < k; j++) { idx[j] = (h + j) % n; sq[j] = (c->point(idx[j]) - q).squaredNorm(); }
    return std::min<size_t>(f, k);
  }
};
struct SizesState { std::vector<std::shared_ptr<PointCloud>> c; };
static void sizes(const std::string& name, mc::Config cfg, const std::vector<size_t>& ns, bool tbb, int nt, int nest = 1) {
  auto st = std::make_shared<SizesState>();
  mc::Scenario s; s.name = name; s.cfg = cfg;
  s.setup = [=] { st->c.clear(); for (size_t n : ns) st->c.push_back(sheet(n, true)); };
  s.body = [=] { in_team(nest, [&](int tn) { for (size_t k = tn; k < st->c.size(); k += nest) { auto& c = st->c[k]; RingTree t{c.get()}; if (tbb) run_tbb(2, *c, 7, t); else run_omp(2, *c, 7, nt, t); } }); };
  s.check = [=]() -> std::string {
    for (size_t x = 0; x < ns.size(); x++) {
      auto ref = sheet(ns[x], true); RingTree t{ref.get()}; if (ns[x]) serial(2, *ref, 7, t); auto& c = st->c[x];
      if (c->size() != ns[x]) return str("n=", ns[x], ": cloud size changed to ", c->size());
      for (size_t i = 0; i < ns[x]; i++) if (c->point(i) != ref->point(i) || (c->normal(i) - ref->normal(i)).norm() > 1e-6 || (c->cov(i) - ref->cov(i)).norm() > 1e-6) return str("n=", ns[x], ": attributes of point ", i, " differ from the serial ones");
    }
    return "";
  };
  mc::add(s);
}

int main(int argc, char** argv) {
  const bool th = mc::thorough(argc, argv);
  auto cfg = [&](int T, int bound) { mc::Config c; c.max_threads = T; c.policy = mc::ROUND_ROBIN; c.bound = bound; return c; };
  const char* wn[] = {"normals", "covs", "both"};
#ifdef MCRT_MAXT
  for (auto p : {mc::GREEDY, mc::ROUND_ROBIN, mc::LAST_FIRST})
    for (int nt : {9, 17, 33, 65, 70}) { auto c = cfg(nt, 0); c.policy = p; sizes(str("omp/wide/t", nt, "/p", (int)p), c, {0, 5, 70, 150, 600}, false, nt); sizes(str("tbb/wide/t", nt, "/p", (int)p), c, {0, 5, 70, 150, 600}, true, nt); }
  return mc::main("C05", argc, argv);
#endif
  for (int nt : {1, 2, 3}) { sizes(str("omp/nested/t", nt), cfg(2, th ? 3 : 2), {9, 14}, false, nt, 2); sizes(str("tbb/nested/t", nt), cfg(nt, th ? 2 : 1), {9, 14}, true, nt, 2); }
  for (int what : {0, 1, 2})
    for (bool tree : {false, true})
      for (size_t n : {0, 1, 4, 6, 12, 41}) {
        if (n == 0 && tree) continue;
        for (int nt : {1, 2, 3, 8}) {
          if (nt == 8 && n > 6) continue;
          auto c = cfg(nt, nt == 8 ? (th ? 2 : 1) : (th ? (n > 12 ? 3 : 5) : (n > 12 ? 2 : 3)));
          c.team_shrink = true;
          scen(str("omp/", wn[what], tree ? "/tree" : "", "/n", n, "/t", nt), c, n, 7, what, false, tree, n == 6, nt);
          if (nt == 2 || nt == 3) scen(str("tbb/", wn[what], tree ? "/tree" : "", "/n", n, "/t", nt), cfg(nt, th ? (n > 12 ? 3 : 5) : (n > 12 ? 1 : 2)), n, 7, what, true, tree, n == 6, nt);
        }
      }
  for (int k : {64, 65, 100, 130}) {  // more neighbours than any small fixed scratch buffer
    scen(str("omp/both/k", k, "/n90/t2"), cfg(2, th ? 2 : 1), 90, k, 2, false, true, true, 2);
    scen(str("tbb/both/k", k, "/n90/t2"), cfg(2, 1), 90, k, 2, true, true, true, 2);
  }
  for (int k : {3, 5, 20})
    for (int nt : {2, 3}) {
      auto c = cfg(nt, th ? 3 : 2);
      scen(str("omp/both/k", k, "/n15/t", nt), c, 15, k, 2, false, true, true, nt);
      scen(str("tbb/both/k", k, "/n15/t", nt), c, 15, k, 2, true, true, true, nt);
    }
  for (auto p : {mc::GREEDY, mc::LAST_FIRST}) {
    auto c = cfg(2, th ? 3 : 2); c.policy = p;
    scen(str("omp/both/n100/p", (int)p), c, 100, 10, 2, false, false, false, 2);
    c.bound = th ? 2 : 1;
    scen(str("tbb/both/n100/p", (int)p), c, 100, 10, 2, true, false, false, 2);
  }
  std::vector<size_t> small, big = {257, 300, 401, 511, 512, 513, 641, 769, 1000, 1001, 1023, 1025, 1537, 2049, 4097};
  for (size_t n = 0; n <= (th ? 500 : 160); n++) small.push_back(n);
  for (int nt : {1, 2, 3}) {
    sizes(str("tbb/sizes/small/t", nt), cfg(nt, 0), small, true, nt); sizes(str("tbb/sizes/big/t", nt), cfg(nt, 0), big, true, nt);
    sizes(str("omp/sizes/small/t", nt), cfg(nt, 0), small, false, nt); sizes(str("omp/sizes/big/t", nt), cfg(nt, 0), big, false, nt);
  }
  for (int nt : {2, 5}) { sizes(str("tbb/large/t", nt), cfg(nt, 0), {20011, 66001}, true, nt); sizes(str("omp/large/t", nt), cfg(nt, 0), {20011, 66001}, false, nt); }  // beyond 16-bit counts
  scen("tbb/both/n700/t2", cfg(2, th ? 1 : 0), 700, 6, 2, true, true, false, 2);
  scen("tbb/both/n700/t1", cfg(1, 0), 700, 6, 2, true, true, false, 1);
  scen("omp/both/n700/t2", cfg(2, th ? 1 : 0), 700, 6, 2, false, true, false, 2);
  if (th) { scen("omp/both/n300/t4", cfg(4, 2), 300, 10, 2, false, true, false, 4); scen("tbb/both/n300/t4", cfg(4, 1), 300, 10, 2, true, true, false, 4); }
  return mc::main("C05", argc, argv);
}
