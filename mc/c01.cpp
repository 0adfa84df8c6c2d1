// C01: parallel reductions under every schedule.
#include "common.hpp"
#include <limits>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/registration/rejector.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
using namespace mch;

struct Tree {};
// Integer-valued factor: sums are exact in any order, rejected factors leave NaN behind.
struct ProbeFactor {
  struct Setting {};
  int tid = 0, lin = 0, err = 0;
  size_t src = ~size_t(0);
  bool inlier_ = false;
  static bool rejected(size_t i) { return i % 5 == 2; }
  template <typename A, typename B, typename C, typename R>
  bool linearize(const A&, const B&, const C&, const Eigen::Isometry3d& T, size_t i, const R&, Eigen::Matrix<double, 6, 6>* H, Eigen::Matrix<double, 6, 1>* b, double* e) {
    lin++; src = i; tid = mc::self();
    if (rejected(i)) {
      H->setConstant(std::numeric_limits<double>::quiet_NaN()); b->setConstant(std::numeric_limits<double>::quiet_NaN()); *e = std::numeric_limits<double>::quiet_NaN();
      return false;
    }
    for (int r = 0; r < 6; r++) for (int c = 0; c < 6; c++) (*H)(r, c) = (double)((i + 1) * (r + 1) + c);
    for (int r = 0; r < 6; r++) (*b)[r] = (double)i * 3 - r;
    *e = (double)(i + 1) * T.translation().x();
    return true;
  }
  template <typename A, typename B>
  double error(const A&, const B&, const Eigen::Isometry3d& T) { err++; return rejected(src) ? 0.0 : (double)(src + 1) * T.translation().x(); }
};

struct State {
  PointCloud target, source; Tree tree; std::vector<ProbeFactor> f;
  std::tuple<Eigen::Matrix<double, 6, 6>, Eigen::Matrix<double, 6, 1>, double> r1, r2; double e1, e2;
};

template <typename Reduction>
void probe(const std::string& name, mc::Config cfg, size_t n, std::function<Reduction()> make) {
  auto st = std::make_shared<State>();
  mc::Scenario s;
  s.name = name; s.cfg = cfg;
  s.setup = [st, n] { st->f.assign(n, ProbeFactor()); };
  s.body = [st, make] {
    Reduction red = make();
    Eigen::Isometry3d T1 = Eigen::Isometry3d::Identity(), T2 = T1;
    T1.translation().x() = 2; T2.translation().x() = 5;
    st->r1 = red.linearize(st->target, st->source, st->tree, 0, T1, st->f);
    st->e1 = red.error(st->target, st->source, T2, st->f);
    st->r2 = red.linearize(st->target, st->source, st->tree, 0, T2, st->f);
  };
  s.check = [st, n]() -> std::string {
    for (size_t i = 0; i < n; i++) {
      auto& f = st->f[i];
      if (f.lin != 2) return str("factor ", i, " linearized ", f.lin, " times in 2 calls");
      if (f.err != 1) return str("factor ", i, " evaluated ", f.err, " times in 1 call");
      if (f.src != i) return str("factor ", i, " linearized with source index ", f.src);
      mc::observe((uint64_t)f.tid);
    }
    Eigen::Matrix<double, 6, 6> H = Eigen::Matrix<double, 6, 6>::Zero(); Eigen::Matrix<double, 6, 1> b = Eigen::Matrix<double, 6, 1>::Zero(); double e = 0;
    for (size_t i = 0; i < n; i++) if (!ProbeFactor::rejected(i)) {
      for (int r = 0; r < 6; r++) for (int c = 0; c < 6; c++) H(r, c) += (double)((i + 1) * (r + 1) + c);
      for (int r = 0; r < 6; r++) b[r] += (double)i * 3 - r;
      e += (double)(i + 1);
    }
    auto cmp = [&](const auto& r, double t, const char* w) -> std::string {
      if (!(std::get<0>(r) == H)) return str(w, ": H differs from the serial sum");
      if (!(std::get<1>(r) == b)) return str(w, ": b differs from the serial sum");
      if (!(std::get<2>(r) == e * t)) return str(w, ": e=", std::get<2>(r), " expected ", e * t);
      return "";
    };
    auto m = cmp(st->r1, 2, "first linearize"); if (!m.empty()) return m;
    m = cmp(st->r2, 5, "second linearize"); if (!m.empty()) return m;
    if (!(st->e1 == 5 * e)) return str("error()=", st->e1, " expected ", 5 * e);
    return "";
  };
  mc::add(s);
}

// Every size of a list, one after the other in one execution: block and grain borders of any block size.
struct SizesState { PointCloud target, source; Tree tree; std::vector<std::vector<ProbeFactor>> f; std::vector<std::tuple<Eigen::Matrix<double, 6, 6>, Eigen::Matrix<double, 6, 1>, double>> r; std::vector<double> e; };
template <typename Reduction>
void sizes(const std::string& name, mc::Config cfg, const std::vector<size_t>& ns, std::function<Reduction()> make, int nest = 1) {
  auto st = std::make_shared<SizesState>();
  mc::Scenario s;
  s.name = name; s.cfg = cfg;
  s.setup = [st, ns] { st->f.clear(); for (size_t n : ns) st->f.emplace_back(n); st->r.resize(ns.size()); st->e.assign(ns.size(), -1); };
  s.body = [st, make, ns, nest] {
    Eigen::Isometry3d T = Eigen::Isometry3d::Identity(); T.translation().x() = 2;
    in_team(nest, [&](int t) { for (size_t k = t; k < ns.size(); k += nest) {
      Reduction red = make();
      st->r[k] = red.linearize(st->target, st->source, st->tree, 0, T, st->f[k]);
      st->e[k] = red.error(st->target, st->source, T, st->f[k]);
    } });
  };
  s.check = [st, ns]() -> std::string {
    for (size_t k = 0; k < ns.size(); k++) {
      const size_t n = ns[k];
      Eigen::Matrix<double, 6, 6> H = Eigen::Matrix<double, 6, 6>::Zero(); Eigen::Matrix<double, 6, 1> b = Eigen::Matrix<double, 6, 1>::Zero(); double e = 0;
      for (size_t i = 0; i < n; i++) {
        auto& f = st->f[k][i];
        if (f.lin != 1 || f.err != 1 || f.src != i) return str("n=", n, ": factor ", i, " linearized ", f.lin, " times and evaluated ", f.err, " times in 1 call each");
        if (ProbeFactor::rejected(i)) continue;
        for (int r = 0; r < 6; r++) for (int c = 0; c < 6; c++) H(r, c) += (double)((i + 1) * (r + 1) + c);
        for (int r = 0; r < 6; r++) b[r] += (double)i * 3 - r;
        e += 2.0 * (double)(i + 1);
      }
      if (!(std::get<0>(st->r[k]) == H && std::get<1>(st->r[k]) == b && std::get<2>(st->r[k]) == e)) return str("n=", n, ": the linear system differs from the serial sum");
      if (!(st->e[k] == e)) return str("n=", n, ": error()=", st->e[k], " expected ", e);
    }
    return "";
  };
  mc::add(s);
}

// Library factors with a real tree and rejector: inlier set and system equal to SerialReduction.
struct RealState {
  std::shared_ptr<PointCloud> target, source; std::unique_ptr<KdTree<PointCloud>> tree; DistanceRejector rej;
  std::vector<ICPFactor> f, g; Eigen::Isometry3d T;
  std::tuple<Eigen::Matrix<double, 6, 6>, Eigen::Matrix<double, 6, 1>, double> r; double e;
};
template <typename Reduction>
void real(const std::string& name, mc::Config cfg, size_t n, std::function<Reduction()> make) {
  auto st = std::make_shared<RealState>();
  mc::Scenario s;
  s.name = name; s.cfg = cfg;
  s.setup = [st, n] {
    st->target = int_cloud(n + 5, -6, 6, 3); st->source = int_cloud(n, -7, 7, 4);
    st->tree = std::make_unique<KdTree<PointCloud>>(st->target);
    st->rej.max_dist_sq = 6.5;
    st->T = Eigen::Isometry3d::Identity(); st->T.translation() << 0.5, -0.25, 0.125;
    st->f.resize(n); st->g.resize(n);
  };
  s.body = [st, make] {
    Reduction red = make();
    st->r = red.linearize(*st->target, *st->source, *st->tree, st->rej, st->T, st->f);
    st->e = red.error(*st->target, *st->source, st->T, st->f);
  };
  s.check = [st, n]() -> std::string {
    SerialReduction red;
    auto q = red.linearize(*st->target, *st->source, *st->tree, st->rej, st->T, st->g);
    double e = red.error(*st->target, *st->source, st->T, st->g);
    for (size_t i = 0; i < n; i++) if (st->f[i].inlier() != st->g[i].inlier()) return str("inlier flag of factor ", i, " differs from serial");
    double s = std::get<0>(q).cwiseAbs().maxCoeff();
    if (!((std::get<0>(q) - std::get<0>(st->r)).cwiseAbs().maxCoeff() <= 1e-10 * (s + 1))) return "H differs from serial";
    if (!((std::get<1>(q) - std::get<1>(st->r)).cwiseAbs().maxCoeff() <= 1e-10 * (s + 1))) return "b differs from serial";
    if (!(std::abs(std::get<2>(q) - std::get<2>(st->r)) <= 1e-10 * (s + 1))) return "e differs from serial";
    if (!(std::abs(e - st->e) <= 1e-10 * (s + 1))) return "error() differs from serial";
    return "";
  };
  mc::add(s);
}

int main(int argc, char** argv) {
  const bool th = mc::thorough(argc, argv);
  auto cfg = [&](int T, mc::Policy p, int bound) { mc::Config c; c.max_threads = T; c.policy = p; c.bound = bound; return c; };
  const char* pn[] = {"greedy", "rr", "last"};
  auto omp = [](int nt) { return std::function<ParallelReductionOMP()>([nt] { ParallelReductionOMP r; r.num_threads = nt; return r; }); };
  auto tbb = [] { return std::function<ParallelReductionTBB()>([] { return ParallelReductionTBB(); }); };
#ifdef MCRT_MAXT  // many threads (default schedules): more than any fixed number of slots
  for (int p : {0, 1, 2})
    for (int nt : {9, 16, 17, 33, 65, 70}) { sizes<ParallelReductionOMP>(str("omp/wide/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, 0), {0, 5, 64, 130, 700}, omp(nt)); sizes<ParallelReductionTBB>(str("tbb/wide/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, 0), {0, 5, 64, 130, 700}, tbb()); }
  return mc::main("C01", argc, argv);
#endif
  // called by the threads of a parallel region of the user
  for (int nt : {1, 2, 3}) { sizes<ParallelReductionOMP>(str("omp/nested/t", nt), cfg(2, mc::ROUND_ROBIN, th ? 3 : 2), {9, 17}, omp(nt), 2); sizes<ParallelReductionTBB>(str("tbb/nested/t", nt), cfg(nt, mc::ROUND_ROBIN, th ? 2 : 1), {9, 17}, tbb(), 2); }
  for (int nt : {1, 2, 3, 4})
    for (size_t n : {0, 1, 8, 19, 33, 70})
      for (int p : {0, 1, 2}) {
        if (!th && (p == 2 || (nt == 3 && n != 19))) continue;
        auto c = cfg(nt == 2 ? 3 : 2, (mc::Policy)p, th ? 3 : 2);  // runtime default differs from the requested team size
        c.team_shrink = true;
        if (!th && nt == 4 && n == 70) c.bound = 1;
        probe<ParallelReductionOMP>(str("omp/t", nt, "/n", n, "/", pn[p]), c, n, omp(nt));
      }
  for (int nt : {1, 2, 3, 4})
    for (size_t n : {0, 1, 8, 17, 33, 70, 130})
      for (int p : {0, 1, 2}) {
        if (!th && (p == 2 || (nt == 1 && n != 33) || n == 130)) continue;
        probe<ParallelReductionTBB>(str("tbb/t", nt, "/n", n, "/", pn[p]), cfg(nt, (mc::Policy)p, th ? (n <= 33 ? 3 : 2) : 1), n, tbb());
      }
  for (int nt : {1, 2}) {
    probe<ParallelReductionTBB>(str("tbb/t", nt, "/n2000"), cfg(nt, mc::ROUND_ROBIN, th ? 1 : 0), 2000, tbb());
    probe<ParallelReductionOMP>(str("omp/t", nt, "/n2000"), cfg(nt, mc::ROUND_ROBIN, th ? 1 : 0), 2000, omp(nt));
  }
  std::vector<size_t> small, big = {257, 300, 401, 511, 512, 513, 641, 769, 1000, 1001, 1023, 1025, 1537, 2047, 2049, 4097};
  for (size_t n = 0; n <= (th ? 500 : 200); n++) small.push_back(n);
  for (int nt : {1, 2, 3}) {
    sizes<ParallelReductionTBB>(str("tbb/sizes/small/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), small, tbb()); sizes<ParallelReductionTBB>(str("tbb/sizes/big/t", nt), cfg(nt, mc::GREEDY, 0), big, tbb());
    sizes<ParallelReductionOMP>(str("omp/sizes/small/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), small, omp(nt)); sizes<ParallelReductionOMP>(str("omp/sizes/big/t", nt), cfg(nt, mc::GREEDY, 0), big, omp(nt));
  }
  // beyond 16-bit counts
  for (int nt : {2, 5}) { sizes<ParallelReductionOMP>(str("omp/large/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), {20011, 66001}, omp(nt)); sizes<ParallelReductionTBB>(str("tbb/large/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), {20011, 66001}, tbb()); }
  for (int nt : {5, 6, 8}) {
    probe<ParallelReductionOMP>(str("omp/t", nt, "/n50"), cfg(nt, mc::ROUND_ROBIN, th ? 2 : 1), 50, omp(nt));
    probe<ParallelReductionTBB>(str("tbb/t", nt, "/n50"), cfg(nt, mc::ROUND_ROBIN, 1), 50, tbb());
  }
  real<ParallelReductionOMP>("icp/omp/t3", cfg(3, mc::ROUND_ROBIN, 2), 40, omp(3));
  real<ParallelReductionTBB>("icp/tbb/t3", cfg(3, mc::ROUND_ROBIN, th ? 2 : 1), 40, tbb());
  return mc::main("C01", argc, argv);
}
