// C14: the optimizers as protocol automata. The environment (linear systems, errors of trial poses, general factor) is scripted;
// every script up to a depth is executed on the real optimizers and the observed trace is compared with a reference automaton.
#include "fac.hpp"
#include <small_gicp/registration/optimizer.hpp>
#include <small_gicp/registration/registration.hpp>
using namespace fac;
using namespace small_gicp;

struct Ev { char kind; Iso T; };
struct Sys { M6 H, Hg; V6 b, bg; double e, eg; int inliers; };
static Sys make_sys(int k, int iter, bool nonsym = false) {
  Sys s; Mix r(k * 7 + 3); Eigen::Matrix<double, 8, 6> J; for (int i = 0; i < 8; i++) for (int j = 0; j < 6; j++) J(i, j) = r.u(-1, 1);
  s.H = J.transpose() * J + 0.5 * M6::Identity(); for (int j = 0; j < 6; j++) s.b[j] = r.u(0.3, 1) * (r.in(0, 1) ? 1 : -1);
  s.Hg = M6::Zero(); s.Hg.diagonal() << 0, 1, 0, 2, 0, 0.5; s.bg << 0.01, 0, -0.02, 0, 0.03, 0;
  s.bg *= 1e-9; s.b *= 0.5;
  if (k == 2) s.b *= 1e-7;                                             // both parts of the step small
  if (k == 3) { s.H = M6::Identity(); s.b.head<3>() *= 1e-7; }         // small rotation, large translation
  if (k == 4) { s.H = M6::Identity(); s.b.tail<3>() *= 1e-7; }         // large rotation, small translation
  if (k == 1) s.H *= 40;
  if (k == 5) { s.e = s.eg = 0; s.inliers = 5 - iter % 3; return s; }   // already at zero error
  s.e = 10.0 + k - iter; s.eg = 0.25 * (k + 1); s.inliers = (k * 3 + iter) % 5;
  return s;
}
// offered errors of a trial pose relative to the current total: point part and general part
struct Off { double dp, dg; };
static const std::vector<Off> OFFS = {{-1, 0}, {1, 0}, {0, 0}, {-1, 2}, {1, -2}, {NAN, 0}, {0, NAN}, {INFINITY, 0}, {1e-12, 0}};

struct Env {
  std::vector<int> lin_script, trial_script; size_t nl = 0, nt = 0; size_t nfactors = 0; int pat = -1;
  bool on(size_t i) const { return pat < 0 ? (int)i < cur.inliers : pat == 0 ? true : pat == 1 ? i % 2 == 0 : pat == 2 ? i + 1 < nfactors : pat == 3 ? i + 1 == nfactors : pat == 4 ? i >= nfactors / 2 : false; }
  bool general = true; std::vector<int> draws;  // order of the choices made: 0 system, 1 trial error
  std::vector<Ev> log; std::string bad;
  Sys cur; double cur_p = 0, cur_g = 0; std::map<std::vector<double>, Off> memo;
  static std::vector<double> key(const Iso& T) { return std::vector<double>(T.matrix().data(), T.matrix().data() + 16); }
  // trial errors are a function of the pose within one outer iteration
  Off trial(const Iso& T) {
    auto k = key(T); auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    int c = nt < trial_script.size() ? trial_script[nt] : 0; nt++; draws.push_back(1);
    Off o = OFFS[c];
    Off r{cur_p + o.dp, cur_g + o.dg};
    memo[k] = r; log.push_back({'t', T});
    return r;
  }
};
struct FakeFactor {
  struct Setting { int tag; Setting() : tag(0) {} };
  FakeFactor(const Setting& s = Setting()) : tag(s.tag) {}
  bool inlier() const { return in; }
  bool in = false; int tag;
};
struct ScriptReduction {
  Env* env = nullptr;
  template <typename A, typename B, typename C, typename R, typename F>
  std::tuple<M6, V6, double> linearize(const A&, const B&, const C&, const R&, const Iso& T, std::vector<F>& factors) const {
    Env& v = *env;
    int c = v.nl < v.lin_script.size() ? v.lin_script[v.nl] : 0; v.draws.push_back(0);
    v.cur = make_sys(c, v.nl); v.nl++;

    v.cur_p = v.cur.e; v.cur_g = v.general ? v.cur.eg : 0; v.memo.clear();
    v.log.push_back({'l', T});
    if (factors.size() != v.nfactors) v.bad = str("linearized with ", factors.size(), " factors for ", v.nfactors, " source points");
    for (auto& f : factors) if (f.tag != 42) v.bad = "the factor setting is not passed to the factors";
    for (size_t i = 0; i < factors.size(); i++) factors[i].in = v.on(i);
    return {v.cur.H, v.cur.b, v.cur.e};
  }
  template <typename A, typename B, typename F>
  double error(const A&, const B&, const Iso& T, std::vector<F>& factors) const { if (factors.size() != env->nfactors) env->bad = "evaluated with another number of factors"; return env->trial(T).dp; }
};
struct ScriptGeneral {
  Env* env = nullptr;
  template <typename A, typename B, typename C>
  void update_linearized_system(const A&, const B&, const C&, const Iso& T, M6* H, V6* b, double* e) const {
    if (!env->general) return;
    if (env->log.empty() || Env::key(env->log.back().T) != Env::key(T)) env->bad = "the general factor is linearized at another pose than the point factors";
    *H += env->cur.Hg; *b += env->cur.bg; *e += env->cur.eg;
  }
  template <typename A, typename B> void update_error(const A&, const B&, const Iso& T, double* e) const { if (env->general) *e += env->trial(T).dg; }
};
static bool conv(const TerminationCriteria& c, const V6& d) { return std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]) <= c.rotation_eps && std::sqrt(d[3] * d[3] + d[4] * d[4] + d[5] * d[5]) <= c.translation_eps; }

struct Expect { std::vector<Ev> log; Iso T; bool converged = false; size_t iterations = 0, inliers = 0; M6 H = M6::Zero(); V6 b = V6::Zero(); double error = 0; };
static V6 solve(const M6& A, const V6& b) { return A.fullPivLu().solve(-b); }

static Expect ref_gn(const Env& s, const GaussNewtonOptimizer& o, const TerminationCriteria& c, const Iso& init, size_t nf) {
  Expect x; x.T = init;
  for (int i = 0; i < o.max_iterations; i++) {
    Sys y = make_sys(s.lin_script[i], i);
    x.log.push_back({'l', x.T});
    x.H = y.H; x.b = y.b; x.error = y.e;
    if (s.general) { x.H += y.Hg; x.b += y.bg; x.error += y.eg; }
    V6 d = solve(x.H + o.lambda * M6::Identity(), x.b);
    x.T = x.T * exp_ref(d); x.iterations = i; x.inliers = std::min<size_t>(nf, y.inliers);
    if (conv(c, d)) { x.converged = true; break; }
  }
  return x;
}
static Expect ref_lm(const Env& s, const LevenbergMarquardtOptimizer& o, const TerminationCriteria& c, const Iso& init, size_t nf) {
  Expect x; x.T = init; double lam = o.init_lambda; size_t nt = 0;
  for (int i = 0; i < o.max_iterations; i++) {
    Sys y = make_sys(s.lin_script[i], i);
    x.log.push_back({'l', x.T});
    x.H = y.H; x.b = y.b; double p = y.e, g = s.general ? y.eg : 0;
    if (s.general) { x.H += y.Hg; x.b += y.bg; }
    x.error = p + g; x.iterations = i; x.inliers = std::min<size_t>(nf, y.inliers);
    bool ok = false;
    for (int j = 0; j < o.max_inner_iterations && !ok; j++) {
      V6 d = solve(x.H + lam * M6::Identity(), x.b); Iso T = x.T * exp_ref(d);
      x.log.push_back({'t', T});
      Off f = OFFS[s.trial_script[nt++]]; double ne = p + f.dp; if (s.general) ne += g + f.dg;
      if (ne <= p + g) { ok = true; x.T = T; x.error = ne; x.converged = conv(c, d); lam /= o.lambda_factor; } else lam *= o.lambda_factor;
    }
    if (!ok || x.converged) break;
  }
  return x;
}
static std::string show(const Iso& T) { std::string s; for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) s += str(T.matrix()(i, j), " "); return s; }
static std::string compare(const Expect& x, const Env& v, const RegistrationResult& r, bool num) {
  if (!v.bad.empty()) return v.bad;
  uint64_t h = num;
  auto close = [](const Iso& A, const Iso& B) { return (A.matrix() - B.matrix()).cwiseAbs().maxCoeff() <= 1e-7; };
  for (size_t i = 0; i < std::max(x.log.size(), v.log.size()); i++) {
    const char* what[2] = {"linearization", "trial of a step"};
    if (i >= v.log.size()) return str("stopped before the expected ", what[x.log[i].kind == 't'], " (event ", i, ")");
    if (i >= x.log.size()) return str("unexpected ", what[v.log[i].kind == 't'], " (event ", i, ") after the optimization should have stopped");
    if (x.log[i].kind != v.log[i].kind) return str("event ", i, " is a ", what[v.log[i].kind == 't'], ", expected a ", what[x.log[i].kind == 't']);
    if (!close(x.log[i].T, v.log[i].T)) return str(what[v.log[i].kind == 't'], " (event ", i, ") at pose ", show(v.log[i].T), ", expected ", show(x.log[i].T));
    h = seqx::hash_d(seqx::mix(h, v.log[i].kind), std::round(x.log[i].T.matrix()(0, 3) * 1e5));
  }
  seqx::state(seqx::mix(h, r.converged)); seqx::step(v.log.size() + 1);
  if (!close(x.T, r.T_target_source)) return str("returned pose ", show(r.T_target_source), ", the accepted pose is ", show(x.T));
  if (x.converged != r.converged) return str("converged=", r.converged, ", expected ", x.converged);
  if (x.iterations != r.iterations) return str("iterations=", r.iterations, ", expected ", x.iterations);
  if (x.inliers != r.num_inliers) return str("num_inliers=", r.num_inliers, ", expected ", x.inliers);
  if (!((x.H - r.H).cwiseAbs().maxCoeff() <= 1e-9 * (1 + x.H.cwiseAbs().maxCoeff()))) return "returned H is not that of the last linearization";
  if (!((x.b - r.b).cwiseAbs().maxCoeff() <= 1e-12 + 1e-9 * x.b.cwiseAbs().maxCoeff())) return "returned b is not that of the last linearization";
  if (!(std::abs(x.error - r.error) <= 1e-9 * (1 + std::abs(x.error)))) return str("returned error ", r.error, ", expected ", x.error);
  return "";
}
static Iso init_pose(int k) { V6 a; a << 0.1, -0.2, 0.3, 1, 2, -3; return k ? exp_ref(a) : Iso::Identity(); }

template <typename Opt>
static std::string run(int iters, int inner, const std::vector<int>& L, const std::vector<int>& Tr, int cfg, std::vector<int>* draws = nullptr, size_t nf = 0, int pat = -1) {
  constexpr bool LM = std::is_same<Opt, LevenbergMarquardtOptimizer>::value;
  Env v; v.lin_script = L; v.trial_script = Tr; v.general = cfg & 1; v.nfactors = nf ? nf : cfg & 2 ? 3 : 12; v.pat = pat;
  Registration<FakeFactor, ScriptReduction, ScriptGeneral, NullRejector, Opt> reg;
  reg.reduction.env = reg.general_factor.env = &v; reg.point_factor.tag = 42;
  reg.optimizer.max_iterations = iters; reg.optimizer.verbose = cfg & 4;
  if constexpr (LM) { reg.optimizer.max_inner_iterations = inner; if (cfg & 8) { reg.optimizer.init_lambda = 0.5; reg.optimizer.lambda_factor = 3; } }
  else if (cfg & 8) reg.optimizer.lambda = 2.0;
  if (cfg & 2) { reg.criteria.translation_eps = 0.35; reg.criteria.rotation_eps = 0.3; }
  Iso init = init_pose(cfg & 1);
  auto src = cloud(Pts(v.nfactors, V4(1, 2, 3, 1))), tgt = cloud(Pts(5, V4(1, 2, 3, 1)));
  int tree = 0;
  RegistrationResult r = reg.align(*tgt, *src, tree, init);
  if (draws) *draws = v.draws;
  Expect x;
  if constexpr (LM) x = ref_lm(v, reg.optimizer, reg.criteria, init, v.nfactors); else x = ref_gn(v, reg.optimizer, reg.criteria, init, v.nfactors);
  if (pat >= 0 && iters > 0) { x.inliers = 0; for (size_t i = 0; i < v.nfactors; i++) x.inliers += v.on(i); }
  auto m = compare(x, v, r, LM);
  if (m.empty() && !seqx::sampling()) return m;
  std::string s = str(LM ? "LM" : "GN", " max_iterations=", iters, " inner=", inner, " config=", cfg, " systems="); for (int k : L) s += str(k, " "); s += "trials="; for (int k : Tr) s += str(k, " ");
  SAMPLE(s + str(": ", v.log.size(), " linearizations and trials, converged=", r.converged, " error=", r.error));
  return m.empty() ? m : s + ": " + m;
}
// all scripts: nsys systems per linearization, noff errors per trial. The scripts are explored depth first and lazily: a choice is
// made only when the optimizer asks for it, so every distinct execution is run exactly once.
template <typename Opt>
static void family(const char* name, int iters, int inner, int nsys, int noff) {
  constexpr bool LM = std::is_same<Opt, LevenbergMarquardtOptimizer>::value;
  // the case fixes the configuration and the first two choices
  const int first = iters > 0 ? nsys : 1, second = LM && iters > 0 && inner > 0 ? noff : 1;
  seqx::add(str(name, "/it", iters, "x", inner, "/", nsys, "x", noff), 16 * first * second, [=](uint64_t i) -> std::string {
    seqx::Odo o(i); int cfg = o(16); std::vector<int> S[2] = {std::vector<int>(iters + 2, 0), std::vector<int>(iters * inner + 2, 0)};
    S[0][0] = o(first); S[1][0] = o(second); const int ar[2] = {nsys, noff};
    for (;;) {
      std::vector<int> draws; auto m = run<Opt>(iters, inner, S[0], S[1], cfg, &draws); if (!m.empty()) return m;
      size_t pos[2] = {0, 0}; std::vector<std::pair<int, size_t>> seq; for (int d : draws) { if (pos[d] >= S[d].size()) return "more linearizations or trials than allowed by the limits"; seq.push_back({d, pos[d]++}); }
      for (; !seq.empty(); seq.pop_back()) { auto [d, k] = seq.back(); if (k > 0 && S[d][k] + 1 < ar[d]) break; if (k > 0) S[d][k] = 0; }  // the first choices belong to the case
      if (seq.empty()) return "";
      S[seq.back().first][seq.back().second]++;
    }
  });
}
int main(int argc, char** argv) {
  const bool th = seqx::thorough(argc, argv);
  // criteria on their own: every combination of rotation and translation norms around the thresholds
  seqx::add("criteria", 9 * 9 * 5 * 5 * 3 * 3, [](uint64_t i) -> std::string {
    seqx::Odo o(i); static const double F[] = {0, 1e-3, 0.5, 1 - 1e-9, 1 + 1e-9, 1.2, 2, 100, NAN}, E[] = {0.1 * M_PI / 180, 1e-3, 1e-9, 0.5, 10};
    TerminationCriteria c; if (c.translation_eps != 1e-3 || std::abs(c.rotation_eps - 0.1 * M_PI / 180) > 1e-15) return "defaults";
    double fr = F[o(9)], ft = F[o(9)]; c.rotation_eps = E[o(5)]; c.translation_eps = E[o(5)]; int ar = o(3), at = o(3);
    V6 d = V6::Zero(); if (ar == 2) d.head<3>() = Eigen::Vector3d(0.6, -0.48, 0.64) * fr * c.rotation_eps; else d[ar] = -fr * c.rotation_eps;
    if (at == 2) d.tail<3>() = Eigen::Vector3d(0.6, -0.48, 0.64) * ft * c.translation_eps; else d[3 + at] = ft * c.translation_eps;
    seqx::step(); seqx::state(i + 1);
    bool want = fr <= 1 && ft <= 1;
    return c.converged(d) == want ? "" : str("step with rotation ", fr, " and translation ", ft, " times the thresholds: converged=", !want);
  });
  // the inlier count for every size class of the source and every pattern of accepted factors, stopping at convergence or at the limit
  seqx::add("inliers", 14 * 6 * 2 * 2 * 2, [](uint64_t i) -> std::string {
    seqx::Odo o(i); const size_t n = std::vector<size_t>{1, 2, 3, 64, 127, 128, 255, 256, 257, 1000, 32768, 65535, 65537, 70001}[o(14)]; int pat = o(6), opt = o(2), cfg = o(2), k = o(2) ? 2 : 0;
    std::vector<int> L(8, k), T(32, 0);
    auto m = opt ? run<LevenbergMarquardtOptimizer>(3, 3, L, T, cfg, nullptr, n, pat) : run<GaussNewtonOptimizer>(3, 0, L, T, cfg, nullptr, n, pat);
    return m.empty() ? m : str(n, " source points, pattern ", pat, ": ", m);
  });
  for (int it : {0, 1, 2, 3, 4}) family<GaussNewtonOptimizer>("gn", it, 0, 6, 1);
  family<GaussNewtonOptimizer>("gn", 20, 0, 1, 1); family<GaussNewtonOptimizer>("gn", 9, 0, 2, 1);
  if (th) { family<GaussNewtonOptimizer>("gn", 6, 0, 6, 1); family<GaussNewtonOptimizer>("gn", 12, 0, 2, 1); }
  auto lm = [](int it, int in, int ns, int no) { family<LevenbergMarquardtOptimizer>("lm", it, in, ns, no); };
  lm(0, 3, 6, 9); lm(1, 0, 6, 9); lm(2, 0, 6, 9); lm(1, 1, 6, 9); lm(1, 4, 6, 9); lm(2, 1, 6, 9); lm(2, 2, 6, 9); lm(3, 1, 6, 9); lm(2, 3, 5, 3); lm(3, 2, 5, 4); lm(1, 10, 6, 3); lm(2, 10, 6, 3); lm(3, 10, 3, 3); lm(20, 10, 1, 1); lm(6, 3, 3, 2); lm(8, 1, 3, 2); lm(11, 1, 2, 1);
  if (th) { lm(1, 6, 2, 9); lm(2, 4, 5, 5); lm(3, 3, 3, 5); lm(4, 4, 3, 3); lm(3, 10, 5, 3); lm(4, 10, 3, 2); lm(8, 2, 3, 2); }
  return seqx::main("C14", argc, argv);
}
