// C27: ownership and memory. (1) All histories of building, copying, moving, relocating and destroying owning structures while the inputs
// are released, overwritten or changed; every answer must stay that of a pristine object (one build under AddressSanitizer, one that
// counts blocks). (2) Repeated call histories over the alphabet of library calls: the number of live blocks and bytes must not grow.
// (3) Fault enumeration: every allocation of every serial call fails once; the call must throw std::bad_alloc, release what it allocated,
// and the next call on the same objects must be unaffected.
#include "calls.hpp"
#ifdef PCLPART
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/pcl/pcl_proxy.hpp>
#include <small_gicp/pcl/pcl_registration.hpp>
#endif
#include <malloc.h>
#include <new>

#ifdef COUNT
// ---- every allocation made by code compiled here (the library is header-only) is counted
static std::atomic<long> g_live{0}, g_bytes{0}, g_allocs{0};
static thread_local long g_fail = 0;  // > 0: the allocation with this number fails
static bool fails() { return g_fail > 0 && --g_fail == 0; }
static void* took(void* p) { if (p) { g_live++; g_allocs++; g_bytes += malloc_usable_size(p); } return p; }
static void gives(void* p) { if (p) { g_live--; g_bytes -= malloc_usable_size(p); } }
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
void* __wrap_malloc(size_t n) { return fails() ? nullptr : took(__real_malloc(n)); }
void* __wrap_calloc(size_t n, size_t m) { return fails() ? nullptr : took(__real_calloc(n, m)); }
void* __wrap_realloc(void* p, size_t n) { if (fails()) return nullptr; gives(p); return took(__real_realloc(p, n)); }
void __wrap_free(void* p) { gives(p); __real_free(p); }
}
static void* alloc(size_t n) { if (fails()) throw std::bad_alloc(); void* p = __real_malloc(n ? n : 1); if (!p) abort(); return took(p); }
static void* allocn(size_t n) noexcept { if (fails()) return nullptr; return took(__real_malloc(n ? n : 1)); }
static void* alloca_(size_t n, size_t al) { if (fails()) throw std::bad_alloc(); void* p = nullptr; if (posix_memalign(&p, std::max<size_t>(al, 8), n ? n : 1)) abort(); return took(p); }
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return allocn(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return allocn(n); }
void* operator new(size_t n, std::align_val_t a) { return alloca_(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return alloca_(n, (size_t)a); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
#else
extern "C" const char* __asan_default_options() { return "detect_stack_use_after_return=1:detect_leaks=0:exitcode=99:abort_on_error=0"; }
#endif

// ---- (1) lifetime histories
static const Pts& dat(int k) { static const Pts a = shape(SHEET, 23), b = shape(SPHERE, 26); return k ? b : a; }
static const std::vector<V4> QS = {V4(0.3, -0.2, 4.8, 1), V4(-9, 3, 1, 1), V4(1, 1, 5, 1)};
// a kind of structure: T = what is built from an input I; I is what the user holds
template <typename T> static void answers(Rec r, const T& t) { for (auto& q : QS) r.knn(t, q, 3).nn(t, q); }
using TreeN = KdTree<PointCloud, NormalProjection>;
using Prep = std::pair<PointCloud::Ptr, std::shared_ptr<KdTree<PointCloud>>>;
using FlatMap = IncrementalVoxelMap<FlatContainerNormalCov>;
static void answers(Rec r, const Prep& p) { r.pts(*p.first, true); for (auto& q : QS) r.knn(*p.second, q, 4); }
static void answers(Rec r, const PointCloud& c) { r.pts(c, true); }
static void answers(Rec r, const PointCloud::Ptr& c) { r.pts(*c, false); }
static void answers(Rec r, const GaussianVoxelMap& m) { r << (double)m.size(); for (auto& q : QS) r.knn(m, q, 2); for (size_t i : traits::point_indices(m)) r.mat(traits::point(m, i)).mat(traits::cov(m, i)); }
static void answers(Rec r, const FlatMap& m) { r << (double)m.size(); for (auto& q : QS) r.knn(m, q, 3); for (size_t i : traits::point_indices(m)) r.mat(traits::point(m, i)).mat(traits::normal(m, i)).mat(traits::cov(m, i)); }
struct UnsafeTree { std::shared_ptr<PointCloud> keep; UnsafeKdTree<PointCloud> tree; };       // the user keeps the points along with the tree
struct UnsafeProj { std::shared_ptr<PointCloud> keep; UnsafeProjectiveSearch<PointCloud> tree; };
static void answers(Rec r, const UnsafeTree& t) { answers(r, t.tree); }
static void answers(Rec r, const UnsafeProj& t) { answers(r, t.tree); }
static void answers(Rec r, const RegistrationResult& x) { r.res(x); }
static void answers(Rec r, const KdTree<Eigen::MatrixXd>& t) { for (auto& q : QS) r.knn(t, q, 3); }
struct Aligner { Registration<GICPFactor, SerialReduction> reg; std::shared_ptr<PointCloud> t, s; std::shared_ptr<KdTree<PointCloud>> tree; };
static void answers(Rec r, const Aligner& a) { r.res(a.reg.align(*a.t, *a.s, *a.tree, g0)); }

static std::shared_ptr<PointCloud> input(int k) { return full(dat(k), 3 + k); }
enum Kind { TREE, TREE_OMP, TREE_TBB, PROJ, PREP, PREP_VEC, GMAP, FMAP, DOWN, SAMPLED, BUILT, UTREE, UPROJ, RESULT, MATRIX, ALIGNER, NKIND };
static const char* KN[] = {"KdTree", "KdTree/omp/normal", "KdTree/tbb", "ProjectiveSearch", "preprocess_points(cloud)", "preprocess_points(vector)", "gaussian map", "flat map", "voxelgrid output", "sampling output", "PointCloud(vector)", "UnsafeKdTree", "UnsafeProjectiveSearch", "RegistrationResult", "KdTree<matrix>", "Registration"};
template <int K> struct Make;
#define MAKE(K, TYPE, SHARES, ...) template <> struct Make<K> { using T = TYPE; static constexpr bool shares = SHARES; static std::unique_ptr<TYPE> go(const std::shared_ptr<PointCloud>& in, int d) __VA_ARGS__ };
template <typename T, typename... A> static std::unique_ptr<T> mk(A&&... a) { return std::make_unique<T>(std::forward<A>(a)...); }
static KdTreeBuilder b3() { KdTreeBuilder b; b.max_leaf_size = 3; return b; }
static KdTreeBuilderOMP b3o() { KdTreeBuilderOMP b(2); b.max_leaf_size = 3; return b; }
static KdTreeBuilderTBB b3t() { KdTreeBuilderTBB b; b.max_leaf_size = 3; return b; }
MAKE(TREE, KdTree<PointCloud>, true, { return mk<KdTree<PointCloud>>(in, b3()); })
MAKE(TREE_OMP, TreeN, true, { return mk<TreeN>(in, b3o()); })
MAKE(TREE_TBB, KdTree<PointCloud>, true, { return mk<KdTree<PointCloud>>(in, b3t()); })
MAKE(PROJ, ProjectiveSearch<PointCloud>, true, { return mk<ProjectiveSearch<PointCloud>>(64, 32, in); })
MAKE(PREP, Prep, false, { return mk<Prep>(preprocess_points(*in, 0.5, 6, 1)); })
MAKE(PREP_VEC, Prep, false, { std::vector<Eigen::Vector3f> v; for (auto& p : in->points) v.push_back(p.head<3>().cast<float>()); return mk<Prep>(preprocess_points(v, 0.5, 6, 1)); })
MAKE(GMAP, GaussianVoxelMap, false, { auto m = create_gaussian_voxelmap(*in, 2.0); return mk<GaussianVoxelMap>(*m); })
MAKE(FMAP, FlatMap, false, { auto m = mk<FlatMap>(2.0); m->set_search_offsets(27); m->insert(*in, g1); return m; })
MAKE(DOWN, PointCloud::Ptr, false, { return mk<PointCloud::Ptr>(voxelgrid_sampling(*in, 1.3)); })
MAKE(SAMPLED, PointCloud::Ptr, false, { std::mt19937 g(d); return mk<PointCloud::Ptr>(random_sampling(*in, 9, g)); })
MAKE(BUILT, PointCloud, false, { auto c = mk<PointCloud>(in->points); for (size_t i = 0; i < c->size(); i++) { c->normal(i) = in->normal(i); c->cov(i) = in->cov(i); } return c; })
MAKE(UTREE, UnsafeTree, true, { return std::unique_ptr<UnsafeTree>(new UnsafeTree{in, UnsafeKdTree<PointCloud>(*in, b3())}); })
MAKE(UPROJ, UnsafeProj, true, { return std::unique_ptr<UnsafeProj>(new UnsafeProj{in, UnsafeProjectiveSearch<PointCloud>(64, 32, *in)}); })
MAKE(RESULT, RegistrationResult, false, { KdTree<PointCloud> t(in); Registration<GICPFactor, SerialReduction> r; return mk<RegistrationResult>(r.align(*in, *in, t, g1)); })
MAKE(MATRIX, KdTree<Eigen::MatrixXd>, false, { auto m = std::make_shared<Eigen::MatrixXd>(in->size(), 3); for (size_t i = 0; i < in->size(); i++) m->row(i) = in->point(i).head<3>().transpose(); return mk<KdTree<Eigen::MatrixXd>>(m, b3()); })
MAKE(ALIGNER, Aligner, true, { auto a = mk<Aligner>(); a->t = a->s = in; a->tree = std::make_shared<KdTree<PointCloud>>(in); a->reg.rejector.max_dist_sq = 4; return a; })

static const int NOP = 10;
static const char* ON[NOP] = {"build A from input 0", "build A from input 1", "release the inputs", "overwrite freed memory", "B = copy of A", "B = A moved", "destroy A", "swap A, B", "relocate A in a vector", "change the inputs"};
template <int K> static const Out& reference(int d) {
  static std::vector<Out> ref(2);
  if (ref[d].empty()) { auto in = new std::shared_ptr<PointCloud>(input(d)); auto o = new std::unique_ptr<typename Make<K>::T>(Make<K>::go(*in, d)); Out x; answers(Rec{x}, **o); ref[d] = x; }
  return ref[d];
}
template <int K> static std::string life(uint64_t i, int depth) {
  using T = typename Make<K>::T;
  reference<K>(0); reference<K>(1);
  std::string log; std::string bad; uint64_t h = K;
#ifdef COUNT
  const long live0 = g_live, bytes0 = g_bytes;
#endif
  {
    std::unique_ptr<T> A, B; int da = -1, db = -1; std::vector<std::shared_ptr<PointCloud>> in; std::vector<int> ops;
    auto ask = [&] {
      for (int s = 0; s < 2 && bad.empty(); s++) {
        auto& X = s ? B : A; int d = s ? db : da;
        if (!X) continue;
        Out x; answers(Rec{x}, *X); seqx::step();
        const Out& r = reference<K>(d);
        bool eq = x.size() == r.size(); for (size_t j = 0; eq && j < x.size(); j++) eq = x[j] == r[j] || (std::isnan(x[j]) && std::isnan(r[j]));
        if (!eq) bad = str(s ? "B" : "A", " answers differently from a newly built one");
      }
    };
    for (int s = 0; s < depth && bad.empty(); s++) {
      const int op = i % NOP; i /= NOP; ops.push_back(op);
      switch (op) {
        case 0: case 1: in.push_back(input(op)); A = Make<K>::go(in.back(), op); da = op; break;
        case 2: in.clear(); break;
        case 3: { auto c = std::make_shared<PointCloud>(); c->resize(23); auto e = std::make_shared<PointCloud>(); e->resize(26); for (auto* p : {c.get(), e.get()}) for (size_t j = 0; j < p->size(); j++) { p->point(j) = V4(7e5 + j, 3, 1, 1); p->normal(j).setConstant(4); p->cov(j).setConstant(9); } break; }
        case 4: if (A) { B = std::make_unique<T>(*A); db = da; } break;
        case 5: if (A) { B = std::make_unique<T>(std::move(*A)); db = da; A.reset(); } break;
        case 6: A.reset(); break;
        case 7: std::swap(A, B); std::swap(da, db); break;
        case 8: if (A) { std::vector<T> v; v.push_back(std::move(*A)); A.reset(); v.push_back(v[0]); v.push_back(v[1]); A = std::make_unique<T>(std::move(v[2])); } break;
        case 9: if constexpr (!Make<K>::shares) for (auto& p : in) for (size_t j = 0; j < p->size(); j++) { p->point(j) *= 2; p->normal(j).setZero(); p->cov(j).setZero(); } break;
      }
      ask();
      h = seqx::mix(h, (da + 1) * 64 + (db + 1) * 16 + !!A * 8 + !!B * 4 + in.size());
    }
    if (!bad.empty()) { for (size_t j = 0; j < ops.size(); j++) log += str(j ? ", " : "", ON[ops[j]]); return str(KN[K], ": ", log, ": ", bad); }
    seqx::state(h);
    if (seqx::sampling()) { for (size_t j = 0; j < ops.size(); j++) log += str(j ? ", " : "", ON[ops[j]]); SAMPLE(str(KN[K], ": ", log)); }
  }
#ifdef COUNT
  log.clear(); log.shrink_to_fit();
  if (g_live != live0) return str(KN[K], ": ", g_live - live0, " blocks (", g_bytes - bytes0, " bytes) are still allocated after every object was destroyed");
#endif
  return "";
}
template <int K = 0> static void add_life(int depth) {
  if constexpr (K < NKIND) {
    uint64_t n = 1; const int dp = K == ALIGNER || K == RESULT || K == PREP || K == PREP_VEC || K == TREE_OMP || K == TREE_TBB ? depth - 1 : depth; for (int i = 0; i < dp; i++) n *= NOP;
    seqx::add(str("lifetime/", KN[K]), n, [dp](uint64_t i) { return life<K>(i, dp); });
    add_life<K + 1>(depth);
  }
}

#ifdef PCLPART
// ---- the PCL wrapper keeps what it was given
static std::string pcl_life(uint64_t i, int depth) {
  using P = pcl::PointXYZ; using PC = pcl::PointCloud<P>;
  static const char* N[] = {"new target", "new source", "release the inputs", "overwrite freed memory", "covariances from a temporary", "swap", "align", "VGICP", "clearTarget+target"};
  auto mkc = [](int k) { auto c = std::make_shared<PC>(); for (auto& p : dat(0)) { P q; q.x = p[0] + 0.01 * k; q.y = p[1]; q.z = p[2]; c->push_back(q); } return c; };
  auto run = [&](bool keep, std::string* log, Out& o) {
    RegistrationPCL<P, P> r; r.setNumThreads(1); r.setCorrespondenceRandomness(6); r.setMaxCorrespondenceDistance(2); r.setVoxelResolution(2);
    std::vector<std::shared_ptr<PC>> in; bool t = false, s = false; uint64_t c = i; int n = 0;
    for (int k = 0; k < depth; k++) {
      int op = c % 9; c /= 9; if (log) *log += str(k ? ", " : "", N[op]);
      switch (op) {
        case 0: in.push_back(mkc(n++)); r.setInputTarget(in.back()); t = true; break;
        case 1: in.push_back(mkc(n++)); r.setInputSource(in.back()); s = true; break;
        case 2: if (!keep) in.clear(); break;
        case 3: if (!keep) { auto x = mkc(1000); PC y = *x; } break;
        case 4: if (s) { std::vector<Eigen::Matrix4d> v(dat(0).size(), Eigen::Vector4d(1, 1, 0.01, 0).asDiagonal().toDenseMatrix()); r.setSourceCovariances(v); for (auto& m : v) m.setConstant(1e9); } break;
        case 5: if (s && t) r.swapSourceAndTarget(); break;
        case 6: break;
        case 7: r.setRegistrationType("VGICP"); break;
        case 8: r.clearTarget(); in.push_back(mkc(n++)); r.setInputTarget(in.back()); t = true; break;
      }
      if ((op == 6 || k == depth - 1) && s && t) { PC out; r.align(out); auto T = r.getFinalTransformation(); Rec w{o}; w.mat(T.cast<double>().eval()) << (double)out.size() << r.hasConverged() << r.getFitnessScore(); for (auto& p : out) w << p.x << p.y << p.z; for (auto& m : r.getSourceCovariances()) w.mat(m); for (auto& m : r.getTargetCovariances()) w.mat(m); seqx::step(); }
    }
  };
  Out a, b; std::string log; run(true, nullptr, a); run(false, &log, b); SAMPLE(log);
  if (a.size() != b.size() || (a.size() && memcmp(a.data(), b.data(), a.size() * 8))) return log + ": the results depend on whether the caller keeps the inputs";
  uint64_t h = 77; for (double x : a) h = seqx::hash_d(h, x); seqx::state(h);
  return "";
}
#endif

#ifdef PCLPART
extern "C" size_t __sanitizer_get_current_allocated_bytes();
// a wrapper that is used over and over, with new clouds each time, stays as large as it was
static std::string pcl_steady(uint64_t i, int depth) {
  using P = pcl::PointXYZ; using PC = pcl::PointCloud<P>;
  static const char* N[] = {"new target", "new source", "set covariances", "swap", "align GICP", "align VGICP", "clearTarget+target", "clearSource+source", "resolution"};
  auto mkc = [](int k) { auto c = std::make_shared<PC>(); for (auto& p : dat(0)) { P q; q.x = p[0] + 0.01 * (k % 3); q.y = p[1]; q.z = p[2]; c->push_back(q); } return c; };
  std::string log; auto r = std::make_unique<RegistrationPCL<P, P>>(); r->setNumThreads(1); r->setCorrespondenceRandomness(6); r->setMaxCorrespondenceDistance(2); r->setInputTarget(mkc(0)); r->setInputSource(mkc(1));
  size_t b6 = 0, b12 = 0, b18 = 0; std::vector<Eigen::Matrix4d> cv(dat(0).size(), Eigen::Vector4d(1, 1, 0.01, 0).asDiagonal().toDenseMatrix());
  for (int round = 0; round < 18; round++) {
    uint64_t c = i;
    for (int k = 0; k < depth; k++) {
      int op = c % 9; c /= 9; if (!round) log += str(k ? ", " : "", N[op]);
      switch (op) {
        case 0: r->setInputTarget(mkc(k)); break;
        case 1: r->setInputSource(mkc(k)); break;
        case 2: r->setSourceCovariances(cv); break;
        case 3: r->swapSourceAndTarget(); break;
        case 4: case 5: { r->setRegistrationType(op == 4 ? "GICP" : "VGICP"); PC out; r->align(out); seqx::step(); break; }
        case 6: r->clearTarget(); r->setInputTarget(mkc(k)); break;
        case 7: r->clearSource(); r->setInputSource(mkc(k)); break;
        case 8: r->setVoxelResolution(1.0 + round % 2); break;
      }
    }
    // (an even number of rounds apart, because of swaps and resolutions)
    if (round == 5) b6 = __sanitizer_get_current_allocated_bytes();
    if (round == 11) b12 = __sanitizer_get_current_allocated_bytes();
    if (round == 17) b18 = __sanitizer_get_current_allocated_bytes();
  }
  SAMPLE(log); seqx::state(seqx::mix(91, i));
  if (b12 > b6 && b18 > b12 && b18 - b6 >= 64) return str(log, ", repeated: ", b18 - b6, " more bytes are allocated after twelve rounds");
  return "";
}
#endif

#ifdef COUNT
// ---- a structure that lives on and is fed with new data stays as large as it was
template <typename C> static std::string steady(uint64_t i, const char* what) {
  const int horizon = 1 + i % 4, cycle = 1 + i / 4 % 4, stepn = i / 16 % 3, shp = i / 48;
  auto in = full(shape(shp == 0 ? SHEET : shp == 1 ? SPHERE : LATTICE, 40), 1 + shp);
  auto m = std::make_unique<IncrementalVoxelMap<C>>(1.0); m->lru_horizon = horizon; m->lru_clear_cycle = cycle;
  const long P = 24 * cycle * (stepn ? 1 : 2); long l[3], b[3]; size_t n[3];
  for (long k = 0; k < 6 * P; k++) {
    Eigen::Isometry3d T = Eigen::Isometry3d::Identity(); T.translation()[0] = stepn == 0 ? 4.0 * (k % P) : stepn == 1 ? 16.0 * k : 16.0 * (k % 2);
    m->insert(*in, T);
    if ((k + 1) % (2 * P) == 0) { int j = (k + 1) / (2 * P) - 1; l[j] = g_live; b[j] = g_bytes; n[j] = m->size(); }
  }
  seqx::step(6 * P); seqx::state(seqx::mix(17, i));
  // points of a flat voxel and means settle in finitely many steps; what accumulates grows between both observations
  if (b[1] > b[0] && b[2] > b[1] && b[2] - b[0] >= 16 * 2 * P) return str(what, " horizon ", horizon, " cycle ", cycle, " path ", stepn, ": ", b[2] - b[0], " more bytes (", l[2] - l[0], " blocks, ", (long)n[2] - (long)n[0], " voxels) after ", 4 * P, " more insertions");
  m.reset();
  return "";
}
static Out perform_quiet(size_t k) { return perform(k); }
// ---- (2) nothing accumulates
static std::string balance(const std::vector<size_t>& h, int rounds) {
  bool tbb = false; for (size_t k : h) if (strstr(OPS[k].name, "tbb") || strstr(OPS[k].name, "TBB") || strstr(OPS[k].name, "sorts")) tbb = true;
  std::string names; for (size_t k : h) names += str(names.empty() ? "" : ", ", OPS[k].name);
  std::string m = isolated([&](Box& b) -> std::string {
    auto round = [&] { for (size_t k : h) { Out o = perform_quiet(k); } };
    for (int i = 0; i < 3; i++) round();
    const long l0 = g_live, b0 = g_bytes;
    for (int i = 0; i < rounds; i++) round();
    const long l1 = g_live, b1 = g_bytes;
    for (int i = 0; i < rounds; i++) round();
    const long l2 = g_live, b2 = g_bytes;
    if (l2 - l1 > 0 && l1 - l0 > 0 && l2 - l0 >= std::max(rounds, tbb ? 20 : 0)) return str(l2 - l0, " more blocks are allocated after ", 2 * rounds, " rounds of: ");
    // (a worker thread of TBB that shows up late allocates its own data once; what accumulates grows in both halves)
    if (b2 - b1 > 0 && b1 - b0 > 0 && b2 - b0 >= std::max(8 * rounds, tbb ? 2500 : 0)) return str(b2 - b0, " more bytes are allocated after ", 2 * rounds, " rounds of: ");
    return "";
  }, nullptr, 60);
  seqx::step(2 * rounds * h.size());
  if (m.compare(0, 2, "@@") == 0) return names + m.substr(2);
  if (!m.empty()) return m + names;
  uint64_t s = 5; for (size_t k : h) s = seqx::mix(s, k); seqx::state(s);
  return "";
}
// ---- (3) every allocation fails once
static std::vector<long> NALLOC;
static std::string failing(size_t k, long n) {
  std::string m = isolated([&](Box& b) -> std::string {
    Out r = perform(k), warm = perform(k);
    std::string bad; long l0, l1; bool thrown = false;
    { Out o; o.reserve(1); l0 = g_live; g_fail = n;
      try { o = perform(k); } catch (const std::bad_alloc&) { thrown = true; } catch (const std::exception& e) { g_fail = 0; return str("ends with another exception: ", e.what()); }
      g_fail = 0; Out().swap(o); l1 = g_live + 1; }
    if (l1 != l0) bad = str(l1 - l0, " blocks stay allocated");
    if (bad.empty()) { Out again = perform(k); if (again.size() != r.size() || memcmp(again.data(), r.data(), 8 * r.size())) bad = "the next call returns something else"; }
    b.n = thrown;
    return bad;
  });
  if (m.compare(0, 2, "@@") == 0) m = m.substr(2);
  seqx::step(4);
  if (m.empty()) { if (g_box->n) seqx::nontrivial(); seqx::state(seqx::mix(k, n)); return ""; }
  return str(OPS[k].name, ", allocation ", n, " of ", NALLOC[k], " fails: ", m);
}
#endif

int main(int argc, char** argv) {
  const bool th = seqx::thorough(argc, argv);
  data(); ops();
#ifdef PCLPART
  seqx::add("lifetime/RegistrationPCL", th ? 531441 : 59049, [th](uint64_t i) { return pcl_life(i, th ? 6 : 5); });
  seqx::add("steady/RegistrationPCL", th ? 6561 : 729, [th](uint64_t i) { return pcl_steady(i, th ? 4 : 3); });
#else
  #ifdef COUNT
  add_life(th ? 7 : 6);
#else
  add_life(th ? 6 : 5);
#endif
#endif
#ifdef COUNT
  const size_t N = OPS.size();
  inplace_ops();
  const size_t ALL = OPS.size();
  bool list = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--list")) list = true;
  seqx::add("steady/flat map", 144, [](uint64_t i) { return steady<FlatContainerNormalCov>(i, "flat map"); });
  seqx::add("steady/flat map of points", 144, [](uint64_t i) { return steady<FlatContainerPoints>(i, "flat map of points"); });
  seqx::add("steady/gaussian map", 144, [](uint64_t i) { return steady<GaussianVoxel>(i, "gaussian map"); });
  seqx::add("balance/one", ALL, [](uint64_t i) { return balance({i}, 200); });
  seqx::add("balance/pairs", N * N, [N](uint64_t i) { return balance({i % N, i / N}, 10); });
  if (th) seqx::add("balance/triples", N * N * N, [N](uint64_t i) { return balance({i % N, i / N % N, i / N / N}, 6); });
  // serial calls: an exception cannot leave a parallel region
  NALLOC.assign(ALL, 0);
  for (size_t k = 0; k < ALL; k++) {
    auto& n = OPS[k].name; bool par = false; for (auto* w : {"omp", "OMP", "tbb", "TBB", "helper", "sorts", "builders"}) if (strstr(n, w)) par = true;
    if (par) continue;
    Box* b; isolated([&](Box& b) -> std::string { perform(k); perform(k); long a0 = g_allocs; { Out o = perform(k); } b.n = g_allocs - a0; return ""; }, &b); NALLOC[k] = b->n;
    const long total = NALLOC[k], step = 1;
    seqx::add(str("failing allocation/", n), total / step, [k](uint64_t i) { return failing(k, i + 1); });
  }
#endif
  return seqx::main("C27", argc, argv);
}
