// C03: parallel voxel-grid downsampling under every schedule.
#include "common.hpp"
#include <map>
#include <set>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
using namespace mch;

// Points of one voxel carry one-hot x offsets (2^-(k+1)), so an output mean identifies the exact subset it averages.
constexpr int PER = 36;
struct Input { std::shared_ptr<PointCloud> cloud; std::vector<Eigen::Vector3i> vox; std::vector<int> slot; std::vector<char> valid; size_t nvox = 0; };

// n points; per: points per voxel (<= PER); every `bad`-th point lies outside the voxel range; shuffled deterministically
static Input make(size_t n, int per, int bad, uint64_t seed, double leaf) {
  Input in;
  in.cloud = std::make_shared<PointCloud>();
  in.cloud->resize(n);
  std::vector<size_t> perm(n);
  for (size_t i = 0; i < n; i++) perm[i] = i;
  Mix r(seed);
  for (size_t i = n; i > 1; i--) std::swap(perm[i - 1], perm[r() % i]);
  in.vox.resize(n); in.slot.resize(n); in.valid.assign(n, 1);
  size_t good = 0;
  for (size_t q = 0; q < n; q++) {
    size_t i = perm[q];
    if (bad && q % bad == (size_t)bad - 1) {
      in.valid[i] = 0;
      double big[] = {1048576.0, -1048577.0, 4e9, -4e9};
      in.cloud->point(i) = Eigen::Vector4d(0.5, 0.5, 0.5, 1.0);
      in.cloud->point(i)[(q / bad) % 3] = big[(q / bad) % 4] * leaf;
      continue;
    }
    int v = (int)(good / per), k = (int)(good % per);
    good++;
    in.vox[i] = Eigen::Vector3i(v % 4 - 2, (v / 4) % 4 - 1, v / 16 - 3);
    in.slot[i] = k;
    in.cloud->point(i) = Eigen::Vector4d((in.vox[i][0] + std::ldexp(1.0, -(k + 1))) * leaf, (in.vox[i][1] + 0.5) * leaf, (in.vox[i][2] + 0.25) * leaf, 1.0);
  }
  in.nvox = (good + per - 1) / per;
  return in;
}

// blocks: the most blocks the claim allows for (a block of the code is free to be as small as 256 points; it is 1024 and 2048 now).
static std::string verify(const Input& in, const PointCloud& out, size_t blocks, double leaf) {
  std::map<std::array<int, 3>, uint64_t> want;
  std::map<std::array<int, 3>, std::vector<std::vector<uint64_t>>> got;
  for (size_t i = 0; i < in.vox.size(); i++) if (in.valid[i]) want[{in.vox[i][0], in.vox[i][1], in.vox[i][2]}] |= uint64_t(1) << (PER - 1 - in.slot[i]);
  uint64_t h = 0;
  for (size_t j = 0; j < out.size(); j++) {
    const auto& p = out.point(j);
    if (!p.allFinite() || !(std::abs(p.w() - 1.0) <= 1e-12)) return str("output ", j, " is not a point with unit homogeneous coordinate");
    std::array<int, 3> v = {(int)std::floor(p[0] / leaf), (int)std::floor(p[1] / leaf), (int)std::floor(p[2] / leaf)};
    auto it = want.find(v);
    if (it == want.end()) return str("output ", j, " (", p.transpose(), ") lies in no occupied voxel");
    double f = p[0] / leaf - v[0];
    if (std::abs(p[1] / leaf - v[1] - 0.5) > 1e-9 || std::abs(p[2] / leaf - v[2] - 0.25) > 1e-9) return str("output ", j, " mixes voxels");
    std::vector<uint64_t> cand;  // sets of points whose mean this can be
    for (int c = 1; c <= PER; c++) {
      double m = std::ldexp(f * c, PER);
      double q = std::nearbyint(m);
      if (std::abs(m - q) > 0.01 || q <= 0 || q >= std::ldexp(1.0, PER)) continue;
      uint64_t mask = (uint64_t)q;
      if (__builtin_popcountll(mask) != c || (mask & ~it->second)) continue;
      cand.push_back(mask);
    }
    if (cand.empty()) return str("output ", j, " is not the mean of a set of points of its voxel");
    got[v].push_back(cand);
    h = h * 1000003 + (uint64_t)(v[0] * 64 + v[1] * 8 + v[2] + 100000);
  }
  for (auto& w : want) {
    // exact cover: the outputs of a voxel partition its points
    auto& g = got[w.first];
    std::function<bool(size_t, uint64_t)> cover = [&](size_t i, uint64_t used) {
      if (i == g.size()) return used == w.second;
      for (uint64_t m : g[i]) if (!(m & used) && cover(i + 1, used | m)) return true;
      return false;
    };
    if (!cover(0, 0)) return str("voxel (", w.first[0], ",", w.first[1], ",", w.first[2], "): its ", g.size(), " outputs do not partition its points (lost or doubled points)");
  }
  if (out.size() < want.size() || out.size() > want.size() + blocks) return str(out.size(), " outputs for ", want.size(), " voxels in ", blocks, " blocks");
  mc::observe(h);
  return "";
}

struct State { Input in; std::shared_ptr<PointCloud> out; };
static void scen(const std::string& name, mc::Config cfg, size_t n, int per, int bad, double leaf, bool tbb, int nt) {
  auto st = std::make_shared<State>();
  mc::Scenario s;
  s.name = name; s.cfg = cfg;
  s.setup = [=] { st->in = make(n, per, bad, n * 31 + per, leaf); };
  s.body = [=] { st->out = tbb ? voxelgrid_sampling_tbb(*st->in.cloud, leaf) : voxelgrid_sampling_omp(*st->in.cloud, leaf, nt); };
  s.check = [=]() -> std::string {
    Input in = make(n, per, bad, n * 31 + per, leaf);
    for (size_t i = 0; i < n; i++) if (in.cloud->point(i) != st->in.cloud->point(i)) return "the input cloud was modified";
    if (!st->out) return "null result";
    return verify(st->in, *st->out, (n + 255) / 256, leaf);
  };
  mc::add(s);
}

// Every size of a list in one execution: block and grain borders of any block size.
struct SizesState { std::vector<Input> in; std::vector<std::shared_ptr<PointCloud>> out; };
static void sizes(const std::string& name, mc::Config cfg, const std::vector<size_t>& ns, int bad, bool tbb, int nt, int nest = 1) {
  auto st = std::make_shared<SizesState>();
  mc::Scenario s; s.name = name; s.cfg = cfg;
  s.setup = [=] { st->in.clear(); for (size_t n : ns) st->in.push_back(make(n, 7, bad, n + 5, 0.5)); st->out.assign(ns.size(), nullptr); };
  s.body = [=] { in_team(nest, [&](int t) { for (size_t k = t; k < ns.size(); k += nest) st->out[k] = tbb ? voxelgrid_sampling_tbb(*st->in[k].cloud, 0.5) : voxelgrid_sampling_omp(*st->in[k].cloud, 0.5, nt); }); };
  s.check = [=]() -> std::string {
    for (size_t k = 0; k < ns.size(); k++) { if (!st->out[k]) return "null result"; auto m = verify(st->in[k], *st->out[k], (ns[k] + 255) / 256, 0.5); if (!m.empty()) return str("n=", ns[k], ": ", m); }
    return "";
  };
  mc::add(s);
}

int main(int argc, char** argv) {
  const bool th = mc::thorough(argc, argv);
  auto cfg = [&](int T, mc::Policy p, int bound) { mc::Config c; c.max_threads = T; c.policy = p; c.bound = bound; return c; };
  const char* pn[] = {"greedy", "rr", "last"};
#ifdef MCRT_MAXT
  for (int p : {0, 1, 2})
    for (int nt : {9, 17, 33, 65, 70}) { sizes(str("omp/wide/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, 0), {0, 5, 65, 700, 2100}, 9, false, nt); sizes(str("tbb/wide/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, 0), {0, 5, 65, 700, 2100}, 9, true, nt); }
  return mc::main("C03", argc, argv);
#endif
  for (int nt : {1, 2, 3}) { sizes(str("omp/nested/t", nt), cfg(2, mc::ROUND_ROBIN, th ? 3 : 2), {12, 31}, 6, false, nt, 2); sizes(str("tbb/nested/t", nt), cfg(nt, mc::ROUND_ROBIN, th ? 2 : 1), {12, 31}, 6, true, nt, 2); }
  for (size_t n : {0, 1, 2, 31, 65, 200}) {
    for (int nt : {1, 2, 3}) {
      auto c = cfg(nt, mc::ROUND_ROBIN, th ? 3 : 2); c.team_shrink = true;
      scen(str("omp/small/n", n, "/t", nt), c, n, 5, n >= 31 ? 9 : 0, 0.5, false, nt);
      if (nt > 1) scen(str("tbb/small/n", n, "/t", nt), cfg(nt, mc::ROUND_ROBIN, th ? 3 : 2), n, 5, n >= 31 ? 9 : 0, 0.5, true, nt);
    }
    if (n >= 31) { scen(str("omp/allbad/n", n), cfg(2, mc::ROUND_ROBIN, 1), n, 5, 1, 0.5, false, 2); scen(str("tbb/allbad/n", n), cfg(2, mc::ROUND_ROBIN, 1), n, 5, 1, 0.5, true, 2); }
  }
  for (int p : {0, 1, 2}) {
    if (!th && p == 2) continue;
    for (int nt : {2, 3}) {
      const int b2 = th ? (nt == 2 ? 3 : 2) : (nt == 2 ? 2 : 1);
      scen(str("omp/n1023/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, b2), 1023, 30, 0, 1.0, false, nt);
      scen(str("omp/n1024/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, b2), 1024, 30, 50, 1.0, false, nt);
      scen(str("omp/n1025/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, b2), 1025, 36, 0, 1.0, false, nt);
      scen(str("omp/n2049/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, nt == 2 ? b2 : 1), 2049, 33, 40, 1.0, false, nt);
      scen(str("omp/halfbad/n2100/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, 1), 2100, 36, 2, 0.25, false, nt);
      scen(str("tbb/n500/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, b2), 500, 30, 7, 1.0, true, nt);
      scen(str("tbb/n2048/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, 1), 2048, 36, 0, 1.0, true, nt);
      scen(str("tbb/n2049/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, 1), 2049, 36, 0, 1.0, true, nt);
      if (th || nt == 2) scen(str("tbb/n4200/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, 1), 4200, 36, 11, 1.0, true, nt);
      scen(str("tbb/halfbad/n4200/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, th ? 1 : 0), 4200, 36, 2, 0.25, true, nt);
    }
  }
  std::vector<size_t> small, big = {257, 401, 512, 513, 641, 769, 1001, 1281, 1537, 2047, 2561, 3073};
  for (size_t n = 0; n <= (th ? 400 : 140); n++) small.push_back(n);
  for (int nt : {1, 2, 3}) {
    sizes(str("omp/sizes/small/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), small, 6, false, nt); sizes(str("tbb/sizes/small/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), small, 6, true, nt);
    sizes(str("omp/sizes/big/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), big, 0, false, nt); sizes(str("tbb/sizes/big/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), big, 0, true, nt);
  }
  // beyond 16-bit counts of points and (66 001 x 7 points) of voxels, many blocks
  for (int nt : {2, 5}) { sizes(str("omp/large/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), {20011, 70001, nt == 2 ? 560007ul : 0ul}, 9, false, nt); sizes(str("tbb/large/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), {20011, 70001, nt == 2 ? 560007ul : 0ul}, 9, true, nt); }
  // more than four blocks: schedule(guided, 4) hands the block loop to several threads
  for (int nt : {2, 3}) {
    scen(str("omp/n4500/t", nt), cfg(nt, nt == 2 ? mc::GREEDY : mc::ROUND_ROBIN, th ? 2 : 1), 4500, 36, 0, 1.0, false, nt);
    scen(str("omp/n8300/t", nt), cfg(nt, mc::ROUND_ROBIN, th ? 1 : 0), 8300, 36, 13, 1.0, false, nt);
  }
  if (th) scen("omp/n4200/t4", cfg(4, mc::ROUND_ROBIN, 1), 4200, 36, 11, 1.0, false, 4);
  return mc::main("C03", argc, argv);
}
