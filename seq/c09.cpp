// C09: voxel map neighbour search against brute force over the configured neighbourhood.
#include "ref.hpp"
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
using namespace ref;
using namespace small_gicp;
#define TRY(x) do { std::string m_ = (x); if (!m_.empty()) return m_; } while (0)

static bool near_cell(const Eigen::Vector3i& d, int offsets) {
  int m = d.cwiseAbs().maxCoeff(), l1 = d.cwiseAbs().sum();
  return offsets == 27 ? m <= 1 : offsets == 7 ? l1 <= 1 : l1 == 0;
}
static Eigen::Vector3i cell(const V4& p, double leaf) { return Eigen::Vector3i((int)std::floor(p[0] / leaf), (int)std::floor(p[1] / leaf), (int)std::floor(p[2] / leaf)); }

// all stored elements, listed independently of the search
template <typename M>
static std::vector<std::pair<size_t, V4>> elements(const M& map) {
  std::vector<std::pair<size_t, V4>> v;
  for (size_t id : traits::point_indices(map)) v.push_back({id, traits::point(map, id)});
  return v;
}
template <typename M>
static uint64_t print(const M& map) {
  uint64_t h = map.size();
  for (auto& e : elements(map)) { h = seqx::mix(h, e.first); for (int k = 0; k < 4; k++) h = seqx::hash_d(h, e.second[k]); }
  return h;
}

template <typename M>
static std::string query(const M& map, const std::vector<std::pair<size_t, V4>>& el, double leaf, int offsets, const V4& q, const std::vector<size_t>& ks) {
  Pts cand; std::vector<size_t> ids;
  auto c = cell(q, leaf);
  for (auto& e : el) if (near_cell(cell(e.second, leaf) - c, offsets)) { cand.push_back(e.second); ids.push_back(e.first); }
  auto tr = [&](size_t f, size_t* idx, double* sq, size_t k) -> std::string {
    for (size_t i = 0; i < f && i < k; i++) {
      size_t j = std::find(ids.begin(), ids.end(), idx[i]) - ids.begin();
      if (j == ids.size()) return str("result ", i, " has global index ", idx[i], ", which is no element of the neighbouring cells");
      idx[i] = j;
    }
    return check_knn(cand, q, k, f, idx, sq);
  };
  for (size_t k : ks) {
    std::vector<size_t> idx(k + 1, 77); std::vector<double> sq(k + 1, -7);
    size_t f = map.knn_search(q, k, idx.data(), sq.data());
    auto m = tr(f, idx.data(), sq.data(), k);
    if (m.empty() && sq[k] != -7) m = "search wrote past the k result slots";
    uint64_t h = offsets * 100 + k; for (size_t i = 0; i < f; i++) h = seqx::hash_d(seqx::mix(h, idx[i]), sq[i]);
    SAMPLE(str("offsets=", offsets, " query=", q.transpose(), " k=", k, ": found ", f, f ? str(", nearest at squared distance ", sq[0]) : std::string()));
    seqx::state(h); seqx::step();
    if (!m.empty()) return str("offsets=", offsets, " query=", q.transpose(), " k=", k, ": ", m);
    std::vector<size_t> i2(k, 77); std::vector<double> s2(k, -7);
    size_t f2 = traits::knn_search(map, q, k, i2.data(), s2.data());
    if (f2 != f) return str("traits knn search finds ", f2, " instead of ", f);
    for (size_t i = 0; i < f; i++) if (s2[i] != sq[i]) return "traits knn search returns other distances";
  }
  size_t id[2] = {77, 77}; double sq[2] = {-7, -7};
  size_t f = map.nearest_neighbor_search(q, id, sq);
  auto m = tr(f, id, sq, 1);
  if (!m.empty()) return str("offsets=", offsets, " query=", q.transpose(), " nearest: ", m);
  size_t id2 = 77; double sq2 = -7;
  if (traits::nearest_neighbor_search(map, q, &id2, &sq2) != f || (f && sq2 != sq[0])) return "traits nearest search differs";
  return "";
}

template <typename C>
static std::string fill_and_query(const Pts& p, double leaf, const Pts& qs, const std::vector<size_t>& ks, const std::vector<int>& offs, int evict) {
  IncrementalVoxelMap<C> map(leaf);
  if constexpr (!std::is_same<C, GaussianVoxel>::value) { map.voxel_setting.min_sq_dist_in_cell = 1e-6; map.voxel_setting.max_num_points_in_cell = 8; }
  if (evict) {  // some voxels are inserted first and evicted again, so that voxel ids move
    map.lru_horizon = 0; map.lru_clear_cycle = 2;
    Pts a(p.begin(), p.begin() + p.size() / 2);
    for (auto& q : p) a.push_back(q + V4(leaf * 3, 0, -leaf, 0));
    map.insert(*cloud(a));
  }
  auto c = cloud(p);
  for (size_t i = 0; i < p.size(); i++) { c->cov(i).setIdentity(); c->cov(i)(3, 3) = 0; }
  map.insert(*c);
  for (int o : offs) {
    map.set_search_offsets(o);
    const auto& cm = map;
    auto el = elements(cm);
    uint64_t h = print(cm);
    for (auto& q : qs) TRY(query(cm, el, leaf, o == 7 || o == 27 ? o : 1, q, ks));
    if (print(cm) != h) return "searching modified the map";
  }
  return "";
}

int main(int argc, char** argv) {
  const bool th = seqx::thorough(argc, argv);
  // candidate cells: the 27 around the origin cell and 6 two cells away
  static std::vector<Eigen::Vector3i> cells;
  for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) cells.push_back({x, y, z});
  for (int s : {-2, 2}) { cells.push_back({s, 0, 0}); cells.push_back({0, s, 0}); cells.push_back({0, 0, s}); }
  const size_t NC = cells.size();
  auto pts_in = [](size_t c, int m) { Pts p; V4 b(cells[c][0], cells[c][1], cells[c][2], 1); for (int i = 0; i < m; i++) p.push_back(b + V4(0.25 + 0.3125 * (i % 2) + 0.015625 * c / 4, 0.375 + 0.25 * (i / 2), 0.625 - 0.0625 * i, 0)); return p; };
  static Pts qs = {V4(0.5, 0.5, 0.5, 1), V4(0, 0, 0, 1), V4(0.984375, 0.015625, 0.5, 1), V4(-0.5, 0.5, 0.5, 1), V4(1.25, 1.5, -0.75, 1), V4(40, 0.5, 0.5, 1), V4(-1, -1, -1, 1), V4(-0.015625, 0.75, 1.5, 1)};
  // many points per cell: in-cell point numbers beyond one and two bytes' worth of a nibble
  seqx::add("crowded", 8 * 3 * 2, [=](uint64_t i) -> std::string {
    seqx::Odo o(i); size_t m = std::vector<size_t>{15, 17, 33, 64, 257, 1000, 4099, 66001}[o(8)]; int off = std::vector<int>{1, 7, 27}[o(3)]; bool two = o(2);
    IncrementalVoxelMap<FlatContainerPoints> map(1.0);
    map.voxel_setting.min_sq_dist_in_cell = 0; map.voxel_setting.max_num_points_in_cell = 70000;
    Pts p;
    for (size_t j = 0; j < m; j++) { p.push_back(V4(((j * 37) % 1024) / 1024.0, ((j * 101) % 512) / 512.0, ((j * 11) % 64) / 64.0 + j / 65536.0 / 64, 1)); if (two) p.push_back(p.back() + V4(-1, 0, 0, 0)); }
    map.insert(*cloud(p));
    map.set_search_offsets(off);
    auto el = elements(map);
    if (el.size() != p.size()) return str("the map holds ", el.size(), " of ", p.size(), " points");
    for (size_t j = 0; j < p.size(); j += 1 + p.size() / 40) TRY(query(map, el, 1.0, off, p[j], {1, 2, 20}));
    return query(map, el, 1.0, off, V4(0.5, 0.5, 0.5, 1), m < 2000 ? std::vector<size_t>{1, m, 2 * m + 1} : std::vector<size_t>{1, 70});
  }, 300);
  // tens of thousands of voxels and points: global indices beyond 16 bits of voxel number
  seqx::add("large", 3 * 2, [=](uint64_t i) -> std::string {
    seqx::Odo o(i); int off = std::vector<int>{1, 7, 27}[o(3)]; bool flat = o(2);
    Pts p; for (int j = 0; j < 70001; j++) { p.push_back(V4(j % 50 + 0.5, j / 50 % 50 + 0.25, j / 2500 + 0.75, 1)); if (j % 3 == 0) p.push_back(p.back() + V4(0.25, 0.125, 0.0625, 0)); }
    auto go = [&](auto& map) -> std::string {
      auto c = cloud(p); for (size_t j = 0; j < p.size(); j++) { c->cov(j).setIdentity(); c->cov(j)(3, 3) = 0; }
      map.insert(*c); map.set_search_offsets(off);
      auto el = elements(map);
      if (map.size() != 70001) return str("the map has ", map.size(), " voxels instead of 70001");
      for (size_t j = 0; j < p.size(); j += 900) TRY(query(map, el, 1.0, off, p[j] + V4(0.0625, -0.125, 0.03125, 0), {1, 7}));
      return query(map, el, 1.0, off, p.back(), {1, 60});
    };
    if (flat) { IncrementalVoxelMap<FlatContainerPoints> map(1.0); map.voxel_setting.min_sq_dist_in_cell = 0; return go(map); }
    IncrementalVoxelMap<GaussianVoxel> map(1.0); return go(map);
  }, 300);
  // every set of up to three occupied cells, one to three points each
  seqx::add("cells/gaussian", NC * NC * NC * 2, [=](uint64_t i) -> std::string {
    seqx::Odo o(i); size_t a = o(NC), b = o(NC), c = o(NC); int ev = o(2);
    if (!(a <= b && b <= c)) return "";
    Pts p = pts_in(a, 2); for (auto& q : pts_in(b, 1)) p.push_back(q + V4(0.03125, 0, 0, 0)); for (auto& q : pts_in(c, 3)) p.push_back(q + V4(0, 0.03125, 0, 0));
    return fill_and_query<GaussianVoxel>(p, 1.0, qs, {1, 2, 5}, {1, 7, 27}, ev);
  });
  seqx::add("cells/flat", NC * NC * NC * 2, [=](uint64_t i) -> std::string {
    seqx::Odo o(i); size_t a = o(NC), b = o(NC), c = o(NC); int ev = o(2);
    if (!(a <= b && b <= c)) return "";
    Pts p = pts_in(a, 3); for (auto& q : pts_in(b, 2)) p.push_back(q + V4(0.03125, 0, 0, 0)); for (auto& q : pts_in(c, 4)) p.push_back(q + V4(0, 0.03125, 0, 0));
    return fill_and_query<FlatContainerPoints>(p, 1.0, qs, {1, 2, 4, 12}, {27, 1, 7}, ev);
  });
  // every single and pair of neighbour cells for every query cell of the block (translation invariance, negative coordinates)
  static std::vector<V4> bases = {V4(0, 0, 0, 0), V4(-7, 3, -1, 0), V4(1000000, -1000000, 12, 0), V4(-2000000, 0, 2000000, 0)};
  seqx::add("pairs", NC * 27 * bases.size() * 3, [=](uint64_t i) -> std::string {
    seqx::Odo o(i); size_t a = o(NC), qc = o(27); V4 base = bases[o(bases.size())]; double leaf = std::vector<double>{0.25, 1.0, 8.0}[o(3)];
    Pts p, q;
    for (auto& x : pts_in(a, 3)) { V4 y = (x + base) * leaf; y[3] = 1; p.push_back(y); }
    for (auto& x : pts_in(13, 1)) { V4 y = (x + base) * leaf; y[3] = 1; p.push_back(y); }
    for (double f : {0.0, 0.5, 0.9375}) { V4 y = (V4(cells[qc][0] + f, cells[qc][1] + f / 2, cells[qc][2] + f, 1) + base) * leaf; y[3] = 1; q.push_back(y); }
    TRY(fill_and_query<GaussianVoxel>(p, leaf, q, {1, 3}, {1, 7, 27}, 0));
    return fill_and_query<FlatContainerNormalCov>(p, leaf, q, {1, 3, 6}, {1, 7, 27}, 0);
  });
  // every sequence of neighbourhood settings up to length 4 (5 and 0 are unsupported: fall back to 1)
  const std::vector<int> ov = {1, 7, 27, 5, 0};
  static Pts full;
  for (size_t c = 0; c < NC; c++) for (auto& x : pts_in(c, 2)) full.push_back(x);
  seqx::add("offset_histories", 5 * 5 * 5 * 5, [=](uint64_t i) -> std::string {
    seqx::Odo o(i);
    std::vector<int> s = {ov[o(5)], ov[o(5)], ov[o(5)], ov[o(5)]};
    TRY(fill_and_query<GaussianVoxel>(full, 1.0, qs, {1, 2, 10, 40}, s, 0));
    return fill_and_query<FlatContainerPoints>(full, 1.0, qs, {1, 2, 10, 80}, s, 1);
  });
  // the initial neighbourhood is the centre cell
  seqx::add("initial", 1, [=](uint64_t) -> std::string {
    IncrementalVoxelMap<FlatContainerPoints> map(1.0);
    map.insert(*cloud(full));
    auto el = elements(map);
    for (auto& q : qs) TRY(query(map, el, 1.0, 1, q, {1, 3}));
    IncrementalVoxelMap<GaussianVoxel> empty(1.0);
    size_t id; double sq;
    for (auto& q : qs) if (empty.nearest_neighbor_search(q, &id, &sq) || empty.knn_search(q, 1, &id, &sq)) return "an empty map finds something";
    return "";
  });
  // dense clouds
  std::vector<size_t> ns = {1, 20, 150};
  if (th) for (size_t n : {5, 60, 400, 1000}) ns.push_back(n);
  std::vector<double> leaves = {0.25, 0.5, 1.0, 2.0, 8.0};
  seqx::add("clouds", (uint64_t)NSHAPE * ns.size() * leaves.size() * 5 * 2, [=](uint64_t i) -> std::string {
    seqx::Odo o(i);
    int s = o(NSHAPE); size_t n = ns[o(ns.size())]; double leaf = leaves[o(leaves.size())]; int kind = o(5), ev = o(2);
    Pts p = shape(s, n);
    for (auto& q : p) for (int k = 0; k < 3; k++) q[k] = std::round(q[k] * 256) / 256 + 1.0 / 1024;
    Pts q;
    for (size_t j = 0; j < n; j += 1 + n / 12) { q.push_back(p[j]); q.push_back(p[j] + V4(0.125, -0.375, 0.0625, 0)); q.push_back(p[j] + V4(-leaf, leaf, 0, 0)); }
    std::vector<size_t> ks = {1, 3, 10, n + 2};
    std::string m;
    switch (kind) {
      case 0: m = fill_and_query<GaussianVoxel>(p, leaf, q, ks, {1, 7, 27}, ev); break;
      case 1: m = fill_and_query<FlatContainerPoints>(p, leaf, q, ks, {1, 7, 27}, ev); break;
      case 2: m = fill_and_query<FlatContainerNormal>(p, leaf, q, ks, {27, 7, 1}, ev); break;
      case 3: m = fill_and_query<FlatContainerCov>(p, leaf, q, ks, {7}, ev); break;
      default: m = fill_and_query<FlatContainerNormalCov>(p, leaf, q, ks, {27}, ev);
    }
    return m.empty() ? m : str(shape_name(s), " n=", n, " leaf=", leaf, " kind=", kind, ": ", m);
  });
  return seqx::main("C09", argc, argv);
}
