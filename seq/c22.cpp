// C22: projective search against brute force over the pixels of the search window.  The point kept for each pixel is observed with a
// one-pixel window; every other answer must then be the brute-force answer over the kept points whose pixels lie in the window.
#include "ref.hpp"
#include <small_gicp/points/eigen.hpp>
#include <small_gicp/ann/traits.hpp>
#include <small_gicp/ann/projective_search.hpp>
using namespace ref;
using namespace small_gicp; using seqx::Odo;
#define TRY(x) do { std::string m_ = (x); if (!m_.empty()) return m_; } while (0)
static bool TH = false;

// exact projection: x/64, y/64 as image coordinates
struct Planar { Eigen::Vector2d operator()(const Eigen::Vector3d& p) const { return Eigen::Vector2d(p[0] / 64.0, p[1] / 64.0); } };

static std::vector<std::pair<std::string, Pts>> CLOUDS;
static Pts QUERIES, PQUERIES;
static void make() {
  auto dir = [](double lon, double lat, double r) { return V4(r * std::cos(lat) * std::sin(lon), -r * std::sin(lat), r * std::cos(lat) * std::cos(lon), 1); };
  Pts lat3; for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) if (x || y || z) lat3.push_back(V4(x, y, z, 1));
  CLOUDS.push_back({"lattice26", lat3});
  CLOUDS.push_back({"empty", {}});
  CLOUDS.push_back({"single", {V4(0.3, 0.2, 2, 1)}});
  CLOUDS.push_back({"poles", {V4(0, 1, 0, 1), V4(0, -1, 0, 1), V4(1e-9, 2, 1e-9, 1), V4(-1e-9, -3, 1e-17, 1), V4(0, 1, -0.0, 1), V4(-0.0, -1, -0.0, 1)}});
  CLOUDS.push_back({"seam", {V4(0, 0, -1, 1), V4(-0.0, 0, -1, 1), V4(1e-12, 0.1, -2, 1), V4(-1e-12, -0.1, -2, 1), V4(0.01, 0.2, -3, 1), V4(-0.01, 0.2, -3, 1)}});
  CLOUDS.push_back({"origin", {V4(0, 0, 0, 1), V4(0.01, 0, 0, 1), V4(0, 0.03, -0.001, 1), V4(0, 0, 5, 1)}});
  Pts g; for (int i = 0; i < 12; i++) for (int j = -3; j <= 3; j++) g.push_back(dir(-M_PI + (i + 0.37) * 2 * M_PI / 12, (j + 0.11) * M_PI / 7.5, 3 + 0.1 * ((i * 5 + j + 3) % 7)));
  CLOUDS.push_back({"sphere84", g});
  Pts two = g; for (auto& p : g) two.push_back(V4(2 * p[0], 2 * p[1], 2 * p[2], 1)); CLOUDS.push_back({"two-shells", two});
  Pts dup(5, V4(1, 0.5, 2, 1)); dup.push_back(V4(-1, 0.5, 2, 1)); CLOUDS.push_back({"coincident", dup});
  Pts far; for (int k = 0; k < 24; k++) far.push_back(dir(k * 0.61 - 3.1, std::sin(k * 1.7) * 1.5, std::pow(10.0, k % 8 - 1))); CLOUDS.push_back({"magnitudes", far});
  if (TH) { Pts d; for (int i = 0; i < 36; i++) for (int j = -8; j <= 8; j++) d.push_back(dir(-M_PI + (i + 0.37) * 2 * M_PI / 36, (j + 0.11) * M_PI / 18, 3 + 0.1 * ((i * 5 + j + 30) % 17))); CLOUDS.push_back({"sphere612", d}); }
  QUERIES = lat3;
  for (auto& q : CLOUDS[3].second) QUERIES.push_back(q);
  for (auto& q : CLOUDS[4].second) QUERIES.push_back(q);
  for (auto& q : CLOUDS[5].second) QUERIES.push_back(q);
  for (int i = 0; i < (TH ? 40 : 9); i++) QUERIES.push_back(dir(i * 0.77 - 3, std::cos(i * 1.3) * 1.4, 1 + 0.4 * i));
  for (double m : {1e-200, 1e-5, 0.0316, 0.03163, 1e6, 1e100}) { QUERIES.push_back(V4(m, m / 3, -m / 2, 1)); QUERIES.push_back(V4(-m / 7, -m, 0, 1)); }
  for (int x = 0; x <= 64; x += 8) for (int y = 0; y <= 64; y += 16) PQUERIES.push_back(V4(x, y, 0, 1));
  for (double x : {0.0, 7.9, 33.0, 63.9, 64.0}) for (double y : {0.5, 31.9, 40.0}) PQUERIES.push_back(V4(x, y, 2, 1));
  for (double x : {-128.0, -64.0, 5.0, 33.0, 64.0, 65.0, 200.0}) for (double y : {-128.0, -64.0, 7.0, 63.0, 64.0, 66.0, 300.0}) if (x < 0 || y < 0 || x > 64 || y > 64) PQUERIES.push_back(V4(x, y, 1, 1));
}
// brute-force answer must match over the candidate list (indices into the cloud)
static std::string judge(const Pts& pts, const std::vector<size_t>& cand, const V4& q, size_t k, size_t f, const std::vector<size_t>& idx, const std::vector<double>& sq, double eps) {
  Pts c; for (size_t i : cand) c.push_back(pts[i]);
  std::vector<size_t> t(idx.begin(), idx.begin() + std::min(f, k));
  for (size_t i = 0; i < t.size(); i++) {
    size_t j = std::find(cand.begin(), cand.end(), t[i]) - cand.begin();
    if (j == cand.size()) return str("result ", i, " is point ", t[i], (t[i] < pts.size() ? ", which is not kept in the search window" : ", which does not exist"));
    t[i] = j;
  }
  return check_knn(c, q, k, f, t.data(), sq.data(), eps);
}
template <bool RH, bool RV, typename Proj, typename S>
static std::string window(S& s, const Pts& pts, const std::map<std::pair<int, int>, size_t>& kept, int W, int H, int wh, int wv, const V4& q, uint64_t& h) {
  s.search_window_h = wh; s.search_window_v = wv;
  Eigen::Vector2d uv = Proj()(q.template head<3>());
  const int u = std::min<int>(uv[0] * W, W - 1), v = std::min<int>(uv[1] * H, H - 1);
  std::vector<size_t> cand;
  // a query that projects outside the image: below the first pixel of a border that is not repeated, the window must be cut off at the border; elsewhere
  // only safety is judged (the answers are kept points at their true distances)
  if ((u < 0 && RH) || (v < 0 && RV) || uv[0] > 1 || uv[1] > 1) {
    for (size_t k : {size_t(1), size_t(4), pts.size() + 1}) {
      std::vector<size_t> idx(k + 1, 77); std::vector<double> sq(k + 1, -7);
      size_t f = s.knn_search(q, (int)k, idx.data(), sq.data()); seqx::step();
      if (f > k || sq[k] != -7) return str("window ", wh, "x", wv, " outside query ", q.transpose(), " k=", k, ": wrote past the result slots");
      std::set<size_t> seen;
      for (size_t i = 0; i < f; i++) {
        bool ok = false; for (auto& e : kept) ok |= e.second == idx[i];
        if (!ok || !seen.insert(idx[i]).second || std::abs(sq[i] - d2(pts[idx[i]], q)) > 1e-9 * (1 + sq[i]) || (i && sq[i] < sq[i - 1])) return str("window ", wh, "x", wv, " outside query ", q.transpose(), " k=", k, ": result ", i, " is not a distinct kept point at its true distance in ascending order");
      }
      h = seqx::mix(h, f);
    }
    return "";
  }
  for (auto& e : kept) {
    auto in = [](int a, int c, int w, int n, bool rep) { if (std::abs(a - c) <= w) return true; if (!rep) return false; for (int m = 1; m * n <= w + n; m++) if (std::abs(a - c - m * n) <= w || std::abs(a - c + m * n) <= w) return true; return false; };
    if (in(e.first.first, u, wh, W, RH) && in(e.first.second, v, wv, H, RV)) cand.push_back(e.second);
  }
  for (size_t k : {size_t(1), size_t(2), size_t(5), pts.size() + 1}) {
    for (double eps : {0.0, 0.5, 1e4}) {
      std::vector<size_t> idx(k + 1, 77); std::vector<double> sq(k + 1, -7);
      KnnSetting st; st.epsilon = eps;
      size_t f = eps ? s.knn_search(q, (int)k, idx.data(), sq.data(), st) : s.knn_search(q, (int)k, idx.data(), sq.data());
      seqx::step();
      auto m = judge(pts, cand, q, k, f, idx, sq, eps);
      if (m.empty() && sq[k] != -7) m = "search wrote past the k result slots";
      if (!m.empty()) return str("window ", wh, "x", wv, " query ", q.transpose(), " k=", k, " epsilon=", eps, ": ", m);
      h = seqx::mix(h, f); if (f) h = seqx::hash_d(h, sq[0]);
      if (eps) continue;
      std::vector<size_t> i2(k, 77); std::vector<double> s2(k, -7);
      size_t f2 = traits::knn_search(s, q, k, i2.data(), s2.data());
      if (f2 != f || !std::equal(s2.begin(), s2.begin() + f, sq.begin())) return str("window ", wh, "x", wv, " query ", q.transpose(), " k=", k, ": traits answer differs");
      if (k == 2 || k == 5) {
        f2 = k == 2 ? s.template knn_search<2>(q, i2.data(), s2.data()) : s.template knn_search<5>(q, i2.data(), s2.data());
        if (f2 != f || !std::equal(s2.begin(), s2.begin() + f, sq.begin())) return str("window ", wh, "x", wv, " query ", q.transpose(), " k=", k, ": answer with a compile-time k differs");
      }
      if (k == 1) for (int how = 0; how < 2; how++) {
        i2[0] = 77; s2[0] = -7;
        f2 = how ? traits::nearest_neighbor_search(s, q, i2.data(), s2.data()) : s.nearest_neighbor_search(q, i2.data(), s2.data());
        if (f2 != f || (f && s2[0] != sq[0])) return str("window ", wh, "x", wv, " query ", q.transpose(), ": nearest neighbour search differs from k=1");
        if (f) TRY(judge(pts, cand, q, 1, f2, i2, s2, 0));
      }
    }
  }
  return "";
}
static const int WH[] = {0, 1, 2, 10}, WV[] = {0, 1, 5};
template <bool RH, bool RV, typename Proj, typename C>
static std::string with(const C& c, const Pts& pts, int W, int H, const Pts& queries) {
  using BH = std::conditional_t<RH, BorderRepeat, BorderClamp>; using BV = std::conditional_t<RV, BorderRepeat, BorderClamp>;
  UnsafeProjectiveSearch<C, Proj, BH, BV> s(W, H, c);
  // what is kept: every point's own pixel answers with one point of that pixel
  std::map<std::pair<int, int>, size_t> kept;
  std::map<std::pair<int, int>, std::vector<size_t>> pix;
  for (size_t i = 0; i < pts.size(); i++) { Eigen::Vector2d uv = Proj()(pts[i].template head<3>()); pix[{std::min<int>(uv[0] * W, W - 1), std::min<int>(uv[1] * H, H - 1)}].push_back(i); }
  const auto def = std::make_pair(s.search_window_h, s.search_window_v);
  s.search_window_h = s.search_window_v = 0;
  for (auto& e : pix) for (size_t i : e.second) {
    if (e.first.first < 0 || e.first.second < 0) continue;  // projects outside the image: discarded
    size_t idx[3] = {77, 77, 77}; double sq[3];
    size_t f = s.knn_search(pts[i], 3, idx, sq);
    if (f != 1) return str(f, " points found in the pixel of point ", i);
    if (std::find(e.second.begin(), e.second.end(), idx[0]) == e.second.end()) return str("pixel of point ", i, " holds point ", idx[0], " of another pixel");
    if (!kept.insert({e.first, idx[0]}).second && kept[e.first] != idx[0]) return str("the pixel of point ", i, " answers differently");
    if (idx[0] == i && sq[0] != 0) return str("point ", i, " finds itself at distance ", sq[0]);
  }
  uint64_t h = W * 1000 + H;
  for (auto& q : queries) for (int wh : WH) for (int wv : WV) TRY((window<RH, RV, Proj>(s, pts, kept, W, H, wh, wv, q, h)));
  seqx::state(h);
  // owning search: default windows
  auto sp = std::make_shared<const C>(c);
  ProjectiveSearch<C, Proj, BH, BV> o(W, H, sp);
  s.search_window_h = def.first; s.search_window_v = def.second;
  if (o.points != sp) return "the owning search does not hold the given cloud";
  for (auto& q : queries) for (size_t k : {size_t(1), size_t(3), pts.size() + 1}) {
    std::vector<size_t> a(k, 77), b(k, 77), d(k, 77); std::vector<double> x(k, -7), y(k, -7), z(k, -7);
    size_t f = s.knn_search(q, (int)k, a.data(), x.data()), g = o.knn_search(q, k, b.data(), y.data()), t = traits::knn_search(o, q, k, d.data(), z.data());
    if (f != g || g != t || x != y || y != z) return str("owning search differs from the unsafe one, query ", q.transpose(), " k=", k);
    if (k == 1) { g = o.nearest_neighbor_search(q, b.data(), y.data()); t = traits::nearest_neighbor_search(o, q, d.data(), z.data()); if (f != g || g != t || x != y || y != z) return "owning nearest neighbour search differs from the unsafe one"; }
    seqx::step();
  }
  return "";
}
static const int IW[] = {1, 2, 3, 4, 7, 12, 20, 21, 22, 64}, IH[] = {1, 2, 5, 10, 11, 12, 32};
template <typename Proj>
static std::string one(const Pts& pts, const Pts& queries, int cont, int mode, int W, int H) {
  auto go = [&](const auto& c) -> std::string {
    switch (mode) {
      case 0: return with<true, false, Proj>(c, pts, W, H, queries);
      case 1: return with<false, false, Proj>(c, pts, W, H, queries);
      default: return with<true, true, Proj>(c, pts, W, H, queries);
    }
  };
  std::string m;
  if (cont == 0) { auto c = cloud(pts); m = go(*c); for (size_t i = 0; i < pts.size(); i++) if (c->points[i] != pts[i]) m = "the cloud was modified"; }
  else { Eigen::MatrixXd c(pts.size(), 3); for (size_t i = 0; i < pts.size(); i++) c.row(i) = pts[i].head<3>(); m = go(c); }
  return m;
}
static std::string equirect(uint64_t i) {
  Odo o(i); int W = IW[o(10)], H = IH[o(7)], mode = o(3), cont = o(2); auto& c = CLOUDS[o(CLOUDS.size())];
  Pts q = QUERIES; for (auto& p : c.second) q.push_back(p);
  SAMPLE(str(c.first, " on ", W, "x", H, " mode ", mode, " container ", cont, ": ", q.size(), " queries, all windows and k"));
  auto m = one<EquirectangularProjection>(c.second, q, cont, mode, W, H);
  return m.empty() ? "" : str(c.first, " on ", W, "x", H, " mode ", mode, " container ", cont, ": ", m);
}
static std::string planar(uint64_t i) {
  Odo o(i); int W = IW[o(10)], H = IH[o(7)], mode = o(3), n = o(6), outside = o(2);
  static const int N[] = {0, 1, 3, 9, 25, 80};
  Pts p; Mix r(n + 5); for (int k = 0; k < N[n]; k++) p.push_back(V4(r.in(0, 64), r.in(0, 64), r.in(-2, 2), 1));
  if (outside) for (auto& q : Pts{V4(-64, 5, 0, 1), V4(7, -64, 0, 1), V4(-128, -128, 0, 1), V4(20, -640, 1, 1)}) p.insert(p.begin() + p.size() / 2, q);
  auto m = one<Planar>(p, PQUERIES, 0, mode, W, H);
  SAMPLE(str(N[n], " planar points on ", W, "x", H, " mode ", mode));
  return m.empty() ? "" : str(N[n], " planar points on ", W, "x", H, " mode ", mode, ": ", m);
}
// the projection itself
static std::string proj(uint64_t i) {
  Odo o(i); double lon = ((int)o(181) - 90) * M_PI / 90, lat = ((int)o(91) - 45) * M_PI / 90, r = std::pow(10.0, (int)o(5) - 1) * 1.3;
  Eigen::Vector3d p(r * std::cos(lat) * std::sin(lon), -r * std::sin(lat), r * std::cos(lat) * std::cos(lon));
  Eigen::Vector2d uv = EquirectangularProjection()(p);
  seqx::step();
  SAMPLE(str("projection of lon=", lon, " lat=", lat, " r=", r, " is ", uv.transpose()));
  std::string d = str("projection of lon=", lon, " lat=", lat, " r=", r, " is ", uv.transpose());
  if (!(uv[0] >= 0 && uv[0] <= 1 && uv[1] >= 0 && uv[1] <= 1)) return d + ", outside of [0,1]";
  double du = std::abs(uv[0] - (lon / (2 * M_PI) + 0.5)); du = std::min(du, std::abs(1 - du));
  // near the poles the longitude, and near the image border the latitude, are ill-conditioned
  if (std::cos(lat) > 1e-6 && du > 1e-9) return d;
  if (std::abs(uv[1] - (lat / M_PI + 0.5)) > 2e-8) return d;
  return "";
}
int main(int argc, char** argv) {
  TH = seqx::thorough(argc, argv);
  make();
  seqx::add("equirectangular", 10 * 7 * 3 * 2 * CLOUDS.size(), equirect, 300);
  seqx::add("large", 4, [](uint64_t i) -> std::string {  // beyond 16-bit indices: 70 001 points
    Odo o(i); const int W = o(2) ? 360 : 64, H = o(2) ? 300 : 20; Pts p; Mix r(5);
    for (int k = 0; k < 70001; k++) { double lon = r.u(-3.14, 3.14), lat = r.u(-1.5, 1.5), d = r.u(2, 50); p.push_back(V4(d * cos(lat) * sin(lon), -d * sin(lat), d * cos(lat) * cos(lon), 1)); }
    Pts q; for (size_t j = 0; j < p.size(); j += 10000) { q.push_back(p[j]); q.push_back(p[j] + V4(0.3, -0.2, 0.1, 0)); } q.push_back(p.back()); q.push_back(p[65536]);
    auto c = cloud(p); EquirectangularProjection pr; auto pix = [&](const V4& x) { Eigen::Vector2d uv = pr(x.head<3>()); return std::make_pair(std::min<int>(uv[0] * W, W - 1), std::min<int>(uv[1] * H, H - 1)); };
    UnsafeProjectiveSearch<PointCloud> s(W, H, *c); s.search_window_h = s.search_window_v = 0;
    std::map<std::pair<int, int>, size_t> kept, any;
    for (size_t j = 0; j < p.size(); j++) any[pix(p[j])] = j;
    for (auto& e : any) { size_t id[2]; double sq[2]; size_t f = s.knn_search(p[e.second], 2, id, sq); if (f != 1 || id[0] >= p.size() || pix(p[id[0]]) != e.first) return str("pixel ", e.first.first, ",", e.first.second, " of ", W, "x", H, " answers with ", f, " points, or one of another pixel"); kept[e.first] = id[0]; }
    uint64_t h = i;
    for (auto& x : q) for (int w : {1, 10}) {  // plain window semantics of the default border modes are enumerated above; here: inside of the image only
      auto c0 = pix(x); if (c0.first < w || c0.first >= W - w || c0.second < w || c0.second >= H - w) continue;
      std::vector<size_t> cand; for (auto& e : kept) if (std::abs(e.first.first - c0.first) <= w && std::abs(e.first.second - c0.second) <= w) cand.push_back(e.second);
      s.search_window_h = s.search_window_v = w;
      for (size_t k : {1, 5, 300}) { std::vector<size_t> idx(k, 77); std::vector<double> sq(k, -7); size_t f = s.knn_search(x, (int)k, idx.data(), sq.data()); seqx::step(); TRY(judge(p, cand, x, k, f, idx, sq, 0)); h = seqx::mix(h, f); }
    }
    seqx::state(h);
    return "";
  }, 300);
  seqx::add("exact-planar-projection", 10 * 7 * 3 * 6 * 2, planar, 300);
  seqx::add("projection-function", 181 * 91 * 5, proj);
  return seqx::main("C22", argc, argv);
}
