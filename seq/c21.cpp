// C21: point files, truncated at every byte.  Every (file layout, truncation point) is read by the real readers in a child process
// (this binary is built with AddressSanitizer); the answer is compared with the points the file was built from.
#include "seqx.hpp"
#include <sstream>
#include <sys/stat.h>
#include <small_gicp/benchmark/read_points.hpp>
using seqx::str; using seqx::Odo; using seqx::step; using seqx::state;
using V4f = Eigen::Vector4f;
using Pts = std::vector<V4f>;
extern "C" const char* __asan_default_options() { return "symbolize=0:handle_segv=0:print_legend=0:print_full_thread_history=0"; }
static bool TH = false;
static std::string DIR;

static std::string path(const char* tag) { return str(DIR, "/", tag, "-", (long)getpid()); }
static void save(const std::string& p, const std::string& bytes) { FILE* f = fopen(p.c_str(), "wb"); fwrite(bytes.data(), 1, bytes.size(), f); fclose(f); }
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static float value(int set, int i, int c) {
  static const float sp[] = {0.0f, -0.0f, 1.0f, -1e30f, 1e-40f, INFINITY, -INFINITY, NAN, 0.1f, -123.456f, 3e38f, 16777217.0f};
  if (set == 1) return sp[(i * 5 + c * 7) % 12];
  return (i + 1) + 0.25f * c + (c == 3 ? 100 : 0);
}
static bool same(float a, float b) { return memcmp(&a, &b, 4) == 0; }

// runs f in a child; returns "" / message, "!crash" on a crash, "!hang"
static std::string guarded(const std::function<std::string()>& f) {
  int fd[2];
  if (pipe(fd)) return "pipe";
  pid_t p = fork();
  if (p == 0) {
    close(fd[0]); alarm(20);
    std::string m;
    try { m = f(); } catch (const std::bad_alloc&) { m = "!alloc"; } catch (const std::exception& e) { m = "!exception"; }
    m += '\n';
    if (write(fd[1], m.data(), m.size()) < 0) {}
    _exit(0);
  }
  close(fd[1]);
  std::string r; char b[4096]; ssize_t n;
  while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, n);
  close(fd[0]);
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? "!hang" : "!crash";
  if (WEXITSTATUS(st) || r.empty()) return "!crash";
  r.pop_back();
  return r;
}

// ---- raw float4 files
static std::string rawbytes(int set, int n) { std::string s; for (int i = 0; i < n; i++) for (int c = 0; c < 4; c++) { float v = value(set, i, c); s.append((const char*)&v, 4); } return s; }
static std::string check_raw(const std::string& bytes, int set, const std::string& what) {
  std::string p = path("raw");
  SAMPLE(what);
  save(p, bytes);
  std::string m = guarded([&]() -> std::string {
    Pts r = small_gicp::read_points(p);
    if (r.size() != bytes.size() / 16) return str(r.size(), " points instead of ", bytes.size() / 16);
    for (size_t i = 0; i < r.size(); i++) { for (int c = 0; c < 3; c++) if (!same(r[i][c], value(set, i, c))) return str("point ", i, " component ", c, " is ", r[i][c], " instead of ", value(set, i, c)); if (r[i][3] != 1.0f) return str("point ", i, " has w=", r[i][3]); }
    return "";
  });
  if (slurp(p) != bytes) m = "the file was modified";
  unlink(p.c_str());
  step(); state(seqx::mix(seqx::mix(1, bytes.size()), set));
  return m.empty() ? "" : str(what, ": ", m);
}
static int RAWN() { return TH ? 40 : 9; }
static uint64_t nraw() { return (uint64_t)(RAWN() * 16 + 16) * 2; }
static std::string raw(uint64_t i) {
  Odo o(i); int set = o(2); int cut = o(RAWN() * 16 + 16);
  return check_raw(rawbytes(set, RAWN() + 1).substr(0, cut), set, str("raw file of ", cut, " bytes"));
}
static std::string rawbig(uint64_t i) {  // around stream buffer sizes
  static const int B[] = {4096, 8191, 8192, 16384, 65536, 1 << 20};
  Odo o(i); int off = (int)o(81) - 40; int b = B[o(6)];
  return check_raw(rawbytes(0, b / 16 + 4).substr(0, b + off), 0, str("raw file of ", b + off, " bytes"));
}
static std::string wr(uint64_t i) {  // write_points / read_points, over an existing longer or shorter file
  Odo o(i); int set = o(2), n = o(12), before = o(4);
  std::string p = path("wr");
  if (before) save(p, std::string(before == 1 ? 3 : before == 2 ? 160 : 1000, 'q'));
  Pts in; for (int k = 0; k < n; k++) in.emplace_back(value(set, k, 0), value(set, k, 1), value(set, k, 2), value(set, k, 3));
  Pts copy = in;
  std::string m = guarded([&]() -> std::string {
    small_gicp::write_points(p, in);
    if (n && memcmp(in.data(), copy.data(), 16 * n)) return "write_points modified its input";
    std::string f = slurp(p);
    if (f.size() != (size_t)n * 16) return str("file of ", f.size(), " bytes for ", n, " points");
    if (n && memcmp(f.data(), copy.data(), 12)) return "first point differs in the file";
    Pts r = small_gicp::read_points(p);
    if (r.size() != (size_t)n) return str(r.size(), " points read back instead of ", n);
    for (int k = 0; k < n; k++) for (int c = 0; c < 3; c++) if (!same(r[k][c], copy[k][c])) return str("point ", k, " changed in the round trip");
    for (int k = 0; k < n; k++) if (r[k][3] != 1.0f) return "w is not 1";
    return "";
  });
  unlink(p.c_str());
  step();
  return m.empty() ? "" : str("round trip of ", n, " points: ", m);
}

// ---- PLY
struct Ply { std::string bytes; size_t header; int n, props; };
static Ply ply(int props, int n, int form, int set) {
  static const char* names[2][7] = {{"x", "y", "z", "intensity", "nx", "ny", "nz"}, {"X", "Y", "Z", "w", "r", "g", "b"}};
  std::string h = "ply\nformat binary_little_endian 1.0\n";
  if (form == 1) h += "comment made by a tool\ncomment element vertex 77\ncomment property float q\n";
  h += str("element vertex ", n, "\n");
  for (int k = 0; k < props; k++) { h += str("property float ", names[form == 2][k], "\n"); if (form == 1 && k == 1) h += "comment in between\n"; }
  h += "end_header\n";
  Ply r; r.header = h.size(); r.n = n; r.props = props;
  for (int i = 0; i < n; i++) for (int c = 0; c < props; c++) { float v = value(set, i, c); h.append((const char*)&v, 4); }
  r.bytes = h;
  return r;
}
// returns the defect of reading the first `cut` bytes of the file plus `trail` extra ones
static std::string check_ply(const Ply& f, int set, size_t cut, int trail) {
  std::string p = path("ply"), bytes = f.bytes.substr(0, cut) + std::string(trail, '\x7f');
  save(p, bytes);
  const bool header = cut >= f.header;
  SAMPLE(str("PLY with ", f.n, " points of ", f.props, " properties, ", bytes.size(), " of ", f.bytes.size(), " bytes (header ", f.header, ")"));
  const size_t body = header ? bytes.size() - f.header : 0;
  const size_t inside = header ? std::min<size_t>(f.n, body / (4 * f.props)) : 0;  // points fully contained in the file
  std::string m = guarded([&]() -> std::string {
    Pts r = small_gicp::read_ply(p);
    size_t good = 0;  // leading points that are right
    while (good < std::min(r.size(), inside)) {
      bool ok = r[good][3] == 1.0f;
      for (int c = 0; c < 3; c++) ok = ok && same(r[good][c], value(set, good, c));
      if (!ok) break;
      good++;
    }
    if (r.size() == inside && good == inside) return "";
    return str("?", r.size(), " ", good);
  });
  unlink(p.c_str());
  step(); state(seqx::mix(seqx::mix(seqx::mix(2, body), f.props), std::hash<std::string>()(m)));
  if (m.empty()) return "";
  std::string what = str("PLY with ", f.n, " points of ", f.props, " properties, ", bytes.size(), " of ", f.bytes.size(), " bytes (header ", f.header, ")");
  if (m == "!exception" && !header) return "";  // refused
  size_t lines = 0;  // property lines in the truncated header
  for (size_t q = 0, b = f.bytes.substr(0, std::min(cut, f.header)).find("\nproperty"); b != std::string::npos; b = f.bytes.substr(0, std::min(cut, f.header)).find("\nproperty", b + 1)) lines++;
  if (m == "!crash" && !header && lines < 3) return str("@ply-truncated-header ", what, ": out-of-bounds access");
  if (m == "!crash" && header && f.props == 3 && bytes.size() - f.header > (size_t)12 * f.n && f.n > 0) return str("@ply-3-properties-trailing-bytes ", what, ": heap overflow");
  if (m[0] == '?') {
    size_t size = 0, good = 0; sscanf(m.c_str(), "?%zu %zu", &size, &good);
    what += str(": ", size, " points returned, ", inside, " are in the file, the first ", good, " are right");
    size_t lim = 0;  // points whose coordinates lie in the first 16 n bytes
    while (lim < inside && lim * f.props + 3 <= (size_t)4 * f.n) lim++;
    if (!header) { size_t at = f.bytes.find("\nelement vertex ") + 16; long told = cut > at ? atol(f.bytes.substr(at, cut - at).c_str()) : 0; if ((long)size == told) return str("@ply-truncated-header ", what); }
    else if (size == (size_t)f.n && f.props > 4 && good == lim) return str("@ply-", f.props, "-properties ", what);
    else if (size == (size_t)f.n && inside < (size_t)f.n && good == lim) return str("@ply-truncated-body ", what);
    return what;
  }
  return str(what, ": ", m);
}
static int PN() { return TH ? 6 : 3; }
struct PC { int props, n, form, set; size_t cut; int trail; };
static std::vector<PC> PCASES;
static void plycases() {
  for (int props = 3; props <= 7; props++) for (int n = 0; n <= PN(); n++) for (int form = 0; form < 3; form++) for (int set = 0; set < 2; set++) {
    Ply f = ply(props, n, form, set);
    for (size_t c = 0; c <= f.bytes.size(); c++) PCASES.push_back({props, n, form, set, c, 0});
    for (int t : {1, 3, 4, 12, 16, 100}) PCASES.push_back({props, n, form, set, f.bytes.size(), t});
  }
  for (int n : {1, 2, 10, 11, 12, 99, 682, 683, 1365, 4096}) for (int props = 3; props <= 4; props++) PCASES.push_back({props, n, 0, 0, ply(props, n, 0, 0).bytes.size(), 0});  // 2-digit counts, stream buffer sizes
}
static std::string plyrun(uint64_t i) { const PC& c = PCASES[i]; return check_ply(ply(c.props, c.n, c.form, c.set), c.set, c.cut, c.trail); }

// ---- files that are not there, or not what they should be
static std::string odd(uint64_t i) {
  std::string p = path("odd"), what, m;
  auto empty = [](const Pts& r) { return r.empty() ? std::string() : str(r.size(), " points"); };
  switch (i) {
    case 0: what = "missing raw file"; m = guarded([&] { return empty(small_gicp::read_points(p)); }); break;
    case 1: what = "missing PLY file"; m = guarded([&] { return empty(small_gicp::read_ply(p)); }); break;
    case 2: what = "raw file in a missing directory"; m = guarded([&] { return empty(small_gicp::read_points(p + "/x")); }); break;
    case 3: what = "empty raw file"; save(p, ""); m = guarded([&] { return empty(small_gicp::read_points(p)); }); break;
    case 4: what = "writing into a missing directory"; m = guarded([&] { small_gicp::write_points(p + "/x", Pts(3, V4f::Ones())); return std::string(access(p.c_str(), F_OK) == 0 ? "created something" : ""); }); break;
    case 5: what = "PLY with a list property"; save(p, "ply\nformat binary_little_endian 1.0\nelement vertex 1\nproperty list uchar int i\nend_header\n1234567890123456"); m = guarded([&] { return empty(small_gicp::read_ply(p)); }); break;
    case 6: what = "PLY with double properties"; save(p, "ply\nformat binary_little_endian 1.0\nelement vertex 1\nproperty double x\nproperty double y\nproperty double z\nend_header\n123456789012345678901234"); m = guarded([&] { return empty(small_gicp::read_ply(p)); }); break;
    case 7: what = "PLY with faces only"; save(p, "ply\nformat binary_little_endian 1.0\nelement face 1\nend_header\n1234567890123456"); m = guarded([&] { return empty(small_gicp::read_ply(p)); }); break;
    case 8: what = "empty raw path"; m = guarded([&] { return empty(small_gicp::read_points("")); }); break;
    case 9: what = "empty PLY path"; m = guarded([&] { return empty(small_gicp::read_ply("")); }); break;
  }
  unlink(p.c_str());
  step();
  return m.empty() ? "" : str(what, ": ", m);
}
int main(int argc, char** argv) {
  TH = seqx::thorough(argc, argv);
  char d[] = "/tmp/c21-XXXXXX";
  if (!mkdtemp(d)) return 3;
  DIR = d;
  plycases();
  seqx::add("raw-truncated-at-every-byte", nraw(), raw);
  seqx::add("raw-stream-buffer-sizes", 81 * 6, rawbig);
  seqx::add("write-read-round-trip", 2 * 12 * 4, wr);
  seqx::add("ply-truncated-at-every-byte", PCASES.size(), plyrun);
  seqx::add("missing-and-foreign-files", 10, odd);
  int r = seqx::main("C21", argc, argv);
  (void)!system(("rm -rf /tmp/" + DIR.substr(5)).c_str());
  return r;
}
