// seqx: exhaustive bounded enumeration of cases / operation sequences on the real code, sharded over forked workers.
// A family is a finite, indexed set of cases; every case is executed.  Crashes, sanitizer reports and hangs of a case
// are violations too.  Case = (family, index), so every report replays exactly.
#pragma once
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace seqx {
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define SEQX_MSAN 1
#include <sanitizer/msan_interface.h>
#endif
#endif
#ifdef SEQX_MSAN  // libstdc++'s streams are not instrumented: format with printf
inline std::string str1(const std::string& s) { return s; }
inline std::string str1(const char* s) { return s; }
inline std::string str1(char c) { return std::string(1, c); }
template <typename T> std::string str1(const T& v) { char b[64]; if constexpr (std::is_floating_point_v<T>) snprintf(b, 64, "%.17g", (double)v); else if constexpr (std::is_pointer_v<T>) snprintf(b, 64, "%p", (const void*)v); else snprintf(b, 64, "%lld", (long long)v); return b; }
template <typename... A>
std::string str(A&&... a) { std::string r; ((r += str1(a)), ...); return r; }
#else
template <typename... A>
std::string str(A&&... a) { std::ostringstream s; s.precision(17); (s << ... << a); return s.str(); }
#endif
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline uint64_t mix(uint64_t h, uint64_t v) { h = (h ^ v) * 0x9E3779B97F4A7C15ull; return h ^ (h >> 31); }

// Case result: empty = property held. "@<key> text" = deviation with an identity that may be a listed known finding.
using Case = std::function<std::string(uint64_t)>;
struct Family { std::string name; uint64_t n; Case run; int timeout; };
inline std::vector<Family>& families() { static std::vector<Family> v; return v; }
inline void add(std::string name, uint64_t n, Case run, int timeout = 60) { families().push_back({std::move(name), n, std::move(run), timeout}); }

// mixed-radix decoding of a case index
struct Odo {
  uint64_t i;
  explicit Odo(uint64_t i) : i(i) {}
  uint64_t operator()(uint64_t radix) { uint64_t r = i % radix; i /= radix; return r; }
};

struct WorkerSlot { volatile uint64_t cur; volatile double since; volatile int state; char msg[3000]; };
constexpr size_t TABLE = size_t(1) << 24;
struct Shared {
  std::atomic<uint64_t> next, done, transitions, nstates, nontrivial, table_full;
  std::atomic<int> stop;
  std::atomic<int> nknown;
  std::atomic<uint64_t> known_hits;
  char known[32][160];
  std::atomic<int> nsamples;
  char samp[80][400];
  WorkerSlot w[64];
  std::atomic<uint64_t> table[TABLE];
};
inline Shared*& sh() { static Shared* s = nullptr; return s; }
inline std::set<std::string>& known_keys() { static std::set<std::string> s; return s; }

// record a distinct state (by hash); counts each once
inline void state(uint64_t h) {
  if (!sh()) return;
  h |= 1;
  size_t i = (h * 0x9E3779B97F4A7C15ull) >> 40;
  for (int k = 0; k < 64; k++, i = (i + 1) & (TABLE - 1)) {
    uint64_t v = sh()->table[i].load(std::memory_order_relaxed);
    if (v == h) return;
    if (!v) { if (sh()->table[i].compare_exchange_strong(v, h)) { sh()->nstates++; return; } if (v == h) return; }
  }
  sh()->table_full++;
}
// one case of each family (at the golden section) is written out for the evidence file: SAMPLE(text) where the case is decoded
inline const char*& sampling() { static const char* p = nullptr; return p; }
inline uint64_t& sampling_index() { static uint64_t i = 0; return i; }
inline void sample(const std::string& t) {
  if (!sampling()) return;
#ifdef SEQX_MSAN
  sampling() = nullptr; return;
#endif
  std::string s = str(sampling(), " case ", sampling_index(), ": ", t);
  sampling() = nullptr;
  int q = sh()->nsamples++;
  if (q < 80) strncpy(sh()->samp[q], s.c_str(), 399);
}
#define SAMPLE(text) do { if (seqx::sampling()) seqx::sample(text); } while (0)
inline void step(uint64_t n = 1) { if (sh()) sh()->transitions += n; }
inline void nontrivial(uint64_t n = 1) { if (sh()) sh()->nontrivial += n; }
inline uint64_t hash_d(uint64_t h, double v) { uint64_t u; if (v == 0) v = 0; memcpy(&u, &v, 8); return mix(h, u); }

inline std::string esc(const std::string& s) {
  std::string o;
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; }
  return o;
}
inline bool thorough(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == "--tier") return std::string(argv[i + 1]) == "thorough";
  return false;
}
inline std::string key_of(const std::string& m) { return m.size() > 1 && m[0] == '@' ? m.substr(1, m.find(' ') - 1) : std::string(); }

inline void quiet() { int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1); dup2(dn, 2); }

// worker process: runs chunks of cases until the family is exhausted
inline void work(const Family& f, WorkerSlot& ws, uint64_t chunk) {
  quiet();
  for (;;) {
    if (sh()->stop) _exit(0);
    uint64_t b = sh()->next.fetch_add(chunk);
    if (b >= f.n) _exit(0);
    for (uint64_t i = b; i < std::min(b + chunk, f.n); i++) {
      ws.since = now(); ws.cur = i; ws.state = 1;
      if (i == (uint64_t)(f.n * 0.6180339887)) { sampling() = f.name.c_str(); sampling_index() = i; }
      std::string m = f.run(i);
      if (sampling()) sample(m.empty() ? "held" : m);
      if (!m.empty()) {
        std::string k = key_of(m);
        if (!k.empty() && known_keys().count(k)) {
          sh()->known_hits++;
          bool have = false;
          int n = sh()->nknown;
          for (int q = 0; q < n; q++) if (k == sh()->known[q]) have = true;
          if (!have && n < 31) { int q = sh()->nknown++; strncpy(sh()->known[q], k.c_str(), 159); }
        } else {
          strncpy(ws.msg, m.c_str(), sizeof(ws.msg) - 1);
          ws.state = 2;
          sh()->stop = 1;
          _exit(1);
        }
      }
      sh()->done++;
      ws.state = 0;
    }
  }
}

// runs one case in a fresh process; returns message ("" = held)
inline std::string run_single(const Family& f, uint64_t i, int timeout) {
  WorkerSlot& ws = sh()->w[63];
  ws.state = 1; ws.msg[0] = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    quiet();
    alarm(timeout);
    std::string m = f.run(i);
    if (!m.empty()) { strncpy(ws.msg, m.c_str(), sizeof(ws.msg) - 1); ws.state = 2; _exit(1); }
    ws.state = 0;
    _exit(0);
  }
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGALRM) return str("HANG: case did not terminate within ", timeout, " s");
    return str("CRASH: signal ", WTERMSIG(st), " (", strsignal(WTERMSIG(st)), ")");
  }
  if (ws.state == 2) return ws.msg;
  if (WEXITSTATUS(st) != 0) return str("CRASH: process exited with status ", WEXITSTATUS(st), " (sanitizer report or abort)");
  return "";
}

inline void put(const std::string& path, const std::string& text) { 
#ifdef SEQX_MSAN
  __msan_unpoison(path.data(), path.size() + 1); __msan_unpoison(text.data(), text.size());
#endif
  if (FILE* f = fopen(path.c_str(), "w")) { fwrite(text.data(), 1, text.size(), f); fclose(f); } }

struct Stat { std::string name; uint64_t n, done; double wall; bool complete; };

#ifdef SEQX_MSAN
__attribute__((no_sanitize("memory")))
#endif
inline int main(const char* property, int argc, char** argv) {
  std::string only, replay, json, out = ".", known;
  double time_total = 1e9; int jobs = 8;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--only") only = nx(); else if (a == "--replay") replay = nx(); else if (a == "--json") json = nx();
    else if (a == "--out") out = nx(); else if (a == "--known") known = nx(); else if (a == "--time") time_total = atof(nx().c_str());
    else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--tier") nx();
    else if (a == "--list") { for (auto& f : families()) printf("%s %llu\n", f.name.c_str(), (unsigned long long)f.n); return 0; }
  }
  for (size_t b = 0; b < known.size();) { size_t e = std::min(known.find(',', b), known.size()); if (e > b) known_keys().insert(known.substr(b, e - b)); b = e + 1; }
  sh() = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (!replay.empty()) {
    char b1[256] = {}, b2[1024] = {}; unsigned long long ix = 0;
    if (FILE* f = fopen(replay.c_str(), "r")) { if (fscanf(f, "%255s %1023s %llu", b1, b2, &ix) != 3) b2[0] = 0; fclose(f); }
    std::string name(b2); uint64_t idx = ix;
    for (auto& fam : families()) if (fam.name == name) {
      std::string m = run_single(fam, idx, 300);
      printf("replay of %s case %llu: %s\n", name.c_str(), (unsigned long long)idx, m.empty() ? "property held" : m.c_str());
      if (!m.empty() && !known_keys().count(key_of(m))) { printf("VIOLATION property=%s replay=%s\n", property, replay.c_str()); return 1; }
      return 0;
    }
    printf("no such family\n");
    return 3;
  }
  std::vector<Stat> stats;
  int ret = 0;
  std::string vio, vmsg;
  double t_begin = now();
  for (auto& f : families()) {
    if (ret) break;
    if (!only.empty() && f.name.find(only) == std::string::npos) continue;
    double t0 = now();
    sh()->next = 0; sh()->done = 0; sh()->stop = 0;
    uint64_t chunk = std::max<uint64_t>(1, std::min<uint64_t>(256, f.n / (uint64_t)(jobs * 16) + 1));
    int nj = (int)std::min<uint64_t>(jobs, std::max<uint64_t>(1, f.n));
    std::vector<pid_t> ps(nj);
    fflush(stdout);
    for (int j = 0; j < nj; j++) {
      sh()->w[j].state = 0; sh()->w[j].msg[0] = 0; sh()->w[j].since = now();
      ps[j] = fork();
      if (ps[j] == 0) work(f, sh()->w[j], chunk);
    }
    int left = nj; bool timed_out = false;
    int bad = -1; std::string bmsg; uint64_t bidx = 0;
    while (left > 0) {
      int st = 0;
      pid_t p = waitpid(-1, &st, WNOHANG);
      if (p == 0) {
        struct timespec t{0, 2000000}; nanosleep(&t, nullptr);
        if (now() - t_begin > time_total && !sh()->stop) { sh()->stop = 1; timed_out = true; }
        for (int j = 0; j < nj; j++)
          if (ps[j] > 0 && sh()->w[j].state == 1 && now() - sh()->w[j].since > f.timeout) kill(ps[j], SIGALRM);
        continue;
      }
      if (p < 0) { if (errno == EINTR) continue; break; }
      for (int j = 0; j < nj; j++) if (ps[j] == p) {
        left--; ps[j] = -1;
        auto& ws = sh()->w[j];
        if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
          if (bad < 0) {
            bad = j; bidx = ws.cur;
            if (ws.state == 2) bmsg = ws.msg;
            else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) bmsg = str("HANG: case did not terminate within ", f.timeout, " s");
            else if (WIFSIGNALED(st)) bmsg = str("CRASH: signal ", WTERMSIG(st), " (", strsignal(WTERMSIG(st)), ")");
            else bmsg = str("CRASH: process exited with status ", WEXITSTATUS(st), " (sanitizer report or abort)");
          }
          sh()->stop = 1;
        }
      }
    }
    bool complete = !timed_out && bad < 0 && sh()->done == f.n;
    stats.push_back({f.name, f.n, sh()->done, now() - t0, complete});
    printf("%-48s cases=%llu done=%llu %s %.1fs\n", f.name.c_str(), (unsigned long long)f.n, (unsigned long long)sh()->done.load(), complete ? "complete" : "INCOMPLETE", now() - t0);
    fflush(stdout);
    if (bad >= 0) {
      int again = 0; std::string m2;
      for (int k = 0; k < 4 && again < 2; k++) { m2 = run_single(f, bidx, f.timeout * 3); if (!m2.empty()) again++; }
      printf("%s case %llu: %s (replayed %d/2)\n", f.name.c_str(), (unsigned long long)bidx, bmsg.c_str(), again);
      // a wrong value was observed on the real code: that stands even if it needs the memory left behind by earlier cases (or, for a sanitizer report, a thread timing)
      bool value = bmsg.compare(0, 4, "HANG") && bmsg.compare(0, 15, "CRASH: signal 9") && (bmsg.compare(0, 5, "CRASH") || bmsg.find("sanitizer report") != std::string::npos);
      if (again < 2 && !value) { printf("ERROR: violation did not replay\n"); ret = 3; }
      else {
        ret = 1;
        vio = std::string(property) + "-" + f.name + ".replay";
        for (auto& c : vio) if (c == ' ' || c == '/') c = '_';
        vio = out + "/" + vio;
        vmsg = bmsg;
        put(vio, str(property, " ", f.name, " ", bidx, "\n# ", bmsg, "\n"));
      }
    }
  }
  if (!json.empty()) {
    std::string o = str("{\"kind\":\"seq\",\"ret\":", ret, ",\"violation\":\"", esc(vio), "\",\"message\":\"", esc(vmsg), "\",\"states\":", sh()->nstates.load(), ",\"transitions\":", sh()->transitions.load(), ",\"nontrivial\":", sh()->nontrivial.load(), ",\"known\":[");
    for (int q = 0; q < sh()->nknown; q++) o += str(q ? "," : "", "\"", esc(sh()->known[q]), "\"");
    o += "],\"samples\":[";
    for (int q = 0; q < std::min(80, (int)sh()->nsamples); q++) o += str(q ? "," : "", "\"", esc(sh()->samp[q]), "\"");
    o += str("],\"known_hits\":", sh()->known_hits.load(), ",\"families\":[");
    for (size_t i = 0; i < stats.size(); i++) o += str(i ? "," : "", "{\"name\":\"", esc(stats[i].name), "\",\"cases\":", stats[i].n, ",\"done\":", stats[i].done, ",\"complete\":", stats[i].complete ? "true" : "false", ",\"wall_s\":", stats[i].wall, "}");
    put(json, o + "]}\n");
  }
  if (ret == 1) printf("VIOLATION property=%s replay=%s\n", property, vio.c_str());
  return ret;
}
}  // namespace seqx
