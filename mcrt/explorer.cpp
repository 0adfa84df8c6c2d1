// Schedule explorer: exhaustive enumeration of the schedule tree up to a deviation-cost bound, one forked process per
// execution, several worker processes sharing the frontier.  Lowest cost first, LIFO within a cost level.
#include "internal.hpp"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <signal.h>
#include <sstream>
#include <string>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <poll.h>

namespace mc {
static std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
void add(Scenario s) { scenarios().push_back(std::move(s)); }
bool thorough(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == "--tier") return std::string(argv[i + 1]) == "thorough";
  return false;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

constexpr int MAXCOST = 16;
constexpr size_t STACK_BYTES = size_t(4) << 30;
struct EntryHdr { uint32_t ndev; uint32_t cost; uint64_t hash; uint32_t prefix_len; uint32_t size; };
struct Shared {
  volatile int lock;
  volatile int busy[MAXCOST + 1];
  volatile size_t top[MAXCOST + 1];
  volatile long execs, exec_limit;
  volatile long states, transitions, accesses, maxlen;
  volatile int stop, capped;
  volatile long dev_execs;
  // violation
  volatile int found;  // 2 violation, 3 error
  uint32_t v_ndev; uint32_t v_cost; Dev v_dev[MAXDEV]; char v_msg[4096];
  volatile long n_out;
  uint64_t out[1 << 20];
};
static Shared* sh;
static char* stk[MAXCOST + 1];

static void lock() { while (__sync_lock_test_and_set(&sh->lock, 1)) { struct timespec t{0, 20000}; nanosleep(&t, nullptr); } }
static void unlock() { __sync_lock_release(&sh->lock); }

static bool push(const Slot* s, uint32_t nprev, uint32_t pos, uint8_t choice, uint32_t cost, uint64_t hash) {
  // deviations of the parent up to pos plus the new one (zero entries of the trace are implicit)
  char* base = stk[cost];
  size_t t = sh->top[cost];
  size_t need = sizeof(EntryHdr) * 2 + sizeof(Dev) * (nprev + 1);
  if (t + need > STACK_BYTES) { sh->capped = 1; return false; }
  Dev* d = (Dev*)(base + t);
  memcpy(d, s->dev, sizeof(Dev) * nprev);
  d[nprev] = Dev{pos, choice, s->tr[pos].n, s->tr[pos].kind, 0};
  EntryHdr h{nprev + 1, cost, hash, pos + 1, (uint32_t)(sizeof(Dev) * (nprev + 1))};
  memcpy(base + t + h.size, &h, sizeof h);
  sh->top[cost] = t + h.size + sizeof h;
  return true;
}
static bool pop(Slot* s, uint32_t& cost, int bound) {
  for (int c = 0; c <= bound; c++) {
    if (!sh->top[c]) continue;
    size_t t = sh->top[c] - sizeof(EntryHdr);
    EntryHdr h;
    memcpy(&h, stk[c] + t, sizeof h);
    s->ndev = h.ndev; s->prefix_len = h.prefix_len; s->want_hash = h.hash;
    memcpy(s->dev, stk[c] + t - h.size, h.size);
    sh->top[c] = t - h.size;
    cost = c;
    return true;
  }
  return false;
}

static void reset_slot(Slot* s) {
  s->status = 0; s->len = 0; s->outcome = 0x1234567; s->nsteps = 0; s->accesses = 0; s->msg[0] = 0; s->next_dev = 0; s->hash = 0;
}

// runs one execution in a forked child; returns status (1 ok, 2 violation, 3 error) with s->msg
static int run_one(const Scenario& sc, Slot* s, int timeout) {
  reset_slot(s);
  pid_t p = fork();
  if (p < 0) { snprintf(s->msg, sizeof s->msg, "fork failed"); return 3; }
  if (p == 0) {
    signal(SIGALRM, SIG_DFL);
    alarm(timeout);
    slot = s;
    run_controlled(sc);
    std::string m = sc.check ? sc.check() : "";
    die(m.empty() ? 1 : 2, m);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (sg == SIGKILL) { snprintf(s->msg, sizeof s->msg, "execution was killed (out of memory?)"); return 3; }
    if (sg == SIGALRM) { snprintf(s->msg, sizeof s->msg, "HANG: no termination within %d s", timeout); return 4; }
    snprintf(s->msg, sizeof s->msg, "CRASH: the execution died with signal %d (%s)", sg, strsignal(sg));
    return 2;
  }
  if (s->status == 0) { snprintf(s->msg, sizeof s->msg, "CRASH: the execution exited unexpectedly (status %d)", WEXITSTATUS(st)); return 2; }
  return s->status;
}

static void worker(const Scenario& sc, Slot* s, double deadline) {
  int dn = open("/dev/null", O_RDWR);
  dup2(dn, 0); dup2(dn, 1); dup2(dn, 2);
  const int bound = sc.cfg.bound;
  for (;;) {
    uint32_t cost = 0;
    lock();
    if (sh->stop) { unlock(); return; }
    if (now() > deadline || (sc.cfg.max_exec && sh->execs >= sc.cfg.max_exec)) {
      bool left = false;
      for (int c = 0; c <= bound; c++) if (sh->top[c]) left = true;
      if (left) { sh->capped = 1; sh->stop = 1; unlock(); return; }
    }
    if (!pop(s, cost, bound)) {
      int b = 0;
      for (int c = 0; c <= bound; c++) b += sh->busy[c];
      unlock();
      if (!b) return;
      struct timespec t{0, 200000}; nanosleep(&t, nullptr);
      continue;
    }
    sh->busy[cost]++;
    sh->execs++;
    unlock();
    uint32_t prefix = s->prefix_len;
    int r = run_one(sc, s, 60);
    if (r == 4) { r = run_one(sc, s, 240); if (r == 4) r = 2; }
    lock();
    sh->busy[cost]--;
    sh->states += (long)s->len - (long)prefix + 1;
    sh->transitions += (long)s->nsteps;
    sh->accesses += (long)s->accesses;
    if ((long)s->len > sh->maxlen) sh->maxlen = s->len;
    if (r != 1) {
      if (!sh->found) {
        sh->found = r;
        sh->v_ndev = s->ndev; sh->v_cost = cost;
        memcpy(sh->v_dev, s->dev, sizeof(Dev) * s->ndev);
        memcpy(sh->v_msg, s->msg, sizeof s->msg);
      }
      sh->stop = 1;
      unlock();
      return;
    }
    uint64_t o = s->outcome | 1;
    for (size_t i = (o * 0x9E3779B97F4A7C15ull) >> 44;; i = (i + 1) & ((1 << 20) - 1)) {
      if (sh->out[i] == o) break;
      if (!sh->out[i]) { if (sh->n_out < (1 << 19)) { sh->out[i] = o; sh->n_out++; } break; }
    }
    // alternatives beyond the replayed prefix (all default choices there)
    uint64_t h = 0;
    for (uint32_t i = 0; i < s->len; i++) {
      TracePoint tp = s->tr[i];
      if (i >= prefix)
        for (int c = 1; c < tp.n; c++)
          if ((int)(cost + tp.cost) <= bound && s->ndev + 1 < MAXDEV) {
            if (!push(s, s->ndev, i, c, cost + tp.cost, mix(h, (uint64_t)tp.n | (uint64_t)c << 8 | (uint64_t)tp.kind << 16))) break;
          }
      h = mix(h, (uint64_t)tp.n | (uint64_t)tp.chosen << 8 | (uint64_t)tp.kind << 16);
    }
    unlock();
  }
}

struct Stats { std::string name; long execs, states, trans, acc, maxlen, outcomes; int bound, done_bound; bool capped; double wall; };

static std::string esc(const std::string& s) {
  std::string o;
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; }
  return o;
}

int main(const char* property, int argc, char** argv) {
  std::string only, replay, json, vdir = ".";
  double time_total = 600; int jobs = 8; bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--only") only = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--json") json = nx();
    else if (a == "--time") time_total = atof(nx().c_str());
    else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--out") vdir = nx();
    else if (a == "--tier") nx();
    else if (a == "--list") list = true;
  }
  auto& all = scenarios();
  if (list) { for (auto& s : all) printf("%s\n", s.name.c_str()); return 0; }
  auto map_shared = [](size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return p;
  };
  std::vector<Slot*> slots;
  for (int i = 0; i < jobs; i++) slots.push_back((Slot*)map_shared(sizeof(Slot)));

  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string prop, name; uint32_t n = 0;
    f >> prop >> name >> n;
    Slot* s = slots[0];
    s->ndev = n;
    for (uint32_t i = 0; i < n && i < (uint32_t)MAXDEV; i++) { uint32_t p, c, nn, k; f >> p >> c >> nn >> k; s->dev[i] = Dev{p, (uint8_t)c, (uint8_t)nn, (uint8_t)k, 0}; }
    s->prefix_len = 0; s->want_hash = 0;
    for (auto& sc : all) if (sc.name == name) {
      if (sc.setup) sc.setup();
      int r = run_one(sc, s, 300);
      printf("replay of %s: %s %s\n", name.c_str(), r == 1 ? "property held" : r == 3 ? "error" : "VIOLATED", s->msg);
      if (r == 2 || r == 4) { printf("VIOLATION property=%s replay=%s\n", property, replay.c_str()); return 1; }
      return r == 1 ? 0 : 3;
    }
    printf("no such scenario %s\n", name.c_str());
    return 3;
  }

  std::vector<Stats> stats;
  int ret = 0;
  std::string vio, viomsg;
  double t_begin = now();
  std::vector<Scenario*> sel;
  for (auto& s : all) if (only.empty() || s.name.find(only) != std::string::npos) sel.push_back(&s);
  sh = (Shared*)map_shared(sizeof(Shared));
  for (int c = 0; c <= MAXCOST; c++) stk[c] = nullptr;
  for (size_t si = 0; si < sel.size() && !ret; si++) {
    Scenario& sc = *sel[si];
    double t0 = now();
    double left = time_total - (t0 - t_begin);
    double deadline = t0 + std::max(2.0, std::min(left * 0.5, left / (double)(sel.size() - si) * 6));
    for (int c = 0; c <= sc.cfg.bound; c++) { if (stk[c]) munmap(stk[c], STACK_BYTES); stk[c] = (char*)map_shared(STACK_BYTES); }
    memset((void*)sh, 0, sizeof(Shared));
    if (sc.setup) sc.setup();
    // root
    { EntryHdr h{0, 0, 0, 0, 0}; memcpy(stk[0], &h, sizeof h); sh->top[0] = sizeof h; }
    std::vector<pid_t> ps;
    for (int j = 0; j < jobs; j++) {
      fflush(stdout);
      pid_t p = fork();
      if (p == 0) { worker(sc, slots[j], deadline); _exit(0); }
      ps.push_back(p);
    }
    for (pid_t p : ps) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) && !sh->found) { sh->found = 3; snprintf(sh->v_msg, sizeof sh->v_msg, "explorer worker died"); } }
    Stats st{sc.name, sh->execs, sh->states, sh->transitions, sh->accesses, sh->maxlen, sh->n_out, sc.cfg.bound, -1, sh->capped != 0, now() - t0};
    for (int c = 0; c <= sc.cfg.bound; c++) { if (sh->top[c] || sh->found) break; st.done_bound = c; }
    if (!sh->capped && !sh->found) st.done_bound = sc.cfg.bound;
    stats.push_back(st);
    printf("%-52s exec=%ld points=%ld steps=%ld accesses=%ld maxlen=%ld outcomes=%ld bound=%d done=%d%s %.1fs\n", sc.name.c_str(), st.execs, st.states, st.trans, st.acc, st.maxlen, st.outcomes, st.bound, st.done_bound, st.capped ? " CAPPED" : "", st.wall);
    fflush(stdout);
    if (sh->found == 3) { printf("ERROR in %s: %s\n", sc.name.c_str(), sh->v_msg); ret = 3; }
    if (sh->found == 2) {
      std::string path = std::string(property) + "-" + sc.name + ".replay";
      for (auto& c : path) if (c == ' ' || c == '/') c = '_';
      path = vdir + "/" + path;
      std::ofstream f(path);
      f << property << " " << sc.name << " " << sh->v_ndev << "\n";
      for (uint32_t i = 0; i < sh->v_ndev; i++) f << sh->v_dev[i].pos << " " << (int)sh->v_dev[i].choice << " " << (int)sh->v_dev[i].n << " " << (int)sh->v_dev[i].kind << "\n";
      f << "# cost " << sh->v_cost << ": " << sh->v_msg << "\n";
      f.close();
      int again = 0;
      for (int k = 0; k < 4 && again < 2; k++) {
        Slot* s = slots[0];
        s->ndev = sh->v_ndev; memcpy(s->dev, sh->v_dev, sizeof(Dev) * s->ndev); s->prefix_len = 0; s->want_hash = 0;
        int so = dup(1), se = dup(2), dn = open("/dev/null", O_RDWR);
        fflush(stdout);
        dup2(dn, 1); dup2(dn, 2);
        int r = run_one(sc, s, 240);
        fflush(stdout);
        dup2(so, 1); dup2(se, 2); close(so); close(se); close(dn);
        if (r == 2 || r == 4) again++;
      }
      printf("%s: %s (deviation cost %u, %u deviations, replayed %d/2)\n", sc.name.c_str(), sh->v_msg, sh->v_cost, sh->v_ndev, again);
      if (again < 2) { printf("ERROR: violation did not replay\n"); ret = 3; }
      else { vio = path; viomsg = sh->v_msg; ret = 1; }
    }
  }
  if (!json.empty()) {
    std::ofstream f(json);
    f << "{\"kind\":\"mc\",\"ret\":" << ret << ",\"violation\":\"" << esc(vio) << "\",\"message\":\"" << esc(viomsg) << "\",\"scenarios\":[";
    for (size_t i = 0; i < stats.size(); i++) {
      auto& s = stats[i];
      f << (i ? "," : "") << "{\"name\":\"" << esc(s.name) << "\",\"executions\":" << s.execs << ",\"states\":" << s.states << ",\"transitions\":" << s.trans << ",\"accesses\":" << s.acc << ",\"max_choice_points\":" << s.maxlen
        << ",\"outcomes\":" << s.outcomes << ",\"bound\":" << s.bound << ",\"completed_bound\":" << s.done_bound << ",\"capped\":" << (s.capped ? "true" : "false") << ",\"wall_s\":" << s.wall << "}";
    }
    f << "]}\n";
  }
  if (ret == 1) printf("VIOLATION property=%s replay=%s\n", property, vio.c_str());
  return ret;
}
}  // namespace mc
