// OpenMP runtime (libgomp ABI) under the controlled scheduler.
#include "internal.hpp"
#include <climits>
#include <cstdlib>
#include <deque>
#include <map>
#include <omp.h>
#include <algorithm>

namespace mc {
struct Task {
  Task* parent = nullptr;
  int pending_children = 0;   // not yet finished
  void (*fn)(void*) = nullptr;
  char* buf = nullptr; void* data = nullptr;
  VC start_vc, children_vc;   // children_vc: joined clocks of finished children
  struct Group* group = nullptr;
  Team* team = nullptr;
  bool implicit = false, final_ = false, running = false;
};
struct Group { Group* outer; int pending = 0; VC vc; };
struct WS {
  bool init = false;
  bool ull = false; long next = 0, end = 0, incr = 1, chunk = 1; bool guided = false; bool is_static = false;
  unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1;
  int sections = 0, next_section = 1;
  long seq = 0, turn = 0; std::map<long, bool> seq_done; VC ord_vc;  // ordered: chunk numbers handed out, the one whose turn it is
  std::map<int, long> my_seq;
};
struct Team {
  int n = 1; Team* outer = nullptr;
  std::vector<Thread*> members;
  int arrived = 0; uint64_t gen = 0; VC bar_vc, bar_out;
  std::deque<Task*> queue; int outstanding = 0; VC task_vc;
  std::map<int, WS> ws; std::map<int, bool> singles; void* copyprivate = nullptr; VC single_vc;
  int finished = 0;
  std::vector<Task> implicit;
  bool critical = false;
};
static int req_threads = 0;
static std::map<const void*, int>* crit_owner = nullptr;

void omp_reset() { req_threads = 0; delete crit_owner; crit_owner = new std::map<const void*, int>(); }



static void run_task(Task* t) {
  // in_rt == 0 on entry of user code
  Task* saved = cur->task;
  {
    RT rt;
    hb_acquire(t->start_vc);
    t->running = true;
    cur->task = t;
  }
  t->fn(t->data);
  {
    RT rt;
    // implicit completion: parent learns about it; children of t may outlive it
    if (t->parent) { t->parent->pending_children--; t->parent->children_vc.join(cur->vc); }
    if (t->group) { t->group->pending--; t->group->vc.join(cur->vc); }
    if (t->team) { t->team->outstanding--; t->team->task_vc.join(cur->vc); }
    tick();
    cur->task = saved;
    free(t->buf);
    // t itself is intentionally leaked (child pointers may still refer to it; the execution is short-lived)
  }
}

static bool child_ready(Team* tm, Task* p) { for (auto* t : tm->queue) if (t->parent == p) return true; return false; }
static bool group_ready(Team* tm, Group* g) { for (auto* t : tm->queue) if (t->group == g) return true; return false; }

template <typename Pred>
static Task* take(Team* tm, Pred ok) {
  // libgomp prefers the most recently queued child / oldest sibling depending on the queue; both orders are legal.
  std::vector<size_t> idx;
  for (size_t i = 0; i < tm->queue.size(); i++) if (ok(tm->queue[i])) idx.push_back(i);
  if (idx.empty()) return nullptr;
  int c = idx.size() > 1 ? choose(std::min<size_t>(idx.size(), 3), 1) : 0;
  size_t i = idx[c == 0 ? 0 : idx.size() - c];
  Task* t = tm->queue[i];
  tm->queue.erase(tm->queue.begin() + i);
  return t;
}

static void barrier(Team* tm) {
  if (!active) return;
  Task* me = nullptr;
  {
    RT rt;
    sched_point(K_SYNC);
    me = cur->task;
    tm->bar_vc.join(cur->vc);
    tick();
    tm->arrived++;
  }
  (void)me;
  uint64_t g;
  { RT rt; g = tm->gen; }
  for (;;) {
    Task* t = nullptr;
    {
      RT rt;
      auto complete = [tm] { return tm->arrived == tm->n && tm->outstanding == 0; };
      if (tm->gen == g && complete()) {
        tm->gen++;
        tm->arrived = 0;
        tm->bar_out = tm->bar_vc;
        tm->bar_out.join(tm->task_vc);
        tm->bar_vc = VC();
      }
      if (tm->gen != g) { hb_acquire(tm->bar_out); return; }
      if (tm->queue.empty()) block_until("barrier", [tm, g, complete] { return tm->gen != g || !tm->queue.empty() || complete(); });
      if (tm->gen != g || complete()) continue;
      t = take(tm, [](Task*) { return true; });
    }
    if (t) { run_task(t); sched_point(K_DISPATCH); }
  }
}

static void member_run(Team* tm, int num, void (*fn)(void*), void* data, void* ws) {
  Thread* me = cur;
  me->team = tm; me->tnum = num; me->ws = ws ? 1 : 0; me->single = 0; me->level++;
  me->cur_ws = ws;
  me->task = &tm->implicit[num];
  fn(data);
  barrier(tm);
}

static void parallel(void (*fn)(void*), void* data, unsigned num_threads, WS* ws0) {
  if (!active || !cur) {
    // uncontrolled: sequential team of one
    static thread_local Thread dummy;
    Thread* saved = cur;
    (void)saved;
    extern thread_local WS* seq_ws;
    WS* old = seq_ws;
    WS w; if (ws0) w = *ws0;
    seq_ws = &w; if (!ws0) w.init = false;
    fn(data);
    seq_ws = old;
    return;
  }
  Team* tm; std::vector<Thread*> ws;
  struct Saved { Team* team; int tnum, level, ws, single; Task* task; void* cur_ws; } sv;
  {
    RT rt;
    int n = num_threads ? (int)num_threads : (req_threads ? req_threads : cfg.max_threads);
    if (cur->level >= 1) n = 1;  // max-active-levels = 1 (default)
    if (n > MAXT) n = MAXT;
    if (cfg.team_shrink && n > 1) { int c = choose(n, 1); n -= c; }
    tm = new Team();
    tm->n = n;
    tm->outer = cur->team;
    tm->implicit.resize(n);
    for (auto& t : tm->implicit) { t.implicit = true; t.team = nullptr; }
    if (ws0) tm->ws[1] = *ws0;
    sv = Saved{cur->team, cur->tnum, cur->level, cur->ws, cur->single, cur->task, cur->cur_ws};
    for (int i = 1; i < n; i++) {
      Thread* w = get_worker();
      w->team = tm;  // reserves it
      ws.push_back(w);
    }
    void* wsp = ws0 ? &tm->ws[1] : nullptr;
    for (int i = 1; i < n; i++) {
      Thread* w = ws[i - 1];
      w->level = sv.level;
      run_job(w, [tm, i, fn, data, wsp] {
        Thread* me = cur;
        member_run(tm, i, fn, data, wsp);
        RT rt;
        me->team = nullptr; me->task = nullptr; me->level = 0; me->cur_ws = nullptr;
        tm->finished++;
      });
    }
    if (n > 1) sched_point(K_DISPATCH);
  }
  member_run(tm, 0, fn, data, ws0 ? (void*)&tm->ws[1] : nullptr);
  RT rt;
  // the pool threads must be docked before the next team starts (no happens-before edge is added)
  if (tm->n > 1) block_until("team docking", [tm] { return tm->finished == tm->n - 1; });
  cur->team = sv.team; cur->tnum = sv.tnum; cur->level = sv.level; cur->ws = sv.ws; cur->single = sv.single; cur->task = sv.task; cur->cur_ws = sv.cur_ws;
  // tm leaked on purpose: workers may still be leaving the barrier
}

// ---------------------------------------------------------------- worksharing loops
thread_local WS* seq_ws = nullptr;
static thread_local WS seq_dummy;

static WS* ws_begin(const WS& def) {
  if (!active || !cur || !cur->team) {
    seq_dummy = def; seq_dummy.init = true;
    seq_ws = &seq_dummy;
    return seq_ws;
  }
  int k = ++cur->ws;
  auto& w = cur->team->ws[k];
  if (!w.init) { w = def; w.init = true; }
  cur->cur_ws = &w;
  return &w;
}
static void chunk_done(WS* w) {  // the thread leaves its chunk: pass the turn on
  if (!active || !cur || !cur->team) return;
  auto it = w->my_seq.find(cur->tnum);
  if (it == w->my_seq.end()) return;
  w->seq_done[it->second] = true;
  w->ord_vc.join(cur->vc);
  tick();
  while (w->seq_done.count(w->turn)) w->turn++;
  w->my_seq.erase(it);
}
static void chunk_taken(WS* w) { if (active && cur && cur->team) w->my_seq[cur->tnum] = w->seq++; }
static WS* ws_cur() { return (!active || !cur || !cur->team) ? seq_ws : (WS*)cur->cur_ws; }

static bool loop_next(long* s, long* e) {
  if (active && cur && cur->team && cur->team->n > 1) sched_point(K_DISPATCH);
  RT rt;
  WS* w = ws_cur();
  chunk_done(w);
  int n = (active && cur && cur->team) ? cur->team->n : 1;
  if (w->next == w->end || (w->incr > 0 ? w->next > w->end : w->next < w->end)) return false;
  long chunk;
  if (w->guided) {
    unsigned long left = (w->end - w->next) / w->incr;
    if ((w->end - w->next) % w->incr) left++;
    unsigned long q = (left + n - 1) / n;
    if (q < (unsigned long)w->chunk) q = w->chunk;
    if (q > left) q = left;
    chunk = (long)q;
  } else {
    chunk = w->chunk < 1 ? 1 : w->chunk;
  }
  chunk_taken(w);
  *s = w->next;
  long stop = w->next + chunk * w->incr;
  if (w->incr > 0 ? stop > w->end : stop < w->end) stop = w->end;
  *e = stop;
  w->next = stop;
  return true;
}
static bool ull_next(unsigned long long* s, unsigned long long* e) {
  if (active && cur && cur->team && cur->team->n > 1) sched_point(K_DISPATCH);
  RT rt;
  WS* w = ws_cur();
  chunk_done(w);
  int n = (active && cur && cur->team) ? cur->team->n : 1;
  if (w->unext >= w->uend) return false;
  unsigned long long left = (w->uend - w->unext + w->uincr - 1) / w->uincr;
  unsigned long long q = w->guided ? std::max<unsigned long long>((left + n - 1) / n, w->uchunk) : std::max<unsigned long long>(1, w->uchunk);
  if (q > left) q = left;
  chunk_taken(w);
  *s = w->unext;
  unsigned long long stop = w->unext + q * w->uincr;
  if (stop > w->uend) stop = w->uend;
  *e = stop;
  w->unext = stop;
  return true;
}
static WS mk(long start, long end, long incr, long chunk, bool guided) {
  WS w; w.init = true; w.next = start; w.end = end; w.incr = incr; w.chunk = chunk; w.guided = guided;
  if (incr > 0 ? start > end : start < end) w.end = start;
  if (chunk == 0) { // static without chunk size: one block per thread
    long n = cfg.max_threads < 1 ? 1 : cfg.max_threads;
    if (active && cur && cur->team) n = cur->team->n;
    long tot = (end - start) / incr; w.chunk = tot / n + 1;
  }
  return w;
}
static WS mku(unsigned long long start, unsigned long long end, unsigned long long incr, unsigned long long chunk, bool guided) {
  WS w; w.init = true; w.ull = true; w.unext = start; w.uend = std::max(start, end); w.uincr = incr; w.uchunk = chunk; w.guided = guided; return w;
}
static std::map<const void*, VC> crit_vc;
static void crit_lock(const void* key, const char* why) {
  if (!active || !cur) return;
  RT rt;
  sched_point(K_SYNC);
  auto* co = crit_owner;
  block_until(why, [co, key] { auto it = co->find(key); return it == co->end() || it->second < 0; });
  (*co)[key] = cur->id;
  hb_acquire(sync_var(key));
}
static bool crit_try(const void* key) {
  if (!active || !cur) return true;
  RT rt;
  sched_point(K_SYNC);
  auto it = crit_owner->find(key);
  if (it != crit_owner->end() && it->second >= 0) return false;
  (*crit_owner)[key] = cur->id;
  hb_acquire(sync_var(key));
  return true;
}
static void crit_unlock(const void* key) {
  if (!active || !cur) return;
  {
    RT rt;
    (*crit_owner)[key] = -1;
    hb_release(sync_var(key));
  }
  sched_point(K_SYNC);
}
static char k_crit, k_atomic;
}  // namespace mc

using namespace mc;
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n, nullptr); }
unsigned GOMP_parallel_reductions(void (*)(void*), void*, unsigned, unsigned) { die(3, "unsupported OpenMP construct: parallel with task reduction"); }
void GOMP_barrier() { if (active && cur && cur->team) barrier(cur->team); }
bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }

#define LOOP(NAME, G)                                                                                     \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* is, long* ie) {                     \
    { RT rt; ws_begin(mk(s, e, i, c, G)); }                                                               \
    return loop_next(is, ie);                                                                             \
  }                                                                                                       \
  bool GOMP_loop_##NAME##_next(long* is, long* ie) { return loop_next(is, ie); }                          \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { \
    WS w; { RT rt; w = mk(s, e, i, c, G); }                                                               \
    parallel(fn, d, n, &w);                                                                               \
  }                                                                                                       \
  bool GOMP_loop_ull_##NAME##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) { \
    { RT rt; ws_begin(mku(s, e, i, c, G)); }                                                              \
    return ull_next(is, ie);                                                                              \
  }                                                                                                       \
  bool GOMP_loop_ull_##NAME##_next(unsigned long long* is, unsigned long long* ie) { return ull_next(is, ie); }
LOOP(static, false)
LOOP(dynamic, false)
LOOP(guided, true)
LOOP(nonmonotonic_dynamic, false)
LOOP(nonmonotonic_guided, true)
#define LOOPR(NAME)                                                                                       \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long* is, long* ie) {                             \
    { RT rt; ws_begin(mk(s, e, i, 1, false)); }                                                           \
    return loop_next(is, ie);                                                                             \
  }                                                                                                       \
  bool GOMP_loop_##NAME##_next(long* is, long* ie) { return loop_next(is, ie); }                          \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { \
    WS w; { RT rt; w = mk(s, e, i, 1, false); }                                                           \
    parallel(fn, d, n, &w);                                                                               \
  }
#define LOOPRU(NAME)                                                                                      \
  bool GOMP_loop_ull_##NAME##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* is, unsigned long long* ie) { \
    { RT rt; ws_begin(mku(s, e, i, 1, false)); }                                                          \
    return ull_next(is, ie);                                                                              \
  }                                                                                                       \
  bool GOMP_loop_ull_##NAME##_next(unsigned long long* is, unsigned long long* ie) { return ull_next(is, ie); }
LOOPRU(runtime)
LOOPRU(nonmonotonic_runtime)
LOOPRU(maybe_nonmonotonic_runtime)
LOOPRU(ordered_runtime)
LOOP(ordered_static, false)
LOOP(ordered_dynamic, false)
LOOP(ordered_guided, true)
LOOPR(ordered_runtime)
bool GOMP_loop_start(long s, long e, long i, long sched, long c, long* is, long* ie, uintptr_t* red, void** mem) {
  if (red || mem) die(3, "unsupported OpenMP construct: loop with task reduction or conditional lastprivate");
  { RT rt; ws_begin(mk(s, e, i, c, (sched & 7) == 3)); }
  return is ? loop_next(is, ie) : true;
}
bool GOMP_loop_ordered_start(long s, long e, long i, long sched, long c, long* is, long* ie, uintptr_t* red, void** mem) { return GOMP_loop_start(s, e, i, sched, c, is, ie, red, mem); }
bool GOMP_loop_ull_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, long sched, unsigned long long c, unsigned long long* is, unsigned long long* ie, uintptr_t* red, void** mem) {
  if (red || mem) die(3, "unsupported OpenMP construct: loop with task reduction or conditional lastprivate");
  { RT rt; ws_begin(mku(s, e, i, c, (sched & 7) == 3)); }
  return is ? ull_next(is, ie) : true;
}
bool GOMP_loop_ull_ordered_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, long sched, unsigned long long c, unsigned long long* is, unsigned long long* ie, uintptr_t* red, void** mem) { return GOMP_loop_ull_start(up, s, e, i, sched, c, is, ie, red, mem); }
void GOMP_scope_start(uintptr_t* red) { if (red) die(3, "unsupported OpenMP construct: scope with task reduction"); }
void GOMP_teams_reg(void (*fn)(void*), void* d, unsigned, unsigned, unsigned) { fn(d); }
bool GOMP_cancel(int, bool) { return false; }            // OMP_CANCELLATION is off by default
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_sections_end_cancel() { GOMP_barrier(); return false; }
LOOPR(runtime)
LOOPR(nonmonotonic_runtime)
LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end_nowait() {}
void GOMP_loop_end() { GOMP_barrier(); }
bool GOMP_loop_end_cancel() { GOMP_barrier(); return false; }

bool GOMP_single_start() {
  if (!active || !cur || !cur->team) return true;
  RT rt;
  if (cur->team->n > 1) sched_point(K_DISPATCH);
  int k = ++cur->single;
  if (cur->team->singles[k]) return false;
  cur->team->singles[k] = true;
  return true;
}
void* GOMP_single_copy_start() {
  if (GOMP_single_start()) return nullptr;
  GOMP_barrier();
  return cur->team->copyprivate;
}
void GOMP_single_copy_end(void* d) { if (active && cur && cur->team) { cur->team->copyprivate = d; GOMP_barrier(); } }

unsigned GOMP_sections_next() {
  if (!active || !cur || !cur->team) { WS* w = seq_ws; return w->next_section <= w->sections ? w->next_section++ : 0; }
  if (cur->team->n > 1) sched_point(K_DISPATCH);
  RT rt;
  WS* w = (WS*)cur->cur_ws;
  return w->next_section <= w->sections ? w->next_section++ : 0;
}
unsigned GOMP_sections_start(unsigned c) { { RT rt; WS w; w.sections = c; ws_begin(w); } return GOMP_sections_next(); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned c, unsigned) { WS w; w.init = true; w.sections = c; parallel(fn, d, n, &w); }
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}

void GOMP_critical_start() { crit_lock(&k_crit, "critical"); }
void GOMP_critical_end() { crit_unlock(&k_crit); }
void GOMP_critical_name_start(void** p) { crit_lock(p, "critical(name)"); }
void GOMP_critical_name_end(void** p) { crit_unlock(p); }
void GOMP_atomic_start() { crit_lock(&k_atomic, "atomic"); }
void GOMP_atomic_end() { crit_unlock(&k_atomic); }
void GOMP_ordered_start() {
  if (!active || !cur || !cur->team) return;
  sched_point(K_SYNC);
  RT rt;
  WS* w = ws_cur();
  auto it = w ? w->my_seq.find(cur->tnum) : std::map<int, long>::iterator();
  if (!w || it == w->my_seq.end()) return;  // static schedule compiled inline never reaches this
  long q = it->second;
  block_until("ordered", [w, q] { return w->turn == q; });
  hb_acquire(w->ord_vc);
}
void GOMP_ordered_end() { if (active && cur && cur->team) { { RT rt; WS* w = ws_cur(); if (w) { w->ord_vc.join(cur->vc); tick(); } } sched_point(K_SYNC); } }

}  // extern "C"
static void make_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long sz, long al, bool if_clause, unsigned flags, const void* range = nullptr) {
  Team* tm = (active && cur) ? cur->team : nullptr;
  bool fin = (flags & 2) || (cur && cur->task && cur->task->final_);
  bool immediate = !tm || !if_clause || fin || (flags & 8);  // a task with dependences runs at once: one of the legal orders
  if (tm && !immediate && cfg.task_undeferred) { RT rt; immediate = choose(2, 1) == 1; }
  char* buf = nullptr; void* d = data;
  if (cpyfn || !immediate || range) {
    RT rt;
    if (al < 1) al = 1;
    buf = (char*)malloc(sz + al);
    mem_fresh(buf, sz + al);
    d = (void*)(((uintptr_t)buf + al - 1) & ~(uintptr_t)(al - 1));
  }
  if (cpyfn) cpyfn(d, data);
  else if (!immediate || range) {
    mem_read(data, sz);
    RT rt; memcpy(d, data, sz);
  }
  if (range) { RT rt; memcpy(d, range, 16); }
  if (immediate) {
    if (!active || !cur || !tm) { fn(d); free(buf); return; }
    Task* t;
    { RT rt; t = new Task(); t->parent = cur->task; t->fn = fn; t->data = d; t->buf = buf; t->final_ = fin; t->start_vc = cur->vc; if (t->parent) t->parent->pending_children++; t->group = cur->task ? cur->task->group : nullptr; if (t->group) t->group->pending++; }
    run_task(t);
    return;
  }
  {
    RT rt;
    Task* t = new Task();
    t->parent = cur->task;
    if (t->parent) t->parent->pending_children++;
    t->fn = fn; t->data = d; t->buf = buf; t->team = tm;
    t->group = cur->task ? cur->task->group : nullptr;
    if (t->group) t->group->pending++;
    tm->outstanding++;
    t->start_vc = cur->vc;
    tick();
    tm->queue.push_back(t);
  }
  sched_point(K_DISPATCH);
}
extern "C" {
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long sz, long al, bool if_clause, unsigned flags, void**, int, void*) { make_task(fn, data, cpyfn, sz, al, if_clause, flags); }
void GOMP_taskgroup_start();
void GOMP_taskgroup_end();
void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long sz, long al, unsigned flags, unsigned long num, int, long start, long end, long step) {
  if (flags & (1 << 12)) die(3, "unsupported OpenMP construct: taskloop with reduction");
  long n = step > 0 ? (start < end ? (end - start + step - 1) / step : 0) : (start > end ? (start - end - step - 1) / -step : 0);
  if (n <= 0) return;
  unsigned long nt = num;
  if (flags & (1 << 9)) nt = num ? ((flags & (1 << 14)) ? (n + num - 1) / num : n / num) : 1;
  else if (!nt) nt = omp_get_num_threads();
  nt = std::max(1ul, std::min<unsigned long>(nt, n));
  if (!(flags & (1 << 11))) GOMP_taskgroup_start();
  long done = 0;
  for (unsigned long k = 0; k < nt; k++) {
    long m = n / nt + (k < n % nt);
    if ((flags & (1 << 9)) && (flags & (1 << 14))) m = std::min<long>(num, n - done);
    long r[2] = {start + done * step, start + (done + m) * step};
    make_task(fn, data, cpyfn, sz, al, (flags & (1 << 10)) != 0, flags & 3, r);
    done += m;
  }
  if (!(flags & (1 << 11))) GOMP_taskgroup_end();
}
void GOMP_taskloop_ull(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long sz, long al, unsigned flags, unsigned long num, int pr, unsigned long long start, unsigned long long end, unsigned long long step) {
  GOMP_taskloop(fn, data, cpyfn, sz, al, flags, num, pr, (long)start, (long)end, (long)step);
}
void GOMP_taskwait() {
  if (!active || !cur || !cur->team) return;
  sched_point(K_SYNC);
  Team* tm = cur->team;
  Task* me = cur->task;
  for (;;) {
    Task* t;
    {
      RT rt;
      if (me->pending_children == 0) { hb_acquire(me->children_vc); return; }
      if (!child_ready(tm, me)) block_until("taskwait", [tm, me] { return me->pending_children == 0 || child_ready(tm, me); });
      if (me->pending_children == 0) continue;
      t = take(tm, [me](Task* x) { return x->parent == me; });
    }
    if (t) run_task(t);
  }
}
void GOMP_taskwait_depend(void**) { GOMP_taskwait(); }
void GOMP_taskyield() { if (active && cur) sched_point(K_DISPATCH); }
void GOMP_taskgroup_start() {
  if (!active || !cur || !cur->team) return;
  RT rt;
  auto* g = new Group(); g->outer = cur->task->group; cur->task->group = g;
}
void GOMP_taskgroup_end() {
  if (!active || !cur || !cur->team) return;
  sched_point(K_SYNC);
  Team* tm = cur->team;
  Group* g = cur->task->group;
  for (;;) {
    Task* t;
    {
      RT rt;
      if (g->pending == 0) { hb_acquire(g->vc); cur->task->group = g->outer; return; }
      if (!group_ready(tm, g)) block_until("taskgroup", [tm, g] { return g->pending == 0 || group_ready(tm, g); });
      if (g->pending == 0) continue;
      t = take(tm, [g](Task* x) { return x->group == g; });
    }
    if (t) run_task(t);
  }
}
void GOMP_taskgroup_reduction_register(uintptr_t*) { die(3, "unsupported OpenMP construct: taskgroup reduction"); }

int omp_get_thread_num() { return (active && cur && cur->team) ? cur->tnum : 0; }
int omp_get_num_threads() { return (active && cur && cur->team) ? cur->team->n : 1; }
int omp_get_max_threads() { return req_threads ? req_threads : (cfg.max_threads > 0 ? cfg.max_threads : 1); }
int omp_get_num_procs() { return cfg.max_threads > 0 ? cfg.max_threads : 1; }
void omp_set_num_threads(int n) { req_threads = n; }
int omp_in_parallel() { return active && cur && cur->team && cur->team->n > 1; }
int omp_get_level() { return (active && cur) ? cur->level : 0; }
int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_supported_active_levels() { return 1; }
int omp_get_thread_limit() { return INT_MAX; }
double omp_get_wtime() { return 0.0; }
double omp_get_wtick() { return 1e-9; }
int omp_in_final() { return active && cur && cur->task && cur->task->final_; }
int omp_in_explicit_task() { return active && cur && cur->task && !cur->task->implicit; }
int omp_get_team_size(int l) { return l == omp_get_level() ? omp_get_num_threads() : l >= 0 && l < omp_get_level() ? 1 : -1; }
int omp_get_ancestor_thread_num(int l) { return l == omp_get_level() ? omp_get_thread_num() : l >= 0 && l < omp_get_level() ? 0 : -1; }
static omp_sched_t g_sched = omp_sched_dynamic;
static int g_chunk = 1;
void omp_set_schedule(omp_sched_t s, int c) { g_sched = s; g_chunk = c; }
void omp_get_schedule(omp_sched_t* s, int* c) { *s = g_sched; *c = g_chunk; }
int omp_get_cancellation() { return 0; }
omp_proc_bind_t omp_get_proc_bind() { return omp_proc_bind_false; }
int omp_get_num_places() { return 0; }
int omp_get_place_num() { return -1; }
int omp_get_num_devices() { return 0; }
int omp_get_initial_device() { return 0; }
int omp_get_default_device() { return 0; }
int omp_is_initial_device() { return 1; }
int omp_get_num_teams() { return 1; }
int omp_get_team_num() { return 0; }
int omp_get_max_task_priority() { return 0; }
void omp_init_lock(omp_lock_t*) {}
void omp_destroy_lock(omp_lock_t*) {}
void omp_set_lock(omp_lock_t* l) { crit_lock(l, "omp lock"); }
void omp_unset_lock(omp_lock_t* l) { crit_unlock(l); }
int omp_test_lock(omp_lock_t* l) { return crit_try(l); }
static std::map<const void*, int> nest_depth;
static bool nest_mine(const void* l) { RT rt; if (!crit_owner) return false; auto it = crit_owner->find(l); return cur && it != crit_owner->end() && it->second == cur->id; }
void omp_init_nest_lock(omp_nest_lock_t*) {}
void omp_destroy_nest_lock(omp_nest_lock_t*) {}
void omp_set_nest_lock(omp_nest_lock_t* l) { if (!nest_mine(l)) crit_lock(l, "omp nest lock"); RT rt; nest_depth[l]++; }
void omp_unset_nest_lock(omp_nest_lock_t* l) { bool z; { RT rt; z = --nest_depth[l] == 0; } if (z) crit_unlock(l); }
int omp_test_nest_lock(omp_nest_lock_t* l) { if (!nest_mine(l) && !crit_try(l)) return 0; RT rt; return ++nest_depth[l]; }
}
