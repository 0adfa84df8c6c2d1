// Core: controlled scheduler, happens-before race detector, libtsan interface, allocation and pthread interposition.
#include "internal.hpp"
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <chrono>
#include <thread>
#include <time.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <new>
#include <iostream>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace mc {
bool active = false;
thread_local int in_rt = 0;
thread_local Thread* cur = nullptr;
Config cfg;
Thread threads[MAXT];
int nthreads = 0;
Slot* slot = nullptr;
static uint64_t g_accesses = 0;

static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = nullptr;

[[noreturn]] void die(int code, const std::string& msg) {
  ++in_rt;
  active = false;
  if (slot) {
    slot->accesses = g_accesses;
    if (code != 1) { strncpy(slot->msg, msg.c_str(), sizeof(slot->msg) - 1); slot->msg[sizeof(slot->msg) - 1] = 0; }
    __sync_synchronize();
    slot->status = code;
  }
  _exit(0);
}
void fail(const std::string& msg) { ++in_rt; die(2, msg); }

// ---------------------------------------------------------------- baton
static void futex_wait(int* p) {
  while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(p, 0, __ATOMIC_RELAXED);
}
static void futex_post(int* p) {
  __atomic_store_n(p, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static void switch_to(Thread* t) {
  Thread* me = cur;
  if (t == me) return;
  t->pred = nullptr;
  futex_post(&t->futex);
  futex_wait(&me->futex);
}

static int record(int n, int cost, Kind k) {
  uint32_t i = slot->len;
  if (i >= sizeof(slot->tr) / sizeof(slot->tr[0])) die(2, "HORIZON: more choice points than the trace can hold (livelock?)");
  int c = 0;
  if (slot->next_dev < slot->ndev && slot->dev[slot->next_dev].pos == i) {
    const Dev& d = slot->dev[slot->next_dev++];
    if (d.n != n || d.kind != k) die(3, "DIVERGENCE while replaying a schedule prefix at point " + std::to_string(i));
    c = d.choice;
  }
  slot->hash = mix(slot->hash, (uint64_t)n | (uint64_t)c << 8 | (uint64_t)k << 16);
  if (i + 1 == slot->prefix_len && slot->hash != slot->want_hash) die(3, "DIVERGENCE: choice points of a replayed prefix differ");
  slot->tr[i] = TracePoint{(uint8_t)n, (uint8_t)c, (uint8_t)cost, (uint8_t)k};
  slot->len = i + 1;
  return c;
}

int choose(int n, int cost) {
  if (!active || n <= 1) return 0;
  RT rt;
  return record(n, cost, K_ENV);
}

static bool enabled(Thread* t) { return t->exists && !t->done && (!t->pred || t->pred()); }

static void count_step() {
  if ((long)++slot->nsteps > cfg.max_steps) die(2, "HORIZON: no termination within " + std::to_string(cfg.max_steps) + " scheduling points (livelock?)");
}

static int order_others(Thread** out, bool reverse) {
  int n = 0;
  for (int d = 1; d < nthreads; d++) {
    int id = reverse ? (cur->id - d + nthreads * 2) % nthreads : (cur->id + d) % nthreads;
    if (enabled(&threads[id])) out[n++] = &threads[id];
  }
  return n;
}

void sched_point(Kind k) {
  if (!active) return;
  RT rt;
  count_step();
  Thread* c[MAXT + 1];
  int n = 0;
  Thread* others[MAXT];
  int m = order_others(others, cfg.policy == LAST_FIRST);
  if (m == 0) return;
  if (k == K_DISPATCH && cfg.policy != GREEDY) {
    for (int i = 0; i < m; i++) c[n++] = others[i];
    c[n++] = cur;
  } else {
    c[n++] = cur;
    for (int i = 0; i < m; i++) c[n++] = others[i];
  }
  int ch = record(n, k == K_DISPATCH ? cfg.dispatch_cost : cfg.preempt_cost, k);
  switch_to(c[ch]);
}

void yield_point() {
  if (!active) return;
  RT rt;
  count_step();
  Thread* others[MAXT];
  int m = order_others(others, false);
  if (m == 0) return;
  int ch = m > 1 ? record(m, cfg.block_cost, K_YIELD) : 0;
  switch_to(others[ch]);
}

void block_until(const char* why, std::function<bool()> pred) {
  if (!active) { return; }
  RT rt;
  if (pred()) return;
  count_step();
  Thread* me = cur;
  me->pred = pred;
  me->why = why;
  Thread* others[MAXT];
  int m = order_others(others, cfg.policy == LAST_FIRST);
  if (m == 0) {
    std::string s = "DEADLOCK:";
    for (int i = 0; i < nthreads; i++)
      if (!threads[i].done && threads[i].pred) s += " T" + std::to_string(i) + " waits for " + threads[i].why + ";";
    die(2, s);
  }
  int ch = m > 1 ? record(m, cfg.block_cost, K_BLOCK) : 0;
  switch_to(others[ch]);
  me->pred = nullptr;
}

// ---------------------------------------------------------------- threads
static void thread_exit_switch() {
  // current thread is done: hand the baton to somebody else
  Thread* others[MAXT];
  int m = order_others(others, cfg.policy == LAST_FIRST);
  if (m == 0) die(2, "DEADLOCK: no runnable thread after a thread exit");
  int ch = m > 1 ? record(m, cfg.block_cost, K_BLOCK) : 0;
  Thread* t = others[ch];
  t->pred = nullptr;
  futex_post(&t->futex);
}

static void* thread_main(void* p) {
  Thread* t = (Thread*)p;
  cur = t;
  in_rt = 1;
  futex_wait(&t->futex);
  if (t->is_worker) {
    for (;;) {
      while (!t->has_job) {
        // idle: only schedulable when a job arrives
        block_until("work", [t] { return t->has_job; });
      }
      t->has_job = false;
      auto f = std::move(t->job);
      in_rt = 0;
      f();
      in_rt = 1;
    }
  } else {
    in_rt = 0;
    t->job();
    in_rt = 1;
    t->final_vc = t->vc;
    t->done = true;
    thread_exit_switch();
    for (;;) pause();  // never really exits: its stack must not be reused by a later thread (stale shadow)
  }
  return nullptr;
}

Thread* new_thread(bool worker) {
  RT rt;
  if (nthreads >= MAXT) die(3, "too many controlled threads");
  Thread* t = &threads[nthreads];
  *t = Thread();
  t->id = nthreads;
  t->exists = true;
  t->is_worker = worker;
  t->vc.c[t->id] = 1;
  if (worker) t->pred = [t] { return t->has_job; };
  nthreads++;
  return t;
}
void start_thread(Thread* t) {
  RT rt;
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 4 << 20);
  if (!real_pthread_create) real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
  if (real_pthread_create(&t->th, &a, thread_main, t)) die(3, "pthread_create failed");
  pthread_attr_destroy(&a);
}

Thread* get_worker() {
  RT rt;
  for (int i = 0; i < nthreads; i++) {
    Thread* t = &threads[i];
    if (t->is_worker && !t->has_job && t->pred && !strcmp(t->why, "work") && t != cur && !t->team && t->slot < 0) return t;
  }
  Thread* t = new_thread(true);
  t->why = "work";
  start_thread(t);
  return t;
}
void run_job(Thread* t, std::function<void()> f) {
  RT rt;
  t->job = std::move(f);
  t->has_job = true;
  t->vc.join(cur->vc);
  tick();
}

int spawn(std::function<void()> f) {
  if (!active) { f(); return -1; }
  RT rt;
  Thread* t = new_thread(false);
  t->job = std::move(f);
  t->vc.join(cur->vc);
  tick();
  start_thread(t);
  sched_point(K_SYNC);
  return t->id;
}
void join(int id) {
  if (id < 0 || !active) return;
  RT rt;
  sched_point(K_SYNC);
  Thread* t = &threads[id];
  block_until("join", [t] { return t->done; });
  cur->vc.join(t->final_vc);
}
void point() { sched_point(K_SYNC); }
int self() { return cur ? cur->id : 0; }
long steps() { return slot ? (long)slot->nsteps : 0; }
void observe(uint64_t v) {
  if (!slot) return;
  uint64_t h = slot->outcome ^ v;
  h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
  slot->outcome = h;
}
void observe(double v) { uint64_t u; memcpy(&u, &v, 8); observe(u); }

// ---------------------------------------------------------------- happens-before
void tick() { cur->vc.c[cur->id]++; }
void hb_release(VC& v) { v.join(cur->vc); tick(); }
void hb_acquire(const VC& v) { cur->vc.join(v); }
static std::unordered_map<const void*, VC>* sync_map = nullptr;
VC& sync_var(const void* a) { return (*sync_map)[a]; }

struct W { uint32_t clk; uint8_t tid, mask; uint16_t pad; uint32_t pc; };
struct Cell { W w[2]; uint32_t rclk[MAXT]; uint8_t rmask[MAXT]; };
struct Page { Cell c[512]; };
struct PSlot { uintptr_t pn; Page* p; };  // open-addressing table outside the heap: shadow lookups never allocate
static PSlot* pages = nullptr;
constexpr size_t NSLOT = size_t(1) << 18;
static size_t n_pages = 0;
static uintptr_t last_page = 0;
static Page* last_ptr = nullptr;
static uintptr_t ign_lo[4], ign_hi[4];
static int n_ign = 0;

static Page* get_page(uintptr_t pn, bool create) {
  if (pn == last_page && last_ptr) return last_ptr;
  Page* p = nullptr;
  size_t h = (pn * 0x9E3779B97F4A7C15ull) >> 46;
  for (;; h = (h + 1) & (NSLOT - 1)) {
    if (pages[h].p && pages[h].pn == pn) { p = pages[h].p; break; }
    if (!pages[h].p) {
      if (create) {
        if (++n_pages > NSLOT / 2) die(3, "shadow table full");
        p = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        pages[h] = PSlot{pn, p};
      }
      break;
    }
  }
  if (p) { last_page = pn; last_ptr = p; }
  return p;
}

extern "C" char __executable_start;
static uint32_t pcoff(void* pc) { return (uint32_t)((uintptr_t)pc - (uintptr_t)&__executable_start); }

static void race(const char* a, const char* b, uintptr_t addr, int other, uint32_t opc, void* pc) {
  char buf[256];
  snprintf(buf, sizeof buf, "DATA RACE: %s by T%d (pc +0x%x) is unordered with %s by T%d (pc +0x%x)", a, cur->id, pcoff(pc), b, other, opc);
  die(2, buf);
}

static void access(uintptr_t a, size_t n, bool wr, void* pc) {
  if (!n) return;
  for (int i = 0; i < n_ign; i++) if (a >= ign_lo[i] && a < ign_hi[i]) return;
  g_accesses++;
  Thread* t = cur;
  const uint32_t myclk = t->vc.c[t->id];
  const int me = t->id;
  uintptr_t end = a + n;
  while (a < end) {
    uintptr_t word = a >> 3;
    unsigned off = a & 7;
    unsigned len = 8 - off;
    if (len > end - a) len = end - a;
    uint8_t mask = (uint8_t)(((1u << len) - 1) << off);
    Page* p = get_page(word >> 9, true);
    Cell& c = p->c[word & 511];
    for (auto& w : c.w)
      if (w.clk && (w.mask & mask) && w.tid != me && w.clk > t->vc.c[w.tid]) race(wr ? "write" : "read", "write", a, w.tid, w.pc, pc);
    if (wr) {
      for (int i = 0; i < nthreads; i++)
        if (i != me && c.rclk[i] > t->vc.c[i] && (c.rmask[i] & mask)) race("write", "read", a, i, 0, pc);
      W* v = nullptr;
      for (auto& w : c.w) if (w.clk && w.tid == me && ((w.mask & ~mask) == 0 || w.clk == myclk)) { v = &w; break; }
      if (v) { v->mask = v->clk == myclk ? (v->mask | mask) : mask; v->clk = myclk; v->pc = pcoff(pc); }
      else {
        // replace a covered entry, an empty one, or the first
        int k = -1;
        for (int i = 0; i < 2; i++) if (!c.w[i].clk || (c.w[i].mask & ~mask) == 0) { k = i; break; }
        if (k < 0) k = 0;
        c.w[k] = W{myclk, (uint8_t)me, mask, 0, pcoff(pc)};
      }
    } else {
      if (c.rclk[me] == myclk) c.rmask[me] |= mask; else { c.rclk[me] = myclk; c.rmask[me] = mask; }
    }
    a += len;
  }
}
static void clear_range(uintptr_t a, size_t n) {
  uintptr_t w0 = a >> 3, w1 = (a + n + 7) >> 3;
  while (w0 < w1) {
    uintptr_t pn = w0 >> 9, e = std::min<uintptr_t>(w1, (pn + 1) << 9);
    if (Page* p = get_page(pn, false)) memset(&p->c[w0 & 511], 0, (e - w0) * sizeof(Cell));
    w0 = e;
  }
}
void mem_read(const void* p, size_t n) { if (active && cur) access((uintptr_t)p, n, false, __builtin_return_address(0)); }
void mem_write(const void* p, size_t n) { if (active && cur) access((uintptr_t)p, n, true, __builtin_return_address(0)); }
void mem_fresh(const void* p, size_t n) { if (active && cur) clear_range((uintptr_t)p, n); }  // memory the runtime allocated on behalf of the program
void mem_free(const void* p, size_t n) { if (active && cur) { access((uintptr_t)p, n, true, __builtin_return_address(0)); clear_range((uintptr_t)p, n); } }

std::string run_controlled(const Scenario& s) {
  cfg = s.cfg;
  {
    RT rt;
    pages = (PSlot*)mmap(nullptr, NSLOT * sizeof(PSlot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sync_map = new std::unordered_map<const void*, VC>();
    auto ign = [](const void* p, size_t n) { ign_lo[n_ign] = (uintptr_t)p; ign_hi[n_ign] = (uintptr_t)p + n; n_ign++; };
    ign(&std::cerr, sizeof(std::cerr)); ign(&std::cout, sizeof(std::cout)); ign(&std::clog, sizeof(std::clog));
    nthreads = 0;
    Thread* m = new_thread(false);
    cur = m;
    omp_reset();
    tbb_reset();
  }
  active = true;
  s.body();
  active = false;
  ++in_rt;
  slot->accesses = g_accesses;
  return "";
}

}  // namespace mc

using namespace mc;

// Accesses to static storage of the program are scheduling points of their own (the first ones of an execution): the compiler does not
// instrument stores of aggregates returned by a call, so a race on a static object may be visible only through the values it produces.
extern "C" char __data_start, _end;
static int static_points = 0;
static inline void static_access(void* p) {
  if ((char*)p < &__data_start || (char*)p >= &_end || static_points >= 400) return;
  for (int i = 0; i < n_ign; i++) if ((uintptr_t)p >= ign_lo[i] && (uintptr_t)p < ign_hi[i]) return;
  { RT rt; Thread* o[MAXT]; if (!order_others(o, false)) return; }
  static_points++;
  sched_point(K_SYNC);
}
#define HOOK(wr, sz) do { if (active && !in_rt && cur) { static_access(p); access((uintptr_t)p, sz, wr, __builtin_return_address(0)); } } while (0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read1(void* p) { HOOK(false, 1); }
void __tsan_read2(void* p) { HOOK(false, 2); }
void __tsan_read4(void* p) { HOOK(false, 4); }
void __tsan_read8(void* p) { HOOK(false, 8); }
void __tsan_read16(void* p) { HOOK(false, 16); }
void __tsan_write1(void* p) { HOOK(true, 1); }
void __tsan_write2(void* p) { HOOK(true, 2); }
void __tsan_write4(void* p) { HOOK(true, 4); }
void __tsan_write8(void* p) { HOOK(true, 8); }
void __tsan_write16(void* p) { HOOK(true, 16); }
void __tsan_unaligned_read2(void* p) { HOOK(false, 2); }
void __tsan_unaligned_read4(void* p) { HOOK(false, 4); }
void __tsan_unaligned_read8(void* p) { HOOK(false, 8); }
void __tsan_unaligned_read16(void* p) { HOOK(false, 16); }
void __tsan_unaligned_write2(void* p) { HOOK(true, 2); }
void __tsan_unaligned_write4(void* p) { HOOK(true, 4); }
void __tsan_unaligned_write8(void* p) { HOOK(true, 8); }
void __tsan_unaligned_write16(void* p) { HOOK(true, 16); }
void __tsan_volatile_read1(void* p) { HOOK(false, 1); }
void __tsan_volatile_read2(void* p) { HOOK(false, 2); }
void __tsan_volatile_read4(void* p) { HOOK(false, 4); }
void __tsan_volatile_read8(void* p) { HOOK(false, 8); }
void __tsan_volatile_read16(void* p) { HOOK(false, 16); }
void __tsan_volatile_write1(void* p) { HOOK(true, 1); }
void __tsan_volatile_write2(void* p) { HOOK(true, 2); }
void __tsan_volatile_write4(void* p) { HOOK(true, 4); }
void __tsan_volatile_write8(void* p) { HOOK(true, 8); }
void __tsan_volatile_write16(void* p) { HOOK(true, 16); }
void __tsan_read_range(void* p, unsigned long n) { HOOK(false, n); }
void __tsan_write_range(void* p, unsigned long n) { HOOK(true, n); }
void __tsan_vptr_update(void** p, void* v) { if (active && !in_rt && cur && *p != v) access((uintptr_t)p, 8, true, __builtin_return_address(0)); }
void __tsan_vptr_read(void** p) { HOOK(false, 8); }
}

// ---------------------------------------------------------------- atomics: scheduling points + happens-before
namespace {
inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }  // consume acquire acq_rel seq_cst
inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
VC fence_rel[MAXT], fence_acq_pending[MAXT];
bool has_fence_rel[MAXT];

inline void at_load(const void* a, int mo) {
  VC& v = sync_var(a);
  if (is_acq(mo)) hb_acquire(v); else fence_acq_pending[cur->id].join(v);
}
inline void at_store(const void* a, int mo) {
  VC& v = sync_var(a);
  if (is_rel(mo)) { v = cur->vc; tick(); }
  else if (has_fence_rel[cur->id]) v = fence_rel[cur->id];
  else v = VC();
}
inline void at_rmw(const void* a, int mo) {
  VC& v = sync_var(a);
  VC old = v;
  if (is_rel(mo)) hb_release(v); else if (has_fence_rel[cur->id]) v.join(fence_rel[cur->id]);
  if (is_acq(mo)) hb_acquire(old); else fence_acq_pending[cur->id].join(old);
}
inline bool on() { return active && !in_rt && cur; }
}  // namespace

#define ATOMICS(BITS, T)                                                                                           \
  extern "C" T __tsan_atomic##BITS##_load(const volatile T* a, int mo) {                                           \
    if (on()) { if (++cur->spin > 200) { cur->spin = 0; yield_point(); } else sched_point(K_SYNC); RT rt; at_load((const void*)a, mo); } \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                   \
  }                                                                                                                \
  extern "C" void __tsan_atomic##BITS##_store(volatile T* a, T v, int mo) {                                        \
    if (on()) { cur->spin = 0; sched_point(K_SYNC); RT rt; at_store((const void*)a, mo); }                         \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                      \
  }                                                                                                                \
  ATOMIC_RMW(BITS, T, exchange, __atomic_exchange_n)                                                               \
  ATOMIC_RMW(BITS, T, fetch_add, __atomic_fetch_add)                                                               \
  ATOMIC_RMW(BITS, T, fetch_sub, __atomic_fetch_sub)                                                               \
  ATOMIC_RMW(BITS, T, fetch_and, __atomic_fetch_and)                                                               \
  ATOMIC_RMW(BITS, T, fetch_or, __atomic_fetch_or)                                                                 \
  ATOMIC_RMW(BITS, T, fetch_xor, __atomic_fetch_xor)                                                               \
  ATOMIC_RMW(BITS, T, fetch_nand, __atomic_fetch_nand)                                                             \
  static int cas##BITS(volatile T* a, T* e, T v, int mo, int fmo) {                                                \
    if (!on()) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);             \
    sched_point(K_SYNC);                                                                                           \
    RT rt;                                                                                                         \
    int ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                      \
    if (ok) { cur->spin = 0; at_rmw((const void*)a, mo); } else { at_load((const void*)a, fmo); if (++cur->spin > 200) { cur->spin = 0; yield_point(); } } \
    return ok;                                                                                                     \
  }                                                                                                                \
  extern "C" int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { return cas##BITS(a, e, v, mo, fmo); } \
  extern "C" int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return cas##BITS(a, e, v, mo, fmo); }   \
  extern "C" T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { cas##BITS(a, &e, v, mo, fmo); return e; }

#define ATOMIC_RMW(BITS, T, NAME, OP)                                                                              \
  extern "C" T __tsan_atomic##BITS##_##NAME(volatile T* a, T v, int mo) {                                          \
    if (on()) { cur->spin = 0; sched_point(K_SYNC); RT rt; at_rmw((const void*)a, mo); }                           \
    return OP(a, v, __ATOMIC_SEQ_CST);                                                                             \
  }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int mo) {
  if (!on()) return;
  sched_point(K_SYNC);
  RT rt;
  if (is_acq(mo)) cur->vc.join(fence_acq_pending[cur->id]);
  if (is_rel(mo)) { fence_rel[cur->id] = cur->vc; has_fence_rel[cur->id] = true; tick(); }
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- memory functions
extern "C" {
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
int __real_posix_memalign(void**, size_t, size_t);
void* __real_aligned_alloc(size_t, size_t);
size_t malloc_usable_size(void*);

void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (on()) { access((uintptr_t)s, n, false, __builtin_return_address(0)); access((uintptr_t)d, n, true, __builtin_return_address(0)); }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (on()) { access((uintptr_t)s, n, false, __builtin_return_address(0)); access((uintptr_t)d, n, true, __builtin_return_address(0)); }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int v, size_t n) {
  if (on()) access((uintptr_t)d, n, true, __builtin_return_address(0));
  return __real_memset(d, v, n);
}
static inline void on_alloc(void* p) { if (on() && p) { RT rt; clear_range((uintptr_t)p, malloc_usable_size(p)); } }
static inline void on_free(void* p, void* pc) {
  if (on() && p) { RT rt; size_t n = malloc_usable_size(p); access((uintptr_t)p, n, true, pc); clear_range((uintptr_t)p, n); }
}
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); on_alloc(p); return p; }
void __wrap_free(void* p) { on_free(p, __builtin_return_address(0)); __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); on_alloc(p); return p; }
void* __wrap_realloc(void* q, size_t n) { on_free(q, __builtin_return_address(0)); void* p = __real_realloc(q, n); on_alloc(p); return p; }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r) on_alloc(*p); return r; }
void* __wrap_aligned_alloc(size_t a, size_t n) { void* p = __real_aligned_alloc(a, n); on_alloc(p); return p; }
}
static void* new_impl(size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); on_alloc(p); return p; }
static void* new_al(size_t n, std::align_val_t a) {
  void* p = nullptr;
  if (__real_posix_memalign(&p, std::max<size_t>(sizeof(void*), (size_t)a), n ? n : 1)) throw std::bad_alloc();
  on_alloc(p);
  return p;
}
void* operator new(size_t n) { return new_impl(n); }
void* operator new[](size_t n) { return new_impl(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_impl(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_impl(n); }
void* operator new(size_t n, std::align_val_t a) { return new_al(n, a); }
void* operator new[](size_t n, std::align_val_t a) { return new_al(n, a); }
#define DEL { on_free(p, __builtin_return_address(0)); __real_free(p); }
void operator delete(void* p) noexcept DEL
void operator delete[](void* p) noexcept DEL
void operator delete(void* p, size_t) noexcept DEL
void operator delete[](void* p, size_t) noexcept DEL
void operator delete(void* p, const std::nothrow_t&) noexcept DEL
void operator delete[](void* p, const std::nothrow_t&) noexcept DEL
void operator delete(void* p, std::align_val_t) noexcept DEL
void operator delete[](void* p, std::align_val_t) noexcept DEL
void operator delete(void* p, size_t, std::align_val_t) noexcept DEL
void operator delete[](void* p, size_t, std::align_val_t) noexcept DEL

// ---------------------------------------------------------------- static-local guards
extern "C" int __wrap___cxa_guard_acquire(uint64_t* g) {
  if (!on()) { if (*(char*)g) return 0; ((char*)g)[1] = 1; return 1; }
  sched_point(K_SYNC);
  RT rt;
  for (;;) {
    if (*(volatile char*)g) { hb_acquire(sync_var(g)); return 0; }
    if (!((volatile char*)g)[1]) { ((volatile char*)g)[1] = 1; return 1; }
    block_until("static initialisation", [g] { return *(volatile char*)g || !((volatile char*)g)[1]; });
  }
}
extern "C" void __wrap___cxa_guard_release(uint64_t* g) {
  ((volatile char*)g)[1] = 0;
  *(volatile char*)g = 1;
  if (on()) { RT rt; hb_release(sync_var(g)); }
}
extern "C" void __wrap___cxa_guard_abort(uint64_t* g) { ((volatile char*)g)[1] = 0; }

// ---------------------------------------------------------------- pthread (mutex, create/join, cond, once) and yield
namespace {
struct Mutex { int owner = -1; int depth = 0; };
std::unordered_map<const void*, Mutex>* mutexes = nullptr;
Mutex& mtx(const void* m) { if (!mutexes) mutexes = new std::unordered_map<const void*, Mutex>(); return (*mutexes)[m]; }
template <typename F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
}  // namespace
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!on()) { static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return (active && cur) ? 0 : r(m); }
  sched_point(K_SYNC);
  RT rt;
  if (mtx(m).owner == cur->id && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { mtx(m).depth++; return 0; }
  block_until("mutex", [m] { return mtx(m).owner < 0; });
  mtx(m).owner = cur->id; mtx(m).depth = 1;
  hb_acquire(sync_var(m));
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!on()) { static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return (active && cur) ? 0 : r(m); }
  sched_point(K_SYNC);
  RT rt;
  if (mtx(m).owner >= 0) return EBUSY;
  mtx(m).owner = cur->id; mtx(m).depth = 1;
  hb_acquire(sync_var(m));
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!on()) { static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return (active && cur) ? 0 : r(m); }
  {
    RT rt;
    if (mtx(m).owner != cur->id) return 0;
    if (--mtx(m).depth > 0) return 0;
    mtx(m).owner = -1;
    hb_release(sync_var(m));
  }
  sched_point(K_SYNC);
  return 0;
}
static int cond_wait(pthread_mutex_t* m) {
  RT rt;
  if (mtx(m).owner == cur->id) mtx(m).owner = -1;
  hb_release(sync_var(m));
  // a waiter may always wake up spuriously: model as a yield followed by re-acquisition
  yield_point();
  block_until("mutex", [m] { return mtx(m).owner < 0; });
  mtx(m).owner = cur->id; mtx(m).depth = 1;
  hb_acquire(sync_var(m));
  return 0;
}
int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t* m) { return on() ? cond_wait(m) : 0; }
int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const struct timespec*) { return on() ? cond_wait(m) : 0; }
int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, const struct timespec*) { return on() ? cond_wait(m) : 0; }
int pthread_cond_signal(pthread_cond_t*) { if (on()) sched_point(K_SYNC); return 0; }
int pthread_cond_broadcast(pthread_cond_t*) { if (on()) sched_point(K_SYNC); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
// spin locks behave like mutexes
int pthread_spin_init(pthread_spinlock_t* l, int) { *l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* l) {
  if (!on()) return 0;
  sched_point(K_SYNC);
  RT rt;
  block_until("spin lock", [l] { return mtx((const void*)l).owner < 0; });
  mtx((const void*)l).owner = cur->id;
  hb_acquire(sync_var((const void*)l));
  return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* l) {
  if (!on()) return 0;
  sched_point(K_SYNC);
  RT rt;
  if (mtx((const void*)l).owner >= 0) return EBUSY;
  mtx((const void*)l).owner = cur->id;
  hb_acquire(sync_var((const void*)l));
  return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* l) {
  if (!on()) return 0;
  { RT rt; mtx((const void*)l).owner = -1; hb_release(sync_var((const void*)l)); }
  sched_point(K_SYNC);
  return 0;
}
}
namespace {
struct RWLock { int writer = -1, readers = 0; VC wvc, rvc; };
std::unordered_map<const void*, RWLock>* rwlocks = nullptr;
RWLock& rwl(const void* m) { if (!rwlocks) rwlocks = new std::unordered_map<const void*, RWLock>(); return (*rwlocks)[m]; }
int rd(pthread_rwlock_t* m, bool try_) {
  if (!on()) return 0;
  sched_point(K_SYNC);
  RT rt;
  if (try_ && rwl(m).writer >= 0) return EBUSY;
  block_until("rwlock (read)", [m] { return rwl(m).writer < 0; });
  rwl(m).readers++;
  hb_acquire(rwl(m).wvc);
  return 0;
}
int wr(pthread_rwlock_t* m, bool try_) {
  if (!on()) return 0;
  sched_point(K_SYNC);
  RT rt;
  auto freeq = [m] { return rwl(m).writer < 0 && rwl(m).readers == 0; };
  if (try_ && !freeq()) return EBUSY;
  block_until("rwlock (write)", freeq);
  rwl(m).writer = cur->id;
  hb_acquire(rwl(m).wvc);
  hb_acquire(rwl(m).rvc);
  return 0;
}
}  // namespace
extern "C" {
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return rd(m, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return rd(m, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return wr(m, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return wr(m, true); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const struct timespec*) { return rd(m, false); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const struct timespec*) { return wr(m, false); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t, const struct timespec*) { return rd(m, false); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t, const struct timespec*) { return wr(m, false); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!on()) return 0;
  {
    RT rt;
    auto& l = rwl(m);
    if (l.writer == cur->id) { l.writer = -1; hb_release(l.wvc); } else { l.readers--; hb_release(l.rvc); }
  }
  sched_point(K_SYNC);
  return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  if (!on()) {
    if (*o == 2) return 0;
    if (!active) { static auto r = real<int (*)(pthread_once_t*, void (*)())>("pthread_once"); return r(o, f); }
    f(); *o = 2; return 0;
  }
  sched_point(K_SYNC);
  {
    RT rt;
    volatile int* s = o;
    block_until("call_once", [s] { return *s != 1; });
    if (*s == 2) { hb_acquire(sync_var(o)); return 0; }
    *s = 1;
  }
  try { f(); } catch (...) { RT rt; *o = 0; throw; }
  RT rt;
  *o = 2;
  hb_release(sync_var(o));
  return 0;
}
int pthread_detach(pthread_t th) { if (!on()) { static auto r = real<int (*)(pthread_t)>("pthread_detach"); return r(th); } return 0; }
int nanosleep(const struct timespec* a, struct timespec* b) { if (on()) { yield_point(); return 0; } return (int)syscall(SYS_nanosleep, a, b); }
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) { if (on()) { yield_point(); return 0; } return syscall(SYS_clock_nanosleep, c, f, a, b) ? errno : 0; }
int usleep(useconds_t u) { struct timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
}
// std::future / std::promise wait on a futex word through this libstdc++ entry
namespace std {
struct __atomic_futex_unsigned_base {
  bool _M_futex_wait_until(unsigned*, unsigned, bool, chrono::seconds, chrono::nanoseconds);
  bool _M_futex_wait_until_steady(unsigned*, unsigned, bool, chrono::seconds, chrono::nanoseconds);
  static void _M_futex_notify_all(unsigned*);
};
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) {
  if (on()) { RT rt; block_until("future", [a, v] { return *(volatile unsigned*)a != v; }); return true; }
  while (*(volatile unsigned*)a == v) ::sched_yield();
  return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool t, chrono::seconds s, chrono::nanoseconds n) { return _M_futex_wait_until(a, v, t, s, n); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) {}
unsigned thread::hardware_concurrency() noexcept { return mc::cfg.max_threads > 0 ? (unsigned)mc::cfg.max_threads : 1; }
}
extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  if (!on()) { static auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create"); return r(th, a, f, arg); }
  Thread* t;
  {
    RT rt;
    t = new_thread(false);
    t->job = [f, arg] { f(arg); };
    t->vc.join(cur->vc);
    tick();
    start_thread(t);
    *th = t->th;
  }
  sched_point(K_SYNC);
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  if (!on()) { static auto r = real<int (*)(pthread_t, void**)>("pthread_join"); return r(th, ret); }
  for (int i = 0; i < nthreads; i++)
    if (threads[i].exists && !threads[i].is_worker && i > 0 && pthread_equal(threads[i].th, th)) { mc::join(i); return 0; }
  return 0;
}
int sched_yield() { if (on()) yield_point(); return 0; }
}
