// oneTBB runtime (tbb::detail::r1 ABI) under the controlled scheduler: arenas with per-slot deques, LIFO owner / FIFO
// thieves, task bypass, waiting threads that execute any task of their arena, thief identity in execution_data.
#include "internal.hpp"
#include <cstdlib>
#include <deque>
#include <exception>
#include <map>
#include <set>
#include <oneapi/tbb/task_arena.h>
#include <oneapi/tbb/task_group.h>
#include <oneapi/tbb/cache_aligned_allocator.h>
#include <oneapi/tbb/global_control.h>
#include <oneapi/tbb/detail/_task.h>
#include <oneapi/tbb/detail/_small_object_pool.h>
#include <oneapi/tbb/detail/_exception.h>
#include <oneapi/tbb/detail/_assert.h>
#include <oneapi/tbb/version.h>
#include <oneapi/tbb/queuing_rw_mutex.h>
#include <oneapi/tbb/task_scheduler_observer.h>
#include <oneapi/tbb/detail/_rtm_mutex.h>
#include <oneapi/tbb/detail/_rtm_rw_mutex.h>
#include <oneapi/tbb/concurrent_queue.h>
#include <oneapi/tbb/info.h>
#include <stdexcept>

using namespace tbb::detail;

namespace mc {
struct Entry { d1::task* t; d1::task_group_context* ctx; VC vc; };
struct Arena {
  int n = 1;
  std::vector<std::deque<Entry>> dq;
  std::vector<Thread*> occ;
  bool any() const { for (auto& d : dq) if (!d.empty()) return true; return false; }
};
static std::map<void*, bool>* cancelled = nullptr;
static std::map<void*, std::exception_ptr>* excs = nullptr;
static Arena* seq_arena = nullptr;
static int seq_slot = 0;
static thread_local d1::task_group_context* cur_ctx = nullptr;

static Arena* make_arena(int n) {
  Arena* a = new Arena();
  a->n = n; a->dq.resize(n); a->occ.resize(n, nullptr);
  return a;
}
void tbb_reset() {
  cancelled = new std::map<void*, bool>();
  excs = new std::map<void*, std::exception_ptr>();
  for (auto& t : threads) { t.arena = nullptr; t.slot = -1; }
  seq_arena = nullptr;
}
static bool ctrl() { return active && cur; }

static Arena* my_arena() {
  if (!cancelled) { cancelled = new std::map<void*, bool>(); excs = new std::map<void*, std::exception_ptr>(); }
  if (!ctrl()) { if (!seq_arena) seq_arena = make_arena(1); return seq_arena; }
  if (!cur->arena) {  // external thread: implicit arena of its own
    Arena* a = make_arena(cfg.max_threads);
    a->occ[0] = cur;
    cur->arena = a; cur->slot = 0;
  }
  return (Arena*)cur->arena;
}
static int my_slot() { my_arena(); return ctrl() ? cur->slot : seq_slot; }

static bool is_cancelled(void* c) { auto it = cancelled->find(c); return it != cancelled->end() && it->second; }

// executes t and its bypass chain; in_rt must be balanced by the caller (called with in_rt == 0)
static void run_chain(d1::task* t, d1::task_group_context* ctx, int orig) {
  d1::execution_data ed;
  ed.context = ctx; ed.original_slot = (d1::slot_id)orig; ed.affinity_slot = d1::no_slot;
  d1::task_group_context* saved = cur_ctx;
  cur_ctx = ctx;
  while (t) {
    d1::task* nx = nullptr;
    bool c; { RT rt; c = is_cancelled(ctx); }
    try {
      nx = c ? t->cancel(ed) : t->execute(ed);
    } catch (...) {
      RT rt;
      if (!excs->count(ctx)) (*excs)[ctx] = std::current_exception();
      (*cancelled)[ctx] = true;
      // the throwing task is finished through cancel(), as oneTBB does
      nx = t;
    }
    t = nx;
  }
  cur_ctx = saved;
}

static bool get_task(Arena* a, Entry& e, int& orig) {
  int s = my_slot();
  if (!a->dq[s].empty()) {
    e = a->dq[s].back(); a->dq[s].pop_back(); orig = s;
    if (ctrl()) hb_acquire(e.vc);
    return true;
  }
  std::vector<int> v;
  for (int i = 1; i < a->n; i++) { int k = (s + i) % a->n; if (!a->dq[k].empty()) v.push_back(k); }
  if (v.empty()) return false;
  int c = v.size() > 1 ? choose((int)v.size(), cfg.dispatch_cost) : 0;
  int k = v[c];
  e = a->dq[k].front(); a->dq[k].pop_front(); orig = k;
  if (ctrl()) hb_acquire(e.vc);
  return true;
}

static void worker_loop(Arena* a) {
  for (;;) {
    Entry e; int orig = 0; bool got;
    {
      RT rt;
      if (!a->any()) block_until("tbb task", [a] { return a->any(); });
      got = get_task(a, e, orig);
    }
    if (got) { run_chain(e.t, e.ctx, orig); sched_point(K_DISPATCH); }
  }
}

static void ensure_workers(Arena* a) {
  for (int i = 1; i < a->n; i++) {
    if (a->occ[i]) continue;
    Thread* w = get_worker();
    a->occ[i] = w;
    w->slot = i; w->arena = a;
    VC keep = w->vc;
    run_job(w, [a] { worker_loop(a); });
    w->pred = [w, a] { return w->has_job && a->any(); };
    w->vc = keep;  // joining an arena orders nothing: only taking a task does
    return;        // one worker per spawn, as the market wakes them on demand
  }
}

static uint64_t wait_count(d1::wait_context& w) {
  uint64_t* p = (uint64_t*)((char*)&w + 8);
  return __atomic_load_n(p, __ATOMIC_SEQ_CST);
}
static void wait_loop(d1::wait_context& w) {
  Arena* a; { RT rt; a = my_arena(); }
  for (;;) {
    Entry e; int orig = 0; bool got = false;
    {
      RT rt;
      if (wait_count(w) == 0) { if (ctrl()) hb_acquire(sync_var((char*)&w + 8)); return; }
      if (ctrl()) {
        if (!a->any()) { block_until("tbb wait", [a, &w] { return wait_count(w) == 0 || a->any(); }); continue; }
      } else if (!a->any()) { fprintf(stderr, "tbb wait without tasks\n"); abort(); }
      got = get_task(a, e, orig);
    }
    if (got) { run_chain(e.t, e.ctx, orig); if (ctrl()) sched_point(K_DISPATCH); }
  }
}
static void rethrow(d1::task_group_context& c) {
  std::exception_ptr p;
  { RT rt; auto it = excs->find(&c); if (it != excs->end()) { p = it->second; excs->erase(it); } }
  if (p) std::rethrow_exception(p);
}
struct ArenaAccess : d1::task_arena_base { int conc() const { return my_max_concurrency; } };
static std::map<const void*, Arena*>* arenas = nullptr;
}  // namespace mc

using namespace mc;

namespace tbb { namespace detail { namespace r1 {
void spawn(d1::task& t, d1::task_group_context& ctx) {
  {
    RT rt;
    Arena* a = my_arena();
    Entry e{&t, &ctx, VC()};
    if (ctrl()) { e.vc = cur->vc; tick(); }
    a->dq[my_slot()].push_back(e);
    if (ctrl()) ensure_workers(a);
  }
  if (ctrl()) sched_point(K_DISPATCH);
}
void spawn(d1::task& t, d1::task_group_context& ctx, d1::slot_id) { r1::spawn(t, ctx); }
void execute_and_wait(d1::task& t, d1::task_group_context& t_ctx, d1::wait_context& w, d1::task_group_context& w_ctx) {
  int s; { RT rt; s = my_slot(); }
  run_chain(&t, &t_ctx, s);
  if (ctrl()) sched_point(K_DISPATCH);
  wait_loop(w);
  rethrow(w_ctx);
}
void wait(d1::wait_context& w, d1::task_group_context& ctx) { wait_loop(w); rethrow(ctx); }
d1::slot_id execution_slot(const d1::execution_data*) { RT rt; return (d1::slot_id)my_slot(); }
d1::slot_id execution_slot(const d1::task_arena_base*) { RT rt; return (d1::slot_id)my_slot(); }
d1::task_group_context* current_context() { return cur_ctx; }
void notify_waiters(std::uintptr_t) {}
static char dummy_pool;
void* allocate(d1::small_object_pool*& pool, std::size_t n, const d1::execution_data&) { pool = (d1::small_object_pool*)&dummy_pool; return ::operator new((n + 127) & ~size_t(63), std::align_val_t(64)); }
void* allocate(d1::small_object_pool*& pool, std::size_t n) { pool = (d1::small_object_pool*)&dummy_pool; return ::operator new((n + 127) & ~size_t(63), std::align_val_t(64)); }
void deallocate(d1::small_object_pool&, void* p, std::size_t, const d1::execution_data&) { ::operator delete(p, std::align_val_t(64)); }
void deallocate(d1::small_object_pool&, void* p, std::size_t) { ::operator delete(p, std::align_val_t(64)); }
void* cache_aligned_allocate(std::size_t n) { return ::operator new(n ? n : 1, std::align_val_t(128)); }
void cache_aligned_deallocate(void* p) { ::operator delete(p, std::align_val_t(128)); }
std::size_t cache_line_size() { return 128; }
void* allocate_memory(std::size_t n) { return ::operator new(n); }
void deallocate_memory(void* p) { ::operator delete(p); }
bool is_tbbmalloc_used() { return false; }
void initialize(d1::task_group_context& c) { RT rt; my_arena(); cancelled->erase(&c); excs->erase(&c); }
void destroy(d1::task_group_context& c) { RT rt; if (cancelled) { cancelled->erase(&c); excs->erase(&c); } }
void reset(d1::task_group_context& c) { RT rt; if (cancelled) { cancelled->erase(&c); excs->erase(&c); } }
bool cancel_group_execution(d1::task_group_context& c) { RT rt; my_arena(); bool& b = (*cancelled)[&c]; bool o = b; b = true; return !o; }
bool is_group_execution_cancelled(d1::task_group_context& c) { RT rt; my_arena(); return is_cancelled(&c); }
void capture_fp_settings(d1::task_group_context&) {}
void initialize(d1::task_arena_base&) {}
void terminate(d1::task_arena_base&) {}
bool attach(d1::task_arena_base&) { return false; }
void execute(d1::task_arena_base& ta, d1::delegate_base& d) {
  if (!ctrl()) { d(); return; }
  Arena* old; int os;
  {
    RT rt;
    if (!arenas) arenas = new std::map<const void*, Arena*>();
    my_arena();
    old = (Arena*)cur->arena; os = cur->slot;
    Arena*& a = (*arenas)[&ta];
    int n = ((ArenaAccess&)ta).conc();
    if (n <= 0) n = cfg.max_threads;
    if (!a || a->occ[0]) a = make_arena(n);
    a->occ[0] = cur;
    cur->arena = a; cur->slot = 0;
  }
  d();
  { RT rt; ((Arena*)cur->arena)->occ[0] = nullptr; cur->arena = old; cur->slot = os; }
}
void wait(d1::task_arena_base&) {}
int max_concurrency(const d1::task_arena_base* ta) {
  RT rt;
  if (!ctrl()) return 1;
  if (ta) { int n = ((const ArenaAccess*)ta)->conc(); return n > 0 ? n : cfg.max_threads; }
  return my_arena()->n;
}
void isolate_within_arena(d1::delegate_base& d, std::intptr_t) { d(); }
void enqueue(d1::task& t, d1::task_group_context& c, d1::task_arena_base*) { r1::spawn(t, c); }
static std::map<int, size_t>* gcs = nullptr;
void create(d1::global_control&) {}
void destroy(d1::global_control&) {}
std::size_t global_control_active_value(int) { return (size_t)cfg.max_threads; }
void enqueue(d1::task& t, d1::task_arena_base* a) { static d1::task_group_context* c = new d1::task_group_context(d1::task_group_context::isolated); r1::enqueue(t, *c, a); }
bool finalize(d1::task_scheduler_handle&, std::intptr_t) { return true; }
void get(d1::task_scheduler_handle&) {}
void observe(d1::task_scheduler_observer&, bool) {}
// waiting on an address: the waiter re-evaluates its predicate whenever anything happens
void wait_on_address(void*, d1::delegate_base& p, std::uintptr_t) {
  while (p()) { if (!ctrl()) { fprintf(stderr, "wait_on_address outside a controlled execution\n"); abort(); } sched_yield(); }
}
void notify_by_address(void*, std::uintptr_t) {}
void notify_by_address_one(void*) {}
void notify_by_address_all(void*) {}
std::uint8_t* allocate_bounded_queue_rep(std::size_t n) { return (std::uint8_t*)::operator new(n + 512, std::align_val_t(128)); }
void deallocate_bounded_queue_rep(std::uint8_t* p, std::size_t) { ::operator delete(p, std::align_val_t(128)); }
void wait_bounded_queue_monitor(concurrent_monitor*, std::size_t, std::ptrdiff_t, d1::delegate_base& p) { while (p()) sched_yield(); }
void abort_bounded_queue_monitors(concurrent_monitor*) {}
void notify_bounded_queue_monitor(concurrent_monitor*, std::size_t, std::size_t) {}
unsigned numa_node_count() { return 1; }
void fill_numa_indices(int* p) { p[0] = -1; }
int numa_default_concurrency(int) { return cfg.max_threads; }
unsigned core_type_count(std::intptr_t) { return 1; }
void fill_core_type_indices(int* p, std::intptr_t) { p[0] = -1; }
int constraints_default_concurrency(const d1::constraints&, std::intptr_t) { return cfg.max_threads; }
int constraints_threads_per_core(const d1::constraints&, std::intptr_t) { return 1; }
// instrumentation notifications: nothing to do
void call_itt_notify(int, void*) {}
void create_itt_sync(void*, const char*, const char*) {}
void itt_set_sync_name(void*, const char*) {}
void itt_make_task_group(d1::itt_domain_enum, void*, unsigned long long, void*, unsigned long long, string_resource_index) {}
void itt_metadata_str_add(d1::itt_domain_enum, void*, unsigned long long, string_resource_index, const char*) {}
void itt_metadata_ptr_add(d1::itt_domain_enum, void*, unsigned long long, string_resource_index, void*) {}
void itt_relation_add(d1::itt_domain_enum, void*, unsigned long long, itt_relation, void*, unsigned long long) {}
void itt_task_begin(d1::itt_domain_enum, void*, unsigned long long, void*, unsigned long long, string_resource_index) {}
void itt_task_end(d1::itt_domain_enum) {}
void itt_region_begin(d1::itt_domain_enum, void*, unsigned long long, void*, unsigned long long, string_resource_index) {}
void itt_region_end(d1::itt_domain_enum, void*, unsigned long long) {}
void throw_exception(exception_id) { throw std::runtime_error("tbb exception"); }
void assertion_failure(const char* l, int, const char* e, const char*) { mc::die(2, std::string("TBB assertion failed: ") + l + ": " + e); }
}}}  // namespace tbb::detail::r1
extern "C" const char* TBB_runtime_version() { return TBB_VERSION_STRING; }
extern "C" int TBB_runtime_interface_version() { return TBB_INTERFACE_VERSION; }
