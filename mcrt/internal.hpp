#pragma once
#include "mcrt.hpp"
#include <pthread.h>
#include <cstring>
#include <functional>
#include <unordered_map>
#include <vector>
#include <memory>

namespace mc {
#ifndef MCRT_MAXT
#define MCRT_MAXT 8
#endif
constexpr int MAXT = MCRT_MAXT;  // controlled threads per execution

struct VC {
  uint32_t c[MAXT] = {0};
  void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

struct Team; struct Task;

struct Thread {
  int id = 0;
  pthread_t th{};
  int futex = 0;              // baton
  bool done = false;
  bool exists = false;
  bool is_worker = false;     // pool worker (OMP/TBB)
  std::function<bool()> pred; // non-null = blocked until it returns true
  const char* why = "";
  std::function<void()> job;  // next job for a pool worker
  bool has_job = false;
  VC vc;
  VC final_vc;
  // OpenMP context
  Team* team = nullptr; int tnum = 0; int level = 0; int ws = 0; int single = 0; Task* task = nullptr;
  void* cur_ws = nullptr;
  int spin = 0;
  // TBB context
  int slot = -1;
  void* arena = nullptr;
};

enum Kind : uint8_t { K_SYNC = 1, K_DISPATCH = 2, K_BLOCK = 3, K_ENV = 4, K_YIELD = 5 };

extern bool active;            // controlled execution in progress
extern thread_local int in_rt; // inside the runtime (no instrumentation)
extern thread_local Thread* cur;
extern Config cfg;
extern Thread threads[MAXT];
extern int nthreads;

struct RT { RT() { ++in_rt; } ~RT() { --in_rt; } };

void sched_point(Kind k);
void block_until(const char* why, std::function<bool()> pred);  // blocks (predicate evaluated by the scheduler)
void yield_point();
int choose(int n, int cost);   // environment choice 0..n-1, alternatives cost `cost`
Thread* get_worker();          // idle pool worker (created on demand)
Thread* new_thread(bool worker);
void start_thread(Thread* t);
void run_job(Thread* t, std::function<void()> f);  // hand a job to an idle pool worker
void worker_idle_wait();

void tick();                          // increment own clock component
void hb_release(VC& v);               // v |= cur.vc ; tick
void hb_acquire(const VC& v);         // cur.vc |= v
VC& sync_var(const void* addr);

void mem_read(const void* p, size_t n);
void mem_write(const void* p, size_t n);
void mem_free(const void* p, size_t n);
void mem_fresh(const void* p, size_t n);

std::string run_controlled(const Scenario& s);  // inside the child
void omp_reset();
void tbb_reset();
[[noreturn]] void die(int code, const std::string& msg);  // end this execution

// trace shared with the explorer
struct TracePoint { uint8_t n, chosen, cost, kind; };
struct Dev { uint32_t pos; uint8_t choice, n, kind, pad; };
constexpr int MAXDEV = 4096;
inline uint64_t mix(uint64_t h, uint64_t v) { h = (h ^ v) * 0x9E3779B97F4A7C15ull; return h ^ (h >> 31); }
struct Slot {
  volatile int status;          // 0 running, 1 ok, 2 violation, 3 error
  volatile uint32_t len;
  uint64_t outcome;
  uint64_t nsteps;
  uint64_t accesses;
  char msg[4096];
  uint32_t ndev, next_dev, prefix_len;  // schedule to replay: deviations from the default choice 0
  Dev dev[MAXDEV];
  uint64_t hash, want_hash;             // rolling hash of the choice points of the replayed prefix
  TracePoint tr[1 << 18];
};
extern Slot* slot;
}  // namespace mc
