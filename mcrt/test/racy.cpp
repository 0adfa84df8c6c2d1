// Programs with a defect that only some schedules show: each scenario, run with --only NAME, must be reported.
#include "../mcrt.hpp"
#include <omp.h>
#include <atomic>
#include <condition_variable>
#include <future>
#include <mutex>
#include <shared_mutex>
#include <string>
#include <thread>
#include <vector>
#include <tbb/tbb.h>
static std::string err;
#define CK(c) do { if (!(c)) err += std::string(#c) + " line " + std::to_string(__LINE__) + "; "; } while (0)
template <class F> void sc(const char* n, F f) {
  mc::Scenario s; s.name = n; s.cfg.max_threads = 2; s.cfg.bound = 2; s.cfg.max_exec = 4000; s.body = f; s.check = [] { return err; }; mc::add(s);
}
int main(int c, char** v) {
  sc("race-omp-for", [] { int s = 0;
#pragma omp parallel for
    for (int i = 0; i < 4; i++) s += i;
  });
  sc("race-omp-nowait", [] { int s = 0, t = 0;
#pragma omp parallel
    {
#pragma omp single nowait
      s = 1;
      if (omp_get_thread_num()) t = s;
    }
  });
  sc("race-omp-task", [] { int s = 0;
#pragma omp parallel
#pragma omp single
    {
#pragma omp task shared(s)
      s++;
      s++;
    }
  });
  sc("lost-update-atomic", [] { std::atomic<int> s{0};
    std::thread t([&] { int x = s.load(); s.store(x + 1); });
    int x = s.load(); s.store(x + 1); t.join(); CK(s == 2); });
  sc("race-relaxed", [] { std::atomic<int> f{0}; int d = 0;
    std::thread t([&] { d = 1; f.store(1, std::memory_order_relaxed); });
    if (f.load(std::memory_order_relaxed)) d++; t.join(); });
  sc("deadlock", [] { std::mutex a, b;
    std::thread t([&] { std::lock_guard<std::mutex> x(a), y(b); });
    { std::lock_guard<std::mutex> x(b), y(a); } t.join(); });
  sc("race-shared-lock", [] { std::shared_mutex m; int s = 0;
    std::thread t([&] { std::shared_lock<std::shared_mutex> g(m); s++; });
    { std::shared_lock<std::shared_mutex> g(m); s++; } t.join(); });
  sc("race-tbb", [] { int s = 0; tbb::parallel_for(0, 4, [&](int i) { s += i; }); });
  sc("tbb-body-state", [] {
    struct B { std::vector<int>* o; int n = 0; void operator()(const tbb::blocked_range<int>& r) { for (int i = r.begin(); i < r.end(); i++) n++; } B(std::vector<int>* o) : o(o) {} B(B& x, tbb::split) : o(x.o) {} void join(B&) {} };
    std::vector<int> v; B b(&v); tbb::parallel_reduce(tbb::blocked_range<int>(0, 6), b, tbb::simple_partitioner()); CK(b.n == 6); });
  sc("omp-thread-count", [] { std::vector<int> a(8, 0); int n = omp_get_max_threads();
#pragma omp parallel for schedule(dynamic)
    for (int i = 0; i < n; i++) a[omp_get_thread_num()]++;
    CK(a[0] == 1 && a[1] == 1); });
  return mc::main("RT", c, v);
}
