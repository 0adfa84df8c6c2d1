// mcrt: controlled scheduler + race detector + schedule explorer for OpenMP / TBB / pthread code.
// The code under test is compiled with -fopenmp -fsanitize=thread (instrumentation only) and linked against this
// runtime instead of libgomp, libtbb and libtsan.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace mc {

// Default scheduling policy: the continuation taken at a choice point when nothing deviates.
enum Policy { GREEDY = 0, ROUND_ROBIN = 1, LAST_FIRST = 2 };

struct Config {
  int max_threads = 2;       // omp_get_max_threads / TBB max_concurrency
  int preempt_cost = 1;      // cost of switching away from a runnable thread at a synchronisation operation
  int dispatch_cost = 1;     // cost of switching at work-dispatch points (loop chunk, task creation, spawn)
  int block_cost = 1;        // cost of waking another than the next runnable thread when the running one blocks
  Policy policy = GREEDY;    // base schedule
  int bound = 2;             // explore every schedule with total deviation cost <= bound
  bool team_shrink = false;  // the OpenMP runtime may deliver fewer threads than requested (costs 1)
  bool task_undeferred = false;  // the OpenMP runtime may run a task immediately (costs 1)
  long max_exec = 0;         // cap on executions (0 = none); reported when hit
  int max_steps = 400000;    // horizon: scheduling points per execution
};

struct Scenario {
  std::string name;
  Config cfg;
  std::function<void()> setup;          // run once per explorer worker, uncontrolled (sequential runtime)
  std::function<void()> body;           // run under the controlled scheduler, forked per execution
  std::function<std::string()> check;   // run after body, uncontrolled; non-empty = violation
};

void add(Scenario s);
int main(const char* property, int argc, char** argv);
bool thorough(int argc, char** argv);  // --tier thorough given?

// --- inside body ---
int spawn(std::function<void()> f);  // start a controlled user thread
void join(int id);
void point();                        // voluntary scheduling point (costs preempt_cost)
void observe(uint64_t v);            // fold into the outcome hash of this execution
void observe(double v);
[[noreturn]] void fail(const std::string& msg);  // report a violation from anywhere
int self();
long steps();

}  // namespace mc
