// Interface of the exploration engine (libmc.so) to the harnesses.
// The engine runs harness code (instrumented with clang -fsanitize=thread, linked against this
// engine instead of the TSan runtime) as coroutines on one OS thread and enumerates schedules.
#ifndef MC_H
#define MC_H
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace mc {

enum { MAX_THREADS = 4 };

struct Event {            // one record of the observation log; position in the log = global time
  uint8_t tid;            // 0 = main (setup / finish), 1..n = worker
  uint8_t kind;
  int16_t a;
  int32_t b;
  int32_t c;
};

// ---- callable from harness code while an execution is running
void log(int kind, int a = 0, int b = 0, int c = 0);
// Observation clock. An "end" event never commutes with a "begin" event (and "both" with neither), so
// the relative order of ends and begins in the log is part of the explored state; these three are
// scheduling points. log() only records.
void log_end(int kind, int a = 0, int b = 0, int c = 0);
void log_begin(int kind, int a = 0, int b = 0, int c = 0);
void log_both(int kind, int a = 0, int b = 0, int c = 0);
void point();                                   // explicit scheduling point
int  tid();                                     // current thread
int  locks_held();                              // mutexes held by the current thread
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void check(bool ok, const char* what);          // fail(what) if !ok
size_t live_blocks();                           // arena blocks currently allocated
long live_mutexes();                            // initialised and not destroyed
uint64_t alloc_count();                         // allocations made so far in this execution
void fault_arm(long n);                         // the n-th (1-based) faultable step from now throws
void fault_disarm();
bool fault_fired();
long fault_steps();                             // faultable steps seen since fault_arm
void fault_point();                             // user-code faultable step (throws mc::injected)
bool in_arena(const void* p);
void unchecked_begin();                         // suppress race/memory reports for the current thread
void unchecked_end();
struct injected {};                             // the exception thrown by fault_point()

// ---- a closed test
struct Test {
  virtual ~Test() {}
  virtual int threads() const { return 0; }
  virtual void setup() = 0;                     // runs alone, first
  virtual void thread(int) {}                   // worker i in 0..threads()-1
  virtual void finish() {}                      // runs alone, after all workers ended
  // Oracle: runs outside the execution (plain heap), on its log. Empty string = fine.
  virtual std::string oracle(const std::vector<Event>&) { return ""; }
  virtual std::string describe(const Event& e) const;
  // is a failure reported by the engine or the harness one that this test judges? Others only end the execution.
  virtual bool relevant(const std::string&) const { return true; }
  virtual uint64_t outcome(const std::vector<Event>&) const;  // observed outcome class
};

struct Options {
  int preemptions = -1;        // -1 = unbounded
  double seconds = 0;          // 0 = no limit
  uint64_t max_exec = 0;
  uint64_t steps = 40000000;   // accesses of one execution beyond which it counts as not terminating
  bool races = true;           // data races are failures
  bool racepoints = false;     // instead: accesses to racy locations become scheduling points
  bool memory = true;
  bool state_cache = true;
};

struct Result {
  uint64_t executions = 0, complete = 0, pruned = 0, points = 0, states = 0, transitions = 0;
  uint64_t outcomes = 0, accesses = 0, restarts = 0, max_points = 0;
  bool exhausted = true;
  bool violation = false;
  uint64_t racy = 0; std::vector<long> locs;           // racy words; the locations that make up the scheduling points (for replay)
  uint64_t ignored = 0; std::string ignored_message;   // executions ended by a failure the test does not judge
  std::string message;         // first violation
  std::vector<int> schedule;   // its choices
  std::string trace;           // readable
  bool deterministic = true;
};

Result explore(Test& t, const Options& o);
// run once along a schedule (first choice beyond its end)
Result replay(Test& t, const Options& o, const std::vector<int>& schedule, const std::vector<long>& locs = std::vector<long>());

void init();                   // call first thing in main()
}
#endif
