// vrt: a deterministic runtime for the real code.
//
// The code under test is compiled with -fsanitize=thread (compile only) so that
// every access to memory and every atomic operation calls a __tsan_* function.
// vrt provides those functions, and pthread/clock/sleep, itself: all threads are
// fibers of one OS thread, every access to shared memory (the arena), every
// atomic operation and every blocking call is a scheduling point, the clock is
// virtual, and the schedule is chosen by an explorer (systematic with a bound
// on preemptions, or random).  Any failure is reproduced by its choices.
#ifndef VRT_H
#define VRT_H
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vrt {

// ---- shared memory -------------------------------------------------------
void *arena_alloc(size_t size, size_t align = 64); // garbage-filled, shared
void share(void *p, size_t n);                     // additional shared range
void learn(bool on);  // true: record who uses which word; false: only words in conflict are points
void no_filter();

// ---- one execution ---------------------------------------------------------
struct Limits {
  long max_steps = 20000;   // scheduling points before the run counts as stuck
  long max_run = 1500;      // points of one thread in a row without a yield
  int64_t max_time = INT64_MAX; // virtual time at which a run ends
};
enum Outcome { FINISHED, STUCK, TIME_UP, CRASHED };

void begin(const Limits &);            // resets arena, clock and threads
int spawn(std::function<void()> f);    // before or during run()
Outcome run();                         // until every thread is done
const char *outcome_detail();
int self();
long steps();
bool in_fiber();
// run with scheduling points disabled (harness bookkeeping)
struct Quiet { Quiet(); ~Quiet(); };
void stop_run();                       // ends the execution from inside a fiber

// ---- threads the code created, with their attributes -----------------------
struct Created { int policy, prio, inherit, detach; size_t stack; };
extern std::vector<Created> created;
extern size_t min_stack; // what the system asks for (as on Linux)
extern int other_max;    // the highest priority of SCHED_OTHER

// ---- virtual time (ns) -----------------------------------------------------
int64_t now();                 // without advancing
void set_clock(int64_t start, int64_t per_read); // each clock read advances by per_read
void set_cost(int64_t per_point); // each scheduling point advances by this much
void advance(int64_t ns);
extern long clock_reads;
extern int spurious_budget;    // injected wake-ups of timed waits still allowed
extern int late_budget;        // injected late wake-ups still allowed
extern std::vector<int64_t> late_by;                     // by how much (ns)
extern std::vector<std::pair<int64_t, int64_t>> jumps;   // the late wake-ups: due, woken

// ---- exploration -----------------------------------------------------------
struct Explorer {
  // systematic search over schedules with at most `bound` preemptions
  void systematic(int bound);
  void random(uint64_t seed, int style);
  // the given threads, one after the other, for so many points each; then the
  // others to their end; then those, in the same order, to theirs
  void segments(const std::vector<std::pair<int, long>> &);
  bool segment_was_short(size_t i); // thread i was over before its points
  bool next();                 // prepare the next schedule; false when exhausted
  long executions = 0;
};
extern Explorer explorer;
std::string schedule();        // the choices of this execution
long choose(long n);           // an explored nondeterministic choice (0 is the default)
} // namespace vrt
#endif
