#include "vrt.h"
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

// This file is compiled WITHOUT -fsanitize=thread.
extern "C" void vrt_switch(void **save_sp, void *load_sp);
asm(R"(
.text
.globl vrt_switch
.type vrt_switch,@function
vrt_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vrt_switch,.-vrt_switch
)");

namespace vrt {
enum St { RUNNABLE, SLEEPING, CONDWAIT, MUTEXWAIT, JOINWAIT, DONE };
static const size_t STACK = 256 * 1024;
size_t min_stack = 16384;
int other_max = 0;
static const int MAXT = 24;
struct Fiber {
  char *stack = nullptr;
  void *sp = nullptr;
  std::function<void()> fn;
  void *(*start)(void *) = nullptr;
  void *arg = nullptr;
  void *ret = nullptr;
  St st = DONE;
  int64_t until = 0; // wake-up time of a sleep or timed wait
  void *obj = nullptr;  // condition variable or mutex or thread waited for
  void *mtx = nullptr;
  bool timed = false;
  int wake = 0; // how a condition wait ended
  long since_yield = 0;
  bool joined = false, detached = false;
};
static Fiber fib[MAXT];
static int nfib, cur = -1;
static void *main_sp;
static char *arena;
static size_t arena_used;
static const size_t ARENA = 4 << 20;
struct Range { uintptr_t lo, hi; };
static std::vector<Range> extra;
static Limits lim;
static Outcome outcome;
static std::string detail;
static long nsteps;
static int quiet;
static bool running;
static int64_t clk, per_read, per_point;
long clock_reads;
int spurious_budget, late_budget;
std::vector<int64_t> late_by;
std::vector<std::pair<int64_t, int64_t>> jumps;
std::vector<Created> created;
Explorer explorer;

// ---- choices ---------------------------------------------------------------
struct Ch { int n, pick, cost; };
static std::vector<Ch> trail;      // choices of this execution
static std::vector<int> forced;    // prefix to replay
static size_t fpos;
static bool sys_mode = true;
static int bound_, used_;
static bool first_run;
static std::mt19937_64 rng;
static int rstyle;
static double switch_p;
static std::vector<long> change_points;
static std::vector<int> prio;

void Explorer::systematic(int bound) {
  sys_mode = true;
  bound_ = bound;
  first_run = true;
  trail.clear();
  forced.clear();
}
void Explorer::random(uint64_t seed, int style) {
  sys_mode = false;
  rstyle = style;
  rng.seed(seed * 7919 + style);
}
// run the listed threads for so many points each, in that order; then the
// others to their end, then the listed ones
struct Seg { int thr; long at; };
static std::vector<Seg> segs;
static size_t seg_i;
static long seg_cnt;
static std::vector<char> seg_short; // a thread was over before its points
void Explorer::segments(const std::vector<std::pair<int, long>> &v) {
  sys_mode = false;
  rstyle = 100;
  segs.clear();
  for (auto &x : v)
    segs.push_back({x.first, x.second});
}
bool Explorer::segment_was_short(size_t i) { return seg_short[i]; }
bool Explorer::next() {
  executions++;
  seg_i = 0;
  seg_cnt = 0;
  seg_short.assign(segs.size(), 0);
  if (sys_mode) {
    if (first_run) {
      first_run = false;
      forced.clear();
    } else {
      // advance the last choice that has an alternative left within the bound
      int used = 0;
      std::vector<int> before(trail.size());
      for (size_t i = 0; i < trail.size(); i++) {
        before[i] = used;
        used += trail[i].pick ? trail[i].cost : 0;
      }
      long i = (long)trail.size() - 1;
      for (; i >= 0; i--)
        if (trail[i].pick + 1 < trail[i].n && before[i] + trail[i].cost <= bound_)
          break;
      if (i < 0)
        return false;
      forced.clear();
      for (long k = 0; k < i; k++)
        forced.push_back(trail[k].pick);
      forced.push_back(trail[i].pick + 1);
    }
  } else {
    switch_p = rstyle == 0 ? 0.02 : rstyle == 1 ? 0.1 : rstyle == 2 ? 0.3 : 0.0;
    change_points.clear();
    prio.clear();
    for (int i = 0; i < MAXT; i++)
      prio.push_back(rng() % 1000);
    if (rstyle >= 3) // priority-based, with a few priority changes
      for (int i = 0; i < rstyle; i++)
        change_points.push_back(rng() % (rstyle == 3 ? 120 : 400));
  }
  trail.clear();
  fpos = 0;
  used_ = 0;
  return true;
}
// n alternatives; alternative 0 is the default and costs nothing
static int pick(int n, int cost) {
  if (n <= 1)
    return 0;
  if (sys_mode) {
    int p = 0;
    if (fpos < forced.size()) {
      p = forced[fpos++];
      if (p >= n)
        p = 0;
    } else if (used_ + cost > bound_)
      return 0; // no budget: not a choice
    if (p)
      used_ += cost;
    trail.push_back({n, p, cost});
    return p;
  }
  return -1;
}
std::string schedule() {
  std::string s;
  if (!sys_mode && rstyle == 100)
    for (auto &x : segs)
      s += "thread " + std::to_string(x.thr + 1) + " for " + std::to_string(x.at) + " points; ";
  for (size_t i = 0; i < trail.size(); i++)
    if (trail[i].pick)
      s += std::to_string(i) + ":" + std::to_string(trail[i].pick) + " ";
  return s;
}
long choose(long n) {
  int p = pick(n, 1);
  if (p < 0 && rstyle == 100)
    return 0;
  return p < 0 ? (rng() % 4 ? 0 : rng() % n) : p;
}

// ---- memory ------------------------------------------------------------------
// Which threads read and wrote each word of the arena, over all executions of
// a scenario: with `filter` on, only words that some thread writes and another
// one uses are scheduling points.
static uint32_t rd_by[ARENA / 8], wr_by[ARENA / 8];
static bool filter, learning;
static void point();
static bool shared(const void *p) {
  uintptr_t a = (uintptr_t)p;
  if (a - (uintptr_t)arena < arena_used)
    return true;
  for (auto &r : extra)
    if (a >= r.lo && a < r.hi)
      return true;
  return false;
}
static inline void access(const void *p, size_t n, bool w, bool r = true) {
  if (cur < 0)
    return;
  uintptr_t a = (uintptr_t)p - (uintptr_t)arena;
  if (a < arena_used) {
    bool conflict = false;
    for (size_t i = a / 8; i <= (a + n - 1) / 8; i++) {
      if (learning) {
        if (r) rd_by[i] |= 1u << cur;
        if (w) wr_by[i] |= 1u << cur;
      }
      uint32_t all = rd_by[i] | wr_by[i];
      conflict = conflict || (wr_by[i] && (all & (all - 1)));
    }
    if (filter && !conflict)
      return;
    point();
  } else if (shared(p))
    point();
}
void learn(bool on) {
  if (on) {
    memset(rd_by, 0, sizeof rd_by);
    memset(wr_by, 0, sizeof wr_by);
  }
  learning = on;
  filter = !on;
}
void no_filter() { learning = filter = false; }
void *arena_alloc(size_t size, size_t align) {
  arena_used = (arena_used + align - 1) / align * align;
  void *p = arena + arena_used;
  arena_used += size;
  if (arena_used > ARENA) {
    fprintf(stderr, "arena exhausted\n");
    _exit(3);
  }
  memset(p, 0xA5, size);
  return p;
}
void share(void *p, size_t n) { extra.push_back({(uintptr_t)p, (uintptr_t)p + n}); }

// ---- scheduling --------------------------------------------------------------
static void to_main() {
  int c = cur;
  cur = -1;
  vrt_switch(&fib[c].sp, main_sp);
}
static void end_run(Outcome o, const std::string &d) {
  outcome = o;
  detail = d;
  running = false;
  if (cur >= 0)
    to_main(); // never resumed
}
void stop_run() { end_run(FINISHED, "stopped"); }
static void go(int t) {
  if (t == cur)
    return;
  int c = cur;
  cur = t;
  vrt_switch(&fib[c].sp, fib[t].sp);
}
static bool has_timer(const Fiber &f) {
  return f.st == SLEEPING || (f.st == CONDWAIT && f.timed);
}
static void wake_due() {
  for (int i = 0; i < nfib; i++)
    if (has_timer(fib[i]) && fib[i].until <= clk) {
      fib[i].wake = ETIMEDOUT;
      fib[i].st = RUNNABLE;
    }
}
// runnable threads other than c, in round-robin order after c
static int others(int c, int *out) {
  int n = 0;
  for (int k = 1; k <= nfib; k++) {
    int i = (c + k + nfib) % nfib;
    if (i != c && fib[i].st == RUNNABLE)
      out[n++] = i;
  }
  return n;
}
static bool step() {
  clk += per_point;
  if (++nsteps > lim.max_steps) {
    std::string d = "threads:";
    for (int i = 0; i < nfib; i++)
      d += " " + std::to_string(i) + "=" + std::to_string(fib[i].st);
    end_run(STUCK, "no end after " + std::to_string(nsteps - 1) + " scheduling points; " + d);
    return false;
  }
  if (clk > lim.max_time) {
    end_run(TIME_UP, "");
    return false;
  }
  wake_due();
  return true;
}
static bool listed(int t) {
  for (auto &s : segs)
    if (s.thr == t)
      return true;
  return false;
}
// whom to run when the segments are over
static int seg_next(int not_this) {
  for (int i = 0; i < nfib; i++)
    if (i != not_this && fib[i].st == RUNNABLE && !listed(i))
      return i;
  for (auto &s : segs)
    if (s.thr != not_this && fib[s.thr].st == RUNNABLE)
      return s.thr;
  return -1;
}
static void seg_point() {
  if (seg_i >= segs.size())
    return; // nobody is preempted any more
  while (seg_i < segs.size()) {
    int t = segs[seg_i].thr;
    if (fib[t].st != RUNNABLE)
      seg_short[seg_i] = 1;
    else if (t != cur) {
      go(t);
      return;
    } else if (seg_cnt++ < segs[seg_i].at)
      return;
    seg_i++;
    seg_cnt = 0;
  }
  int t = seg_next(cur);
  if (t >= 0)
    go(t);
}
// a point where the current thread could go on
static void point() {
  if (cur < 0 || quiet || !running)
    return;
  if (!step())
    return;
  int o[MAXT];
  int n = others(cur, o);
  Fiber &f = fib[cur];
  if (++f.since_yield > lim.max_run && n) { // spinning without yielding
    f.since_yield = 0;
    go(o[0]);
    return;
  }
  if (!n)
    return;
  int p = pick(n + 1, 1);
  if (p < 0) {
    if (rstyle == 100) {
      seg_point();
      return;
    }
    if (rstyle >= 3) {
      for (auto &cp : change_points)
        if (cp == nsteps)
          prio[cur] = -(int)(rng() % 1000) - 1;
      int best = cur;
      for (int i = 0; i < n; i++)
        if (prio[o[i]] > prio[best])
          best = o[i];
      go(best);
      return;
    }
    p = (rng() % 10000) < switch_p * 10000 ? 1 + rng() % n : 0;
  }
  if (p)
    go(o[p - 1]);
}
// the current thread cannot go on, or asked to let the others run
static void reschedule(bool yielding) {
  if (cur < 0 || quiet || !running)
    return;
  if (!step())
    return;
  fib[cur].since_yield = 0;
  if (rstyle >= 3 && rstyle < 100 && !sys_mode)
    prio[cur] -= 500; // yields lower the priority, so spinning cannot starve
  for (;;) {
    int o[MAXT];
    int n = others(cur, o);
    if (n == 0 && fib[cur].st == RUNNABLE)
      return; // alone
    if (n) {
      int p = pick(n, 1);
      if (p < 0) {
        p = rstyle == 100 ? 0 : rng() % n;
        if (rstyle == 100 && !yielding) { // the current thread waits or is over
          if (seg_i < segs.size() && segs[seg_i].thr == cur) {
            seg_short[seg_i++] = 1;
            seg_cnt = 0;
          }
          int t = seg_i < segs.size() && fib[segs[seg_i].thr].st == RUNNABLE ? segs[seg_i].thr : seg_next(cur);
          for (int i = 0; i < n; i++)
            if (o[i] == t)
              p = i;
        } else if (rstyle >= 3 && rstyle < 100)
          for (int i = 0; i < n; i++)
            if (prio[o[i]] > prio[o[p]])
              p = i;
      }
      go(o[p]);
      return;
    }
    // nobody can run: let time pass to the first timer
    int64_t t = INT64_MAX;
    for (int i = 0; i < nfib; i++)
      if (has_timer(fib[i]) && fib[i].until < t)
        t = fib[i].until;
    if (t == INT64_MAX) {
      end_run(STUCK, "deadlock: every thread waits and no timer is pending");
      return;
    }
    if (t > lim.max_time) {
      end_run(TIME_UP, "");
      return;
    }
    // a wait may end early without reason
    if (spurious_budget > 0) {
      int w[MAXT], m = 0;
      for (int i = 0; i < nfib; i++)
        if (fib[i].st == CONDWAIT)
          w[m++] = i;
      long p = m ? choose(m + 1) : 0;
      if (p) {
        spurious_budget--;
        long where = choose(4); // half way, at once, just before, a quarter
        if (t > clk)
          clk = where == 0 ? clk + (t - clk) / 2 : where == 1 ? clk : where == 2 ? t - 1 : clk + (t - clk) / 4;
        fib[w[p - 1]].wake = 0;
        fib[w[p - 1]].st = RUNNABLE;
        continue;
      }
    }
    if (late_budget > 0 && late_by.size() && t > clk) {
      long p = choose(late_by.size() + 1);
      if (p) {
        late_budget--;
        jumps.push_back({t, t + late_by[p - 1]});
        t += late_by[p - 1];
      }
    }
    if (t > clk)
      clk = t;
    wake_due();
  }
}
static void finish() {
  fib[cur].st = DONE;
  for (int i = 0; i < nfib; i++)
    if (fib[i].st == JOINWAIT && fib[i].obj == &fib[cur])
      fib[i].st = RUNNABLE;
  bool all = true;
  for (int i = 0; i < nfib; i++)
    all = all && fib[i].st == DONE;
  if (all) {
    end_run(FINISHED, "");
    return;
  }
  reschedule(false);
}
static void entry() {
  Fiber &f = fib[cur];
  if (f.start)
    f.ret = f.start(f.arg);
  else
    f.fn();
  finish();
  abort();
}
static int new_fiber() {
  if (nfib >= MAXT) {
    fprintf(stderr, "too many threads\n");
    _exit(3);
  }
  int t = nfib++;
  Fiber &f = fib[t];
  char *st = f.stack;
  f = Fiber();
  f.stack = st;
  if (!f.stack)
    f.stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  uintptr_t top = (uintptr_t)(f.stack + STACK) & ~(uintptr_t)15;
  void **sp = (void **)(top - 8);
  *--sp = (void *)entry; // return address of vrt_switch; stack aligned as after a call
  for (int i = 0; i < 6; i++)
    *--sp = nullptr;
  f.sp = sp;
  f.st = RUNNABLE;
  return t;
}
int spawn(std::function<void()> fn) {
  int t = new_fiber();
  fib[t].fn = std::move(fn);
  return t;
}
void begin(const Limits &l) {
  if (!arena)
    arena = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_32BIT, -1, 0); // for targets with small pointers
  arena_used = 0;
  extra.clear();
  lim = l;
  nfib = 0;
  cur = -1;
  nsteps = 0;
  quiet = 0;
  clock_reads = 0;
  jumps.clear();
  created.clear();
  running = false;
}
static sigjmp_buf crash_jmp;
static void on_crash(int sig) {
  if (running && cur >= 0)
    siglongjmp(crash_jmp, sig);
  _exit(99);
}
// one execution takes milliseconds: 20 s of CPU time without an end is none
static long nruns;
static bool hung = false;
static void on_tick(int sig) {
  static long last;
  static int same;
  if (!running || cur < 0 || nruns != last) {
    last = nruns;
    same = 0;
  } else if (++same >= 4)
    siglongjmp(crash_jmp, sig);
}
Outcome run() {
  static bool installed = false;
  nruns++;
  if (!installed) {
    installed = true;
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_size = 65536;
    ss.ss_sp = malloc(ss.ss_size);
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_crash;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
      sigaction(s, &sa, nullptr);
    sa.sa_handler = on_tick;
    sa.sa_flags |= SA_RESTART;
    sigaction(SIGVTALRM, &sa, nullptr);
    struct itimerval iv = {{5, 0}, {5, 0}};
    setitimer(ITIMER_VIRTUAL, &iv, nullptr);
  }
  if (nfib == 0)
    return FINISHED;
  if (hung) // one such execution says enough
    return outcome = CRASHED;
  running = true;
  int sig = sigsetjmp(crash_jmp, 1);
  if (sig) {
    running = false;
    cur = -1;
    outcome = CRASHED;
    hung = sig == SIGVTALRM;
    detail = sig == SIGVTALRM ? "no end after 20 s" : std::string("signal ") + strsignal(sig);
    return outcome;
  }
  int n0 = 0;
  if (sys_mode) {
    int p = pick(nfib, 1);
    n0 = p < 0 ? 0 : p;
  } else
    n0 = rstyle == 100 ? 0 : rng() % nfib;
  cur = n0;
  vrt_switch(&main_sp, fib[n0].sp);
  cur = -1;
  return outcome;
}
const char *outcome_detail() { return detail.c_str(); }
int self() { return cur; }
long steps() { return nsteps; }
bool in_fiber() { return cur >= 0; }
Quiet::Quiet() { quiet++; }
Quiet::~Quiet() { quiet--; }
int64_t now() { return clk; }
void set_clock(int64_t s, int64_t p) { clk = s; per_read = p; }
void set_cost(int64_t p) { per_point = p; }
void advance(int64_t ns) {
  clk += ns;
  wake_due();
}
} // namespace vrt

using namespace vrt;

// ---- the compiler's instrumentation --------------------------------------
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *) { access(p, 8, true); }
void __tsan_vptr_read(void **p) { access(p, 8, false); }
#define RW(n)                                                                  \
  void __tsan_read##n(void *p) { access(p, n, false); }                        \
  void __tsan_write##n(void *p) { access(p, n, true, false); }                 \
  void __tsan_read##n##_pc(void *p, void *) { access(p, n, false); }           \
  void __tsan_write##n##_pc(void *p, void *) { access(p, n, true, false); }    \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false); }              \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true, false); }       \
  void __tsan_volatile_read##n(void *p) { access(p, n, false); }               \
  void __tsan_volatile_write##n(void *p) { access(p, n, true, false); }        \
  void __tsan_read_write##n(void *p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (n) access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { if (n) access(p, n, true, false); }
// block operations may be interleaved in the middle
static void *copy_range(void *d, const void *s, size_t n, bool back) {
  size_t h = n / 2 / 8 * 8;
  if (cur < 0 || !(shared(d) || shared(s)) || back || h == 0) {
    if (n) { access(s, n, false); access(d, n, true, false); }
    return memmove(d, s, n);
  }
  access(s, h, false); access(d, h, true, false);
  memcpy(d, s, h);
  access((char *)s + h, n - h, false); access((char *)d + h, n - h, true, false);
  memcpy((char *)d + h, (char *)s + h, n - h);
  return d;
}
void *__tsan_memcpy(void *d, const void *s, size_t n) { return copy_range(d, s, n, false); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return copy_range(d, s, n, true); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) access(d, n, true, false); return memset(d, c, n); }

typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long a64;
typedef unsigned __int128 a128;
static inline void ap(const void *p, size_t n) {
  bool f = filter; filter = false; // always a scheduling point
  if (shared(p)) { access(p, n, true); } else point();
  filter = f;
}
#define AT(W, T)                                                               \
  T __tsan_atomic##W##_load(const volatile T *a, int) { ap((const void *)a, sizeof(T)); return *(T *)a; } \
  void __tsan_atomic##W##_store(volatile T *a, T v, int) { ap((const void *)a, sizeof(T)); *(T *)a = v; } \
  T __tsan_atomic##W##_exchange(volatile T *a, T v, int) { ap((const void *)a, sizeof(T)); T o = *(T *)a; *(T *)a = v; return o; } \
  T __tsan_atomic##W##_fetch_add(volatile T *a, T v, int) { ap((const void *)a, sizeof(T)); T o = *(T *)a; *(T *)a = o + v; return o; } \
  T __tsan_atomic##W##_fetch_sub(volatile T *a, T v, int) { ap((const void *)a, sizeof(T)); T o = *(T *)a; *(T *)a = o - v; return o; } \
  T __tsan_atomic##W##_fetch_and(volatile T *a, T v, int) { ap((const void *)a, sizeof(T)); T o = *(T *)a; *(T *)a = o & v; return o; } \
  T __tsan_atomic##W##_fetch_or(volatile T *a, T v, int) { ap((const void *)a, sizeof(T)); T o = *(T *)a; *(T *)a = o | v; return o; } \
  T __tsan_atomic##W##_fetch_xor(volatile T *a, T v, int) { ap((const void *)a, sizeof(T)); T o = *(T *)a; *(T *)a = o ^ v; return o; } \
  T __tsan_atomic##W##_fetch_nand(volatile T *a, T v, int) { ap((const void *)a, sizeof(T)); T o = *(T *)a; *(T *)a = ~(o & v); return o; } \
  int __tsan_atomic##W##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { \
    ap((const void *)a, sizeof(T)); if (*(T *)a == *c) { *(T *)a = v; return 1; } *c = *(T *)a; return 0; } \
  int __tsan_atomic##W##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { \
    ap((const void *)a, sizeof(T)); if (*(T *)a == *c) { *(T *)a = v; return 1; } *c = *(T *)a; return 0; } \
  T __tsan_atomic##W##_compare_exchange_val(volatile T *a, T c, T v, int, int) { \
    ap((const void *)a, sizeof(T)); T o = *(T *)a; if (o == c) *(T *)a = v; return o; }
AT(8, a8) AT(16, a16) AT(32, a32) AT(64, a64) AT(128, a128)
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) {}

// ---- time --------------------------------------------------------------------
static void rel(const struct timespec *t, int64_t &ns) { ns = (int64_t)t->tv_sec * 1000000000 + t->tv_nsec; }
int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  if (in_fiber()) {
    point();
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
      clk += per_read;
      if (!quiet)
        clock_reads++;
    }
  } else if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)
    clk += per_read;
  int64_t t = clk;
  if (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE)
    t = t / 3 + 17;
  ts->tv_sec = t / 1000000000;
  ts->tv_nsec = t % 1000000000;
  return 0;
}
int gettimeofday(struct timeval *tv, void *) noexcept {
  tv->tv_sec = clk / 1000000000;
  tv->tv_usec = clk % 1000000000 / 1000;
  return 0;
}
time_t time(time_t *t) noexcept {
  time_t r = clk / 1000000000;
  if (t)
    *t = r;
  return r;
}
static int do_sleep(int64_t until) {
  if (!in_fiber()) {
    if (until > clk)
      clk = until;
    return 0;
  }
  fib[cur].st = SLEEPING;
  fib[cur].until = until;
  reschedule(false);
  return 0;
}
int nanosleep(const struct timespec *t, struct timespec *rem) {
  int64_t ns;
  rel(t, ns);
  if (rem)
    rem->tv_sec = rem->tv_nsec = 0;
  return do_sleep(clk + ns);
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *rem) {
  int64_t ns;
  rel(t, ns);
  if (id == CLOCK_REALTIME)
    return do_sleep((flags & TIMER_ABSTIME) ? ns : clk + ns);
  return do_sleep((flags & TIMER_ABSTIME) ? (ns - 17) * 3 : clk + ns);
}
int usleep(useconds_t us) { return do_sleep(clk + (int64_t)us * 1000); }
unsigned sleep(unsigned s) { return do_sleep(clk + (int64_t)s * 1000000000); }
int sched_yield(void) noexcept { reschedule(true); return 0; }

// ---- threads -------------------------------------------------------------------
pthread_t pthread_self(void) noexcept { return (pthread_t)(in_fiber() ? cur + 1 : 1000); }
int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }
// Thread attributes, checked the way glibc checks them.
struct VAttr { int policy, prio, inherit, detach; size_t stack; };
static int prio_min(int p) { return p == SCHED_OTHER ? 0 : p == SCHED_FIFO || p == SCHED_RR ? 1 : -1; }
int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*f)(void *), void *arg) noexcept {
  point(); // before the thread exists
  VAttr a = {SCHED_OTHER, 0, PTHREAD_INHERIT_SCHED, PTHREAD_CREATE_JOINABLE, 0};
  if (at)
    memcpy(&a, at, sizeof a);
  if (a.inherit == PTHREAD_EXPLICIT_SCHED && (a.prio < prio_min(a.policy) || a.prio > (a.policy == SCHED_OTHER ? vrt::other_max : 99)))
    return EINVAL;
  int t = new_fiber();
  fib[t].detached = a.detach == PTHREAD_CREATE_DETACHED;
  vrt::created.push_back({a.policy, a.prio, a.inherit, a.detach, a.stack});
  fib[t].start = f;
  fib[t].arg = arg;
  *th = (pthread_t)(t + 1);
  point(); // the new thread may run before the creator goes on
  return 0;
}
int pthread_detach(pthread_t th) noexcept {
  long t = (long)th - 1;
  return t < 0 || t >= nfib ? ESRCH : fib[t].detached || fib[t].joined ? EINVAL : (fib[t].detached = true, 0);
}
int pthread_join(pthread_t th, void **ret) {
  point();
  long t = (long)th - 1;
  if (t < 0 || t >= nfib)
    return ESRCH;
  if (fib[t].joined || fib[t].detached)
    return EINVAL;
  if (t == cur)
    return EDEADLK;
  while (fib[t].st != DONE) {
    fib[cur].st = JOINWAIT;
    fib[cur].obj = &fib[t];
    reschedule(false);
  }
  fib[t].joined = true;
  if (ret)
    *ret = fib[t].ret;
  return 0;
}
void pthread_exit(void *r) {
  fib[cur].ret = r;
  finish();
  abort();
}
int pthread_attr_init(pthread_attr_t *at) noexcept {
  VAttr a = {SCHED_OTHER, 0, PTHREAD_INHERIT_SCHED, PTHREAD_CREATE_JOINABLE, 0};
  memcpy(at, &a, sizeof a);
  return 0;
}
int pthread_attr_destroy(pthread_attr_t *) noexcept { return 0; }
int pthread_attr_setschedpolicy(pthread_attr_t *at, int p) noexcept {
  return prio_min(p) < 0 ? EINVAL : (((VAttr *)at)->policy = p, 0);
}
int pthread_attr_setstacksize(pthread_attr_t *at, size_t n) noexcept {
  return n < vrt::min_stack ? EINVAL : (((VAttr *)at)->stack = n, 0);
}
int pthread_attr_setschedparam(pthread_attr_t *at, const struct sched_param *p) noexcept {
  int pol = ((VAttr *)at)->policy, x = p->sched_priority;
  return x < prio_min(pol) || x > (pol == SCHED_OTHER ? vrt::other_max : 99) ? EINVAL : (((VAttr *)at)->prio = x, 0);
}
int pthread_attr_setinheritsched(pthread_attr_t *at, int i) noexcept {
  return i != PTHREAD_INHERIT_SCHED && i != PTHREAD_EXPLICIT_SCHED ? EINVAL : (((VAttr *)at)->inherit = i, 0);
}
int pthread_attr_setdetachstate(pthread_attr_t *at, int d) noexcept {
  return d != PTHREAD_CREATE_JOINABLE && d != PTHREAD_CREATE_DETACHED ? EINVAL : (((VAttr *)at)->detach = d, 0);
}
int pthread_attr_getschedpolicy(const pthread_attr_t *at, int *p) noexcept { *p = ((VAttr *)at)->policy; return 0; }
int pthread_attr_getstacksize(const pthread_attr_t *at, size_t *n) noexcept { *n = ((VAttr *)at)->stack; return 0; }
int pthread_attr_getschedparam(const pthread_attr_t *at, struct sched_param *p) noexcept { p->sched_priority = ((VAttr *)at)->prio; return 0; }
int pthread_attr_getdetachstate(const pthread_attr_t *at, int *d) noexcept { *d = ((VAttr *)at)->detach; return 0; }
int pthread_setschedparam(pthread_t, int, const struct sched_param *) noexcept { return 0; }

// A mutex is its owner (thread+1) in the first word; a condition variable has
// no state of its own, its waiters are found among the threads.
struct VMutex { long owner; long magic; };
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) noexcept {
  point();
  memset(m, 0, sizeof *m);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *) noexcept { return 0; }
static void acquire(VMutex *m) {
  while (m->owner != 0) {
    fib[cur].st = MUTEXWAIT;
    fib[cur].obj = m;
    reschedule(false);
  }
  m->owner = cur + 1;
}
static void release(VMutex *m) {
  m->owner = 0;
  for (int i = 0; i < nfib; i++)
    if (fib[i].st == MUTEXWAIT && fib[i].obj == m)
      fib[i].st = RUNNABLE;
}
int pthread_mutex_lock(pthread_mutex_t *mm) noexcept {
  if (!in_fiber())
    return 0;
  point();
  acquire((VMutex *)mm);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *mm) noexcept {
  if (!in_fiber())
    return 0;
  point();
  VMutex *m = (VMutex *)mm;
  if (m->owner)
    return EBUSY;
  m->owner = cur + 1;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *mm) noexcept {
  if (!in_fiber())
    return 0;
  release((VMutex *)mm);
  point();
  return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) noexcept {
  point();
  memset(c, 0, sizeof *c);
  return 0;
}
int pthread_condattr_init(pthread_condattr_t *) noexcept { return 0; }
int pthread_condattr_destroy(pthread_condattr_t *) noexcept { return 0; }
int pthread_condattr_setclock(pthread_condattr_t *, clockid_t) noexcept { return 0; }
int pthread_cond_destroy(pthread_cond_t *) noexcept { return 0; }
static int cond_block(pthread_cond_t *c, pthread_mutex_t *m, bool timed, int64_t until) {
  point();
  if (timed && until <= clk) { // already due
    release((VMutex *)m);
    point();
    acquire((VMutex *)m);
    return ETIMEDOUT;
  }
  Fiber &f = fib[cur];
  release((VMutex *)m);
  f.st = CONDWAIT;
  f.obj = c;
  f.timed = timed;
  f.until = until;
  f.wake = 0;
  reschedule(false);
  int w = fib[cur].wake;
  acquire((VMutex *)m);
  return w;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_block(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
  if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000)
    return EINVAL;
  int64_t ns;
  rel(t, ns);
  return cond_block(c, m, true, ns);
}
int pthread_cond_signal(pthread_cond_t *c) noexcept {
  point();
  for (int i = 0; i < nfib; i++)
    if (fib[i].st == CONDWAIT && fib[i].obj == c) {
      fib[i].wake = 0;
      fib[i].st = RUNNABLE;
      break;
    }
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
  point();
  for (int i = 0; i < nfib; i++)
    if (fib[i].st == CONDWAIT && fib[i].obj == c) {
      fib[i].wake = 0;
      fib[i].st = RUNNABLE;
    }
  return 0;
}
} // extern "C"
