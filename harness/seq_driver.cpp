// Sequential conformance driver.  Executes operation sequences on the real
// rtmlib objects through their public API and writes what they did as a trie:
// one node per executed operation, with its arguments, its reply and the
// observable state after it.  spec/SeqTrace.tla replays the trie against the
// specification.
//
//   seq_driver SCENARIOS OUT
//
// The scenarios (which sequences to run) are generated by tools/scenarios.py.
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>

#include "vclock.h"

#include <circularbuffer.h>
#include <event.h>
#include <reader.h>
#include <writer.h>
#include <rmtld3/reader.h>

int count_until_iterations;

// the output of what is there for diagnosis; nothing where it is to be compared
// with a history without diagnosis
#ifdef NO_DEBUG_CALLS
#define SHOW(x) (void)(x)
#else
#define SHOW(x) (x).debug()
#endif

// Events that know whether they exist, to see what is shown to the user.
#include <set>
static std::set<const void *> existing;
static long foreign; // what was shown although there is no event
template <typename D> struct Watched : Event<D> {
  Watched() { existing.insert(this); }
  Watched(const D &d, const timespan &t) : Event<D>(d, t) { existing.insert(this); }
  Watched(const Watched &o) : Event<D>(o) { existing.insert(this); }
  Watched &operator=(const Watched &o) = default;
  ~Watched() { existing.erase(this); }
  void debug() const {
    if (!existing.count(this)) {
      foreign++;
      return;
    }
    Event<D>::debug();
  }
};
#ifdef WATCH
#define EVENT Watched
#else
#define EVENT Event
#endif

// While a payload is copied, other objects of the same types are used now and
// then (as by a thread that preempts this one): nothing is to depend on them.
static void (*other_use)();
static unsigned copies, uses;
static void copied() {
  if (other_use && ++copies % 2 == 0) {
    void (*f)() = other_use;
    other_use = 0;
    f();
    other_use = f;
  }
}

struct Big { // a payload of several words that has to be copied by its own operations
  int a;
  char pad[13];
  long b;
  const Big *self;
  Big() : a(0), b(0), self(this) { memset(pad, 0, sizeof pad); }
  Big(int x) : a(x), b((long)x * 3), self(this) { memset(pad, x & 0x7f, sizeof pad); }
  Big(const Big &o) : self(this) { take(o); }
  Big &operator=(const Big &o) {
    copied();
    const bool mine = self == this; // no object was made here otherwise
    take(o);
    if (!mine)
      b = -1;
    self = this;
    copied();
    return *this;
  }
  bool operator==(const Big &o) const {
    return a == o.a && b == o.b && !memcmp(pad, o.pad, sizeof pad);
  }

private:
  void take(const Big &o) {
    const bool its = o.self == &o;
    a = o.a;
    memcpy(pad, o.pad, sizeof pad);
    b = its ? o.b : -1;
  }
};
template <typename D> int to_int(const D &d) { return (int)d; }
template <> int to_int<Big>(const Big &d) {
  for (char c : d.pad)
    if (c != (char)(d.a & 0x7f))
      return -9;
  return d.b == (long)d.a * 3 && d.self == &d ? d.a : -9;
}

enum Op {
  ROOT = 0, BPUSH = 1, BPULL, BPOP, BREAD, BWRITE, BSTATE, BSTATE4, BLEN,
  NEWW = 9, DELW, WPUSH, WPUSHALL, ASSIGN, RENEWB, BDEBUG, EDEBUG,
  NEWR = 20, SYNC, RPULL, RPOP, RGAP, RLEN, RDEBUG,
  CRESET = 30, CSET, CINC, CDEC, CPULL, CREAD, CNEXT, CPREV, CLEN, CCONS, CSETCUR, CDEBUG,
  // many calls in one step; what each of them returned is listed after the node
  MPUSH = 50, MWPUSH, MPULL, MPOP, MRPULL, MRPOP, MCINC, MCDEC, MCPULL
};
static const long FRESH_D = -1000001, FRESH_T = -1000002;

struct Step { int op; long a, b, c, d; };
struct Node {
  Step s;
  long ret;
  long o[4];
  long fc, nc;
  std::vector<long> obs;
};
struct Scenario {
  int N = 1, dt = 0, nb = 1;
  int64_t base = 0, scale = 1;
  std::vector<Step> prefix, alpha;
  int depth = 0, len = 0, count = 0;
  unsigned seed = 1;
  int obs = 1; // 0 none, 1 full, k>1: every k-th step of a walk
};

static std::vector<Step> current; // the history being executed
static void report(const char *why) {
  char buf[200];
  int n = snprintf(buf, sizeof buf, "%s while executing (op a b c d):", why);
  if (write(2, buf, n) < 0) _exit(98);
  for (auto &t : current) {
    n = snprintf(buf, sizeof buf, " [%d %ld %ld %ld %ld]", t.op, t.a, t.b, t.c, t.d);
    if (write(2, buf, n) < 0) _exit(98);
  }
  if (write(2, "\n", 1) < 0) _exit(98);
  _exit(97);
}
static void on_signal(int sig) {
  report(sig == SIGVTALRM ? "HANG (10 s of CPU time without finishing)" : "CRASH");
}
static void arm() {
  struct itimerval it = {{0, 0}, {10, 0}};
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
static std::vector<Node> nodes;
static std::vector<long> roots;
// -1000-k stands for 2^32+k
static size_t place(long v) { return v <= -1000 ? ((size_t)1 << 32) + (size_t)(-1000 - v) : (size_t)v; }
static const int SENT_D = 99; // what the caller's event holds before a call
#define SENT_T vclock::ns_of(777777)

#ifdef PORT_ARM
struct Low {
  char *base = (char *)mmap(0, 64 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_32BIT, -1, 0);
  size_t used = 0;
  void *take(size_t n) {
    void *p = base + used;
    used += n;
    if (used > 64 << 20) abort();
    return p;
  }
} low;
#endif

struct WorldBase {
  virtual ~WorldBase() {}
  int more = 0; // pushes of a step beyond the first
  virtual void exec(const Step &, int depth, Node &out) = 0;
  virtual void observe(Node &out, bool contents) = 0;
};

template <typename D, size_t N> struct Others {
  typedef RTML_buffer<EVENT<D>, N> Buf;
  static void use() {
    static Buf b, c;
    static RTML_writer<Buf> w(b);
    static RMTLD3_reader<RTML_reader<Buf>> r(b);
    RTML_reader<Buf> &q = r;
    // times before and after those of the objects under test
    EVENT<D> e(D((int)(uses % 50)), vclock::ns_of(uses % 5 ? uses % 3 : uses));
    size_t x, y;
    timespanw t1, t2;
    timespan at = vclock::ns_of(uses);
    switch ((uses++ * 7 + uses / 16) % 16) {
    case 0: b.push(e); break;
    case 1: case 2: w.push_all(e); w.push_all(e); break;
    case 3: case 4: r.synchronize(); break;
    case 5: q.pull(e); break;
    case 6: r.pull(e); break;
    case 7: r.reset(); break;
    case 8: r.set(at); break;
    case 9: r.increment_cursor(); break;
    case 10: r.read(e); r.read_next(e); break;
    case 11: r.read_previous(e); r.decrement_cursor(); break;
    case 12: b.state(x, y, t1, t2); q.gap(); break;
    case 13: c = b; c.pull(e); break;
    case 14: c.pop(e); c.write(e, uses % N); c.read(e, 0); break;
    case 15: if (uses % 3 == 0) q.pop(e); else if (uses % 3 == 1) b.pull(e); break;
    }
    if (uses % 2)
      q.pull(e);
    else
      r.set(at);
  }
};
static void others(WorldBase *, void *) { other_use = 0; }
template <size_t N> static void others(WorldBase *, RTML_buffer<EVENT<Big>, N> *) { other_use = Others<Big, N>::use; }

template <typename D, size_t N> struct World : WorldBase {
  typedef RTML_buffer<EVENT<D>, N> Buf;
  typedef RTML_writer<Buf> Wr;
  typedef RMTLD3_reader<RTML_reader<Buf>> Rd;
  typedef EVENT<D> Ev;
  std::vector<Buf *> bufs;
  std::vector<Wr *> wrs;
  std::vector<Rd *> rds;
  std::vector<void *> mem;
  static const size_t GUARD = 256;
  // objects live in memory that was full of garbage before construction, and
  // is full of garbage again after destruction
  template <typename X> void *raw() {
    const size_t sz = (sizeof(X) + 63) / 64 * 64 + 2 * GUARD;
#ifdef PORT_ARM // pointers have 32 bits
    char *p = (char *)low.take(sz);
#else
    char *p = (char *)aligned_alloc(64, sz);
#endif
    memset(p, 0xA5, sz);
    mem.push_back(p);
    return p + GUARD;
  }
  World(int nb) {
    for (int i = 0; i < nb; i++)
      bufs.push_back(new (raw<Buf>()) Buf());
    others(this, bufs[0]);
  }
  ~World() {
    other_use = 0;
#ifdef PORT_ARM
    low.used = 0;
#else
    for (auto p : mem)
      free(p);
#endif
    existing.clear();
  }
  void put(Node &n, int i, const Ev &e) {
    n.o[i] = to_int(e.getData());
    n.o[i + 1] = vclock::decode(e.getTime());
    if (n.o[i] == SENT_D && n.o[i + 1] == 777777)
      n.o[i] = n.o[i + 1] = -1; // untouched
  }
  Ev sent() { return Ev(D(SENT_D), SENT_T); }
  void exec(const Step &s, int depth, Node &n) override {
    Step t = s;
    for (long *p : {&t.a, &t.b, &t.c, &t.d}) {
      if (*p == FRESH_D)
        *p = depth % 90 + 1;
      if (*p == FRESH_T)
        *p = 2 * depth + 2;
    }
    n.s = t;
    current.push_back(t);
    more = 0;
    n.ret = 0;
    for (auto &x : n.o)
      x = 0;
    Ev e = sent();
    switch (s.op) {
    case BPUSH: {
      const Ev ev(D(t.b), vclock::ns_of(t.c));
      n.ret = bufs[t.a]->push(ev);
      break;
    }
    case BPULL: n.ret = bufs[t.a]->pull(e); put(n, 0, e); break;
    case BPOP: n.ret = bufs[t.a]->pop(e); put(n, 0, e); break;
    case BREAD: n.ret = bufs[t.a]->read(e, place(t.b)); put(n, 0, e); break;
    case BWRITE: {
      Ev ev(D(t.c), vclock::ns_of(t.d));
      if (place(t.b) <= N) {
        n.ret = bufs[t.a]->write(ev, place(t.b));
        break;
      }
      // beyond the capacity: nothing of the buffer or around it may change
      const char *from = (char *)bufs[t.a] - GUARD;
      std::vector<char> before(from, from + sizeof(Buf) + 2 * GUARD);
      n.ret = bufs[t.a]->write(ev, place(t.b));
      n.o[0] = memcmp(before.data(), from, before.size()) != 0;
      break;
    }
    case BSTATE: {
      size_t b = 55, tt = 55;
      n.ret = bufs[t.a]->state(b, tt);
      n.o[0] = b; n.o[1] = tt;
      break;
    }
    case BSTATE4: {
      size_t b = 55, tt = 55;
      timespanw ts = 55, tst = 55;
      n.ret = bufs[t.a]->state(b, tt, ts, tst);
      n.o[0] = b; n.o[1] = tt;
      n.o[2] = vclock::decode(ts); n.o[3] = vclock::decode(tst);
      break;
    }
    case BLEN: n.ret = bufs[t.a]->length(); break;
    case NEWW: wrs.push_back(new (raw<Wr>()) Wr(*bufs[t.a])); break;
    case DELW: {
      if (wrs.size() <= (size_t)t.a || !wrs[t.a]) { n.ret = -1; break; }
      wrs[t.a]->~Wr();
      memset((void *)wrs[t.a], 0xCD, sizeof(Wr));
      wrs[t.a] = nullptr;
      break;
    }
    case WPUSH: {
      if (wrs.size() <= (size_t)t.a || !wrs[t.a]) { n.ret = -1; break; }
      Ev ev(D(t.b), 0);
      n.o[2] = vclock::tick;
#ifndef PORT_HW // (there it is push_all only)
      n.ret = wrs[t.a]->push(ev);
#endif
      n.o[3] = vclock::tick;
      put(n, 0, ev);
      break;
    }
    case WPUSHALL: {
      if (wrs.size() <= (size_t)t.a || !wrs[t.a]) { n.ret = -1; break; }
      Ev ev(D(t.b), vclock::ns_of(t.c));
      n.ret = wrs[t.a]->push_all(ev);
      put(n, 0, ev);
      break;
    }
    case ASSIGN: *bufs[t.a] = *bufs[t.b]; break;
    case RENEWB: { // destroy a buffer and build a new one in the same memory
      bufs[t.a]->~Buf();
      memset((void *)bufs[t.a], 0xCD, sizeof(Buf));
      new (bufs[t.a]) Buf();
      break;
    }
    case BDEBUG: SHOW(*bufs[t.a]); break;
    case EDEBUG: { // of an event as it is in the buffer
      bufs[t.a]->read(e, place(t.b));
      const Ev before = e;
      SHOW(e);
      n.ret = before == e;
      break;
    }
    case RDEBUG: SHOW(*(const RTML_reader<Buf> *)rds[t.a]); break;
    case CDEBUG: SHOW(*rds[t.a]); break;
    case NEWR: rds.push_back(new (raw<Rd>()) Rd(*bufs[t.a])); break;
    case SYNC: n.ret = rds[t.a]->synchronize(); break;
    case RPULL: n.ret = rds[t.a]->RTML_reader<Buf>::pull(e); put(n, 0, e); break;
    case RPOP: n.ret = rds[t.a]->pop(e); put(n, 0, e); break;
    case RGAP: n.ret = rds[t.a]->gap(); break;
    case RLEN: n.ret = rds[t.a]->RTML_reader<Buf>::length(); break;
    case CRESET: n.ret = rds[t.a]->reset(); break;
    case CSET: {
      timespan at = vclock::ns_of(t.b);
      n.ret = rds[t.a]->set(at);
      n.o[0] = vclock::decode(at); // the argument must come back unchanged
      break;
    }
    case CINC: n.ret = rds[t.a]->increment_cursor(); break;
    case CDEC: n.ret = rds[t.a]->decrement_cursor(); break;
    case CPULL: n.ret = rds[t.a]->pull(e); put(n, 0, e); break;
    case CREAD: n.ret = rds[t.a]->read(e); put(n, 0, e); break;
    case CNEXT: n.ret = rds[t.a]->read_next(e); put(n, 0, e); break;
    case CPREV: n.ret = rds[t.a]->read_previous(e); put(n, 0, e); break;
    case CLEN: n.ret = rds[t.a]->length(); break;
    case CCONS: n.ret = rds[t.a]->consumed(); break;
    case CSETCUR: {
      size_t c = place(t.b);
      n.ret = rds[t.a]->set_cursor(c);
      break;
    }
    case MPUSH: case MWPUSH:
      for (long j = 0; j < t.d; j++) {
        Ev ev(D((t.b + j) % 90 + 1), vclock::ns_of(t.c + 2 * j));
        n.obs.push_back(s.op == MPUSH ? bufs[t.a]->push(ev) : wrs[t.a]->push_all(ev));
      }
      more = t.d;
      break;
    case MPULL: case MPOP: case MRPULL: case MRPOP: case MCPULL:
      for (long j = 0; j < t.b; j++) {
        Ev ev = sent();
        Node x{};
        n.obs.push_back(s.op == MPULL ? (long)bufs[t.a]->pull(ev) : s.op == MPOP ? (long)bufs[t.a]->pop(ev)
                        : s.op == MRPULL ? (long)rds[t.a]->RTML_reader<Buf>::pull(ev)
                        : s.op == MRPOP ? (long)rds[t.a]->pop(ev) : (long)rds[t.a]->pull(ev));
        put(x, 0, ev);
        n.obs.push_back(x.o[0]);
        n.obs.push_back(x.o[1]);
        if (s.op == MCPULL)
          n.obs.push_back((long)rds[t.a]->get_cursor());
      }
      break;
    case MCINC: case MCDEC:
      for (long j = 0; j < t.b; j++) {
        n.obs.push_back(s.op == MCINC ? rds[t.a]->increment_cursor() : rds[t.a]->decrement_cursor());
        n.obs.push_back((long)rds[t.a]->get_cursor());
      }
      break;
    default: fprintf(stderr, "bad op %d\n", s.op); exit(3);
    }
    if (s.op == BDEBUG || s.op == EDEBUG || s.op == RDEBUG || s.op == CDEBUG)
      n.o[0] = foreign, foreign = 0;
    if (s.op >= 30 && s.op < 50)
      n.o[3] = (long)rds[t.a]->get_cursor();
  }
  void observe(Node &n, bool contents) override {
    for (auto b : bufs) {
      size_t bo = 0, to = 0;
      b->state(bo, to);
      n.obs.push_back(bo);
      n.obs.push_back(to);
      n.obs.push_back(b->length());
      if (contents)
        for (size_t i = 0; i <= N; i++) {
          Ev e = sent();
          b->read(e, i);
          n.obs.push_back(to_int(e.getData()));
          n.obs.push_back(vclock::decode(e.getTime()));
        }
    }
  }
};

#define CASE(D, k) case k: return new World<D, k>(nb);
WorldBase *mk(int N, int dt, int nb) {
#ifdef SMALL
  switch (N) { CASE(int, 1) CASE(int, 2) CASE(int, 3) CASE(int, 5) CASE(int, 31) CASE(int, 300) }
#else
  if (dt == 0)
    switch (N) {
      CASE(int, 1) CASE(int, 2) CASE(int, 3) CASE(int, 4) CASE(int, 5) CASE(int, 7)
      CASE(int, 31) CASE(int, 100) CASE(int, 256) CASE(int, 300)
      CASE(int, 1000) CASE(int, 65535) CASE(int, 65536) CASE(int, 70000)
    }
  else if (dt == 1)
    switch (N) { CASE(uint8_t, 2) CASE(uint8_t, 3) CASE(uint8_t, 255) }
  else
    switch (N) { CASE(Big, 2) CASE(Big, 3) CASE(Big, 5) }
#endif
#undef CASE
  fprintf(stderr, "bad N\n");
  exit(3);
}
WorldBase *make(const Scenario &s) {
  vclock::base = s.base;
  vclock::scale = s.scale;
  vclock::tick = 1;
  return mk(s.N, s.dt, s.nb);
}

// run prefix + path; fill `out` for the last step
static void run_path(const Scenario &s, const std::vector<int> &path, Node *out, bool obs) {
  current.clear();
  arm();
  std::unique_ptr<WorldBase> w(make(s));
  int depth = 0;
  Node tmp;
  for (auto &p : s.prefix)
    w->exec(p, depth, tmp), depth += 1 + w->more;
  for (size_t i = 0; i < path.size(); i++) {
    Node &n = i + 1 == path.size() ? *out : tmp;
    w->exec(s.alpha[path[i]], depth, n), depth += 1 + w->more;
  }
  if (obs)
    w->observe(*out, true);
}

static void scenario(const Scenario &s) {
  Node root{};
  root.s = {ROOT, s.N, s.nb, 0, 0};
  if (s.len == 0) {
    long cur = nodes.size();
    roots.push_back(cur);
    nodes.push_back(root);
    // prefix as a chain
    for (size_t i = 0; i < s.prefix.size(); i++) {
      Scenario t = s;
      t.prefix.assign(s.prefix.begin(), s.prefix.begin() + i);
      t.alpha = {s.prefix[i]};
      Node n{};
      run_path(t, {0}, &n, s.obs);
      nodes[cur].fc = nodes.size();
      nodes[cur].nc = 1;
      cur = nodes.size();
      nodes.push_back(n);
    }
    // breadth-first so that the children of a node are consecutive
    std::vector<std::pair<long, std::vector<int>>> level{{cur, {}}}, next;
    for (int d = 0; d < s.depth; d++) {
      next.clear();
      for (auto &lp : level) {
        nodes[lp.first].fc = nodes.size();
        nodes[lp.first].nc = s.alpha.size();
        for (size_t k = 0; k < s.alpha.size(); k++) {
          auto path = lp.second;
          path.push_back(k);
          Node n{};
          run_path(s, path, &n, s.obs);
          next.push_back({(long)nodes.size(), path});
          nodes.push_back(n);
        }
      }
      level.swap(next);
    }
  } else {
    std::mt19937 rng(s.seed);
    for (int c = 0; c < s.count; c++) {
      current.clear();
      arm();
      std::unique_ptr<WorldBase> w(make(s));
      long cur = nodes.size();
      roots.push_back(cur);
      nodes.push_back(root);
      int depth = 0;
      int burst = 0;
      size_t k = 0;
      for (int i = 0; i < s.len + (int)s.prefix.size(); i++) {
        Node n{};
        if (i < (int)s.prefix.size())
          w->exec(s.prefix[i], depth, n), depth += 1 + w->more;
        else {
          if (burst-- <= 0) { // repeat an operation for a while, now and then
            k = rng() % s.alpha.size();
            burst = rng() % 6 == 0 ? rng() % (2 * s.N + 3) : 0;
          }
          w->exec(s.alpha[k], depth, n), depth += 1 + w->more;
        }
        if (s.obs)
          w->observe(n, s.obs == 1 || i % s.obs == 0);
        nodes[cur].fc = nodes.size();
        nodes[cur].nc = 1;
        cur = nodes.size();
        nodes.push_back(n);
      }
    }
  }
}

int main(int argc, char **argv) {
  for (int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM})
    signal(sg, on_signal);
  std::ifstream in(argv[1]);
  std::string line;
  std::vector<Scenario> all;
  Scenario s;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    auto step = [&]() {
      Step t{};
      is >> t.op >> t.a >> t.b >> t.c >> t.d;
      return t;
    };
    if (k == "S") { s = Scenario(); is >> s.N >> s.dt >> s.nb >> s.base >> s.scale >> s.obs; }
    else if (k == "P") s.prefix.push_back(step());
    else if (k == "A") s.alpha.push_back(step());
    else if (k == "D") { is >> s.depth; all.push_back(s); }
    else if (k == "R") { is >> s.len >> s.count >> s.seed; all.push_back(s); }
  }
  for (auto &x : all)
    scenario(x);
  FILE *o = fopen(argv[2], "w");
  fprintf(o, "{\"roots\":[");
  for (size_t i = 0; i < roots.size(); i++)
    fprintf(o, "%s%ld", i ? "," : "", roots[i] + 1);
  fprintf(o, "],\"nodes\":[\n");
  for (size_t i = 0; i < nodes.size(); i++) {
    auto &n = nodes[i];
    fprintf(o, "%s[%d,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld", i ? ",\n" : "",
            n.s.op, n.s.a, n.s.b, n.s.c, n.s.d, n.ret, n.o[0], n.o[1], n.o[2],
            n.o[3], n.nc ? n.fc + 1 : 0, n.nc);
    for (long x : n.obs)
      fprintf(o, ",%ld", x);
    fprintf(o, "]");
  }
  fprintf(o, "\n]}\n");
  fclose(o);
  return 0;
}
