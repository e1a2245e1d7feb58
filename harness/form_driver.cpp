// Evaluates formulas built from the real operators on real traces.
//   form_driver CASES OUT
// compiled once per configuration: -DCFG_N= capacity, -DCFG_S= ns per tick,
// -DCFG_T= payload type ("hooked": every second evaluation is disturbed by one of
// another trace).  forms.inc (generated) holds the formulas.
//
// CASES:  O origin            time of tick 0, in ns
//         F k f1 .. fk        the formulas evaluated from here on
//         W how rot grow n p1 t1 .. pn tn  m i1 t1 .. im tm
//            how 0: buffer.push, 1: writer.push_all; rot: events pushed and
//            taken before (+2: left for the others to overwrite); grow 1: synchronize and evaluate after every event
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>

#include <circularbuffer.h>
#include <event.h>
#include <reader.h>
#include <writer.h>
#include <rmtld3/formulas.h>
#include <rmtld3/reader.h>

int count_until_iterations;

// A payload that notices when it is copied or compared: at one such moment of an
// evaluation, another evaluation runs (as that of a thread that preempts this one).
static long hooks, hook_at = -1;
static void (*hook)();
static void noticed() {
  if (hooks++ == hook_at && hook) {
    void (*h)() = hook;
    hook = 0;
    h();
  }
}
struct hooked {
  int v;
  hooked(long x = 0) : v((int)x) {}
  hooked(const hooked &o) : v(o.v) { noticed(); }
  hooked &operator=(const hooked &o) {
    noticed();
    v = o.v;
    noticed();
    return *this;
  }
  bool operator==(const hooked &o) const {
    noticed();
    return v == o.v;
  }
  bool operator==(const proposition &p) const {
    noticed();
    return (proposition)v == p;
  }
  explicit operator unsigned long() const { return (unsigned long)v; }
};

typedef Event<CFG_T> event_t;
typedef RTML_buffer<event_t, CFG_N> buffer_t;
typedef RMTLD3_reader<RTML_reader<buffer_t>, int> trace_t;

typedef long (*fun_t)(trace_t &, timespan &);
static long enc(const duration &d, timespan S) {
  long v = (long)d.first;
  if (v % S != 0 || v / S < 0 || v / S > 1000000)
    return 99;
  return 100 + 2 * (v / S) + (d.second ? 1 : 0);
}
static long enc(three_valued_type v, timespan) {
  return v == T_TRUE ? 0 : v == T_FALSE ? 1 : v == T_UNKNOWN ? 2 : 98;
}
#include "forms.inc"

static void hung(int) {
  static const char m[] = "an evaluation does not finish\n";
  if (write(2, m, sizeof m - 1)) {}
  _exit(42);
}

static std::string out;
static void num(long v) {
  char s[24];
  snprintf(s, sizeof s, "%ld", v);
  out += s;
}

// the other evaluation: of the same formula, on another trace
static fun_t other_form;
static unsigned others;
static void other() {
  static buffer_t buf;
  static trace_t *trace;
  if (!trace) {
    static int z;
    for (int k = 0; k < CFG_N; k++) {
      CFG_T d = (CFG_T)(long)(3 - k % 3);
      buf.push(event_t(d, CFG_S * (2 * k + 1)));
    }
    trace = new trace_t(buf, z);
    trace->synchronize();
  }
  trace->reset();
  unsigned pos = others++ % (CFG_N - 1);
  for (unsigned k = 0; k < pos; k++)
    trace->increment_cursor();
  timespan t = CFG_S * (2 * pos + 1);
  other_form(*trace, t);
}

int main(int argc, char **argv) {
  std::ifstream in(argv[1]);
  std::string line, op;
  const timespan S = CFG_S;
  timespan O = 0;
  std::vector<int> fs;
  bool firstrow = true;
  signal(SIGVTALRM, hung);
  out = "{\"rows\":[";
  while (std::getline(in, line)) {
    std::istringstream is(line);
    is >> op;
    if (op == "O") {
      is >> O;
    } else if (op == "F") {
      int k;
      is >> k;
      fs.assign(k, 0);
      for (int &x : fs)
        is >> x;
    } else if (op == "W") {
      struct itimerval iv = {{0, 0}, {60, 0}};
      setitimer(ITIMER_VIRTUAL, &iv, 0);
      int how, rot, grow, n, m;
      is >> how >> rot >> grow >> n;
      std::vector<std::pair<long, long>> ev(n), at;
      for (auto &x : ev)
        is >> x.first >> x.second;
      is >> m;
      at.resize(m);
      for (auto &x : at)
        is >> x.first >> x.second;

      // fresh memory that is not zero
      static char bm[sizeof(buffer_t) + 64];
      memset(bm, 0x5a, sizeof bm);
      buffer_t &buf = *new (bm + (64 - (size_t)bm % 64) % 64) buffer_t();
      {
        // (in the lowest 4 GB, with -no-pie)
        static char wm[sizeof(RTML_writer<buffer_t>) + 64];
        RTML_writer<buffer_t> &wr = *new (wm + (64 - (size_t)wm % 64) % 64) RTML_writer<buffer_t>(buf);
        auto put = [&](long p, timespan t) {
          CFG_T d = (CFG_T)p;
          event_t e(d, t);
          if (how & 1)
            wr.push_all(e);
          else
            buf.push(e);
        };
        int z = 0;
        trace_t trace(buf, z);
        for (int k = 0; k < rot; k++) {
          put(k % 5, O > 0 ? O - (rot - k) : 0);
          if (!(how & 2)) { // taken again
            event_t e;
            buf.pull(e);
          }
        }
        for (int k = n ? 0 : -1; k < n; k++) {
          if (k >= 0)
            put(ev[k].first, O + S * ev[k].second);
          if (!grow && k < n - 1)
            continue;
          trace.synchronize();
          trace.reset();
          size_t len = trace.length();
          // the window: what the buffer holds, at most n
          int lo = k + 1 - (int)len;
          if (!firstrow)
            out += ",\n";
          firstrow = false;
          out += "{\"g\":";
          num(grow && k > 0);
          out += ",\"w\":[";
          for (int j = lo; j <= k; j++) { // rot events that are still held are dummies
            if (j > lo)
              out += ",";
            out += "[";
            num(j < 0 ? -1 : ev[j].first);
            out += ",";
            num(j < 0 ? -1 : ev[j].second);
            out += "]";
          }
          out += "],\"f\":[";
          for (size_t i = 0; i < fs.size(); i++) {
            if (i)
              out += ",";
            num(fs[i]);
          }
          out += "],\"e\":[";
          bool firste = true;
          for (auto &q : at) {
            // event index q.first (1-based in the whole history)
            long pos = q.first - 1 - lo;
            if (pos >= (long)len || (pos < 0 && !(pos == -1 && len == 0)))
              continue;
            if (grow && q.second > ev[k].second)
              continue; // the trace has not got there yet
            if (!firste)
              out += ",";
            firste = false;
            out += "[";
            num(pos + 1);
            out += ",";
            num(q.second);
            std::vector<long> res[2], st[2], seen;
            for (int run = 0; run < 2; run++)
              for (int f : fs) {
                trace.reset();
                for (long s = 0; s < pos; s++)
                  trace.increment_cursor();
                timespan t = O + S * q.second;
                for (int side = 0; side < 2; side++) {
                  auto &v = st[side];
                  size_t b, tp;
                  timespanw ts, ts2;
                  buf.state(b, tp, ts, ts2);
                  if (run == 0) {
                    v.push_back(t == O + S * q.second);
                    v.push_back(trace.get_cursor());
                    v.push_back(trace.length());
                    v.push_back(trace.consumed());
                    v.push_back(buf.length());
                    v.push_back(b);
                    v.push_back(tp);
                    v.push_back((long)z);
                    unsigned long h = 5381;
                    for (size_t j = 0; j < buf.size; j++) {
                      event_t e;
                      buf.read(e, j);
                      h = h * 33 + (unsigned long)e.getTime() * 7 + (unsigned long)e.getData();
                    }
                    v.push_back(h % 1000000007ul);
                  }
                  if (side == 0) {
                    size_t m = res[run].size();
                    if (run == 0) {
                      hooks = 0;
                    } else { // disturbed somewhere, if the payload allows it
                      hook_at = seen[m] ? (long)(others * 7 + m) % seen[m] : -1;
                      hooks = 0;
                      other_form = forms[f - 1];
                      hook = other;
                    }
                    res[run].push_back(forms[f - 1](trace, t));
                    hook = 0;
                    if (run == 0)
                      seen.push_back(hooks);
                  }
                }
              }
            for (int k2 = 0; k2 < 4; k2++) {
              auto &v = k2 < 2 ? res[k2] : st[k2 - 2];
              out += ",[";
              for (size_t i = 0; i < v.size(); i++) {
                if (i)
                  out += ",";
                num(v[i]);
              }
              out += "]";
            }
            out += "]";
          }
          out += "]}";
        }
        wr.~RTML_writer<buffer_t>();
      }
      buf.~buffer_t();
    }
  }
  out += "]}\n";
  std::ofstream(argv[2]) << out;
  return 0;
}
