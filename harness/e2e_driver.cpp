// End to end: writers push into a buffer while periodic monitors, built the way
// the generated monitors are, evaluate formulas on it.  Real writers, buffer,
// readers, seek, operators and monitors under vrt.
//
//   e2e_driver SCRIPTS OUT        (forms.inc: the formulas, 1 tick = 1 ns)
//
// Script lines:
//   S variant maxtime_us           capacity is CFG_N
//   M formula period_us tz_ns      a monitor; tz: its start time from now
//   C op.arg ..                    the controlling thread: e.m enable, d.m disable, j.m join, s.ns sleep, w.k start writer k
//   W op.arg ..                    a writer: s.ns sleep, p.proposition push
//   E bound maxexec randexec seed keep
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <new>
#include <sstream>
#include <string>
#include <vector>

#include <unistd.h>
#include <circularbuffer.h>
#include <event.h>
#include <periodicmonitor.h>
#include <reader.h>
#include <writer.h>
#include <rmtld3/formulas.h>
#include <rmtld3/reader.h>

#include "vrt.h"

int count_until_iterations;

typedef Event<CFG_T> event_t;
typedef RTML_buffer<event_t, CFG_N> buffer_t;
typedef RMTLD3_reader<RTML_reader<buffer_t>> trace_t;
typedef RTML_writer<buffer_t> writer_t;
typedef long (*fun_t)(trace_t &, timespan &);
static long enc(const duration &, timespan) { return 99; }
static long enc(three_valued_type v, timespan) { return v == T_TRUE ? 0 : v == T_FALSE ? 1 : v == T_UNKNOWN ? 2 : 98; }
#include "forms.inc"

struct Op { char k; long a; };
struct MonSpec { int form; long period, tz; };
struct Scn {
  int variant = 0;
  long maxtime = 1000000;
  std::vector<MonSpec> mon;
  std::vector<Op> ctrl;
  std::vector<std::vector<Op>> wr;
  int bound = 2;
  long maxexec = 500, randexec = 300, seed = 1, keep = 1000;
};
static const int64_t BASE = 1700000000000000000LL;
static const Scn *scn;
static buffer_t *buf;
struct Push { long p, call, ret, t; };
struct Job { long tz, verdict, lo, hi; };
static std::vector<Push> pushes;              // in the order of the calls
static std::vector<std::vector<Job>> jobs;    // lo, hi: positions in the sequence of events of the run
static long seqno;

class Mon : public RTML_monitor<'#', 'm', 'o', 'n'> {
  trace_t &trace;
  int me, form;
  timespan tzero;
  long _out;

  void run() {
    long lo;
    {
      vrt::Quiet q;
      lo = ++seqno;
    }
    trace.synchronize();
    if (trace.set(tzero) == 0)
      _out = forms[form](trace, tzero);
    vrt::Quiet q;
    jobs[me].push_back({(long)(tzero - BASE), _out, lo, ++seqno});
  }

public:
  Mon(useconds_t p, trace_t &t, int m, int f, long tz) : RTML_monitor(p), trace(t), me(m), form(f), _out(2) {
    tzero = BASE + tz;
  }
};
static std::vector<Mon *> mons;

static void nap(long ns) {
  struct timespec ts = {ns / 1000000000, ns % 1000000000};
  nanosleep(&ts, nullptr);
}
static void writer(int k) {
  void *m = malloc(sizeof(writer_t)); // private to its thread
  memset(m, 0xA5, sizeof(writer_t));
  writer_t &w = *new (m) writer_t(*buf);
  for (auto &o : scn->wr[k]) {
    if (o.k == 's')
      nap(o.a);
    else {
      CFG_T d = (CFG_T)o.a;
      size_t n;
      {
        vrt::Quiet q;
        n = pushes.size();
        pushes.push_back({o.a, ++seqno, -1, -1});
      }
      event_t e(d, 0);
      w.push(e);
      vrt::Quiet q;
      pushes[n].ret = ++seqno;
      pushes[n].t = (long)(e.getTime() - BASE); // push hands the time back
    }
  }
  w.~writer_t();
  free(m);
}
static void control() {
  for (auto &o : scn->ctrl)
    switch (o.k) {
    case 'e': mons[o.a]->enable(); break;
    case 'd': mons[o.a]->disable(); break;
    case 'j': mons[o.a]->join(); break;
    case 's': nap(o.a); break;
    case 'w': {
      int k = o.a;
      vrt::spawn([k] { writer(k); });
      break;
    }
    case 'c': {
      const MonSpec &m = scn->mon[o.a];
      trace_t *t = new (vrt::arena_alloc(sizeof(trace_t))) trace_t(*buf);
      mons[o.a] = new (vrt::arena_alloc(sizeof(Mon))) Mon(m.period, *t, o.a, m.form - 1, m.tz);
      break;
    }
    }
}
static vrt::Outcome once(const Scn &s) {
  scn = &s;
  vrt::Limits l;
  l.max_steps = 400000;
  l.max_run = 20000;
  l.max_time = BASE + s.maxtime * 1000;
  vrt::begin(l);
  vrt::set_clock(BASE, 1);
  vrt::set_cost(0);
  seqno = 0;
  pushes.clear();
  jobs.assign(s.mon.size(), {});
  mons.assign(s.mon.size(), nullptr);
  buf = new (vrt::arena_alloc(sizeof(buffer_t))) buffer_t();
  vrt::spawn(control);
  return vrt::run();
}
// the events in the order of their times with the numbers of their calls and returns, and the jobs
static std::string history(size_t si) {
  std::ostringstream o;
  std::sort(pushes.begin(), pushes.end(), [](const Push &a, const Push &c) { return a.t < c.t; });
  o << "\"s\":" << si + 1 << ",\"ev\":[";
  for (size_t i = 0; i < pushes.size(); i++)
    o << (i ? "," : "") << "[" << pushes[i].p << "," << pushes[i].t << "," << pushes[i].call << "," << pushes[i].ret << "]";
  o << "],\"mons\":[";
  for (size_t m = 0; m < jobs.size(); m++) {
    o << (m ? "," : "") << "{\"f\":" << scn->mon[m].form << ",\"tz\":" << scn->mon[m].tz << ",\"jobs\":[";
    for (size_t i = 0; i < jobs[m].size(); i++)
      o << (i ? "," : "") << "[" << jobs[m][i].verdict << "," << jobs[m][i].lo << "," << jobs[m][i].hi << "," << jobs[m][i].tz << "]";
    o << "]}";
  }
  o << "]";
  return o.str();
}
int main(int argc, char **argv) {
  std::ifstream in(argv[1]);
  std::string line;
  std::vector<Scn> scns;
  auto parse = [](std::istringstream &is) {
    std::vector<Op> v;
    std::string tok;
    while (is >> tok)
      v.push_back({tok[0], atol(tok.c_str() + 2)});
    return v;
  };
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "S") {
      scns.push_back(Scn());
      is >> scns.back().variant >> scns.back().maxtime;
    } else if (k == "M") {
      MonSpec m;
      is >> m.form >> m.period >> m.tz;
      scns.back().mon.push_back(m);
    } else if (k == "C")
      scns.back().ctrl = parse(is);
    else if (k == "W")
      scns.back().wr.push_back(parse(is));
    else if (k == "E")
      is >> scns.back().bound >> scns.back().maxexec >> scns.back().randexec >> scns.back().seed >> scns.back().keep;
  }
  FILE *f = fopen(argv[2], "w");
  std::string out;
  fprintf(f, "{\"scns\":[");
  for (size_t i = 0; i < scns.size(); i++) {
    const Scn &s = scns[i];
    std::map<std::string, int> hist;
    long execs = 0, crashed = 0, unfinished = 0;
    std::string text;
    auto one = [&]() {
      vrt::Outcome o = once(s);
      execs++;
      if (o == vrt::CRASHED || o != vrt::FINISHED) {
        if (!(o == vrt::CRASHED ? crashed : unfinished)++)
          text = vrt::outcome_detail();
        return crashed + unfinished < 10;
      }
      std::string h = history(i);
      if (hist.count(h) || (long)hist.size() < s.keep)
        hist[h]++;
      return true;
    };
    bool go = true;
    vrt::learn(true);
    for (int r = 0; go && r < 20; r++) {
      vrt::explorer.random(s.seed + 1000 + r, r % 7);
      vrt::explorer.next();
      go = one();
    }
    vrt::learn(false);
    for (int b = 0; go && b <= s.bound; b++) {
      vrt::explorer.systematic(b);
      long n = 0;
      while (go && n < s.maxexec && vrt::explorer.next()) {
        go = one();
        n++;
      }
      if (n >= s.maxexec) break;
    }
    for (long r = 0; go && r < s.randexec; r++) {
      vrt::explorer.random(s.seed + r, r % 7);
      vrt::explorer.next();
      go = one();
    }
    vrt::no_filter();
    fprintf(f, "%s{\"execs\":%ld,\"hist\":%zu,\"crashed\":%ld,\"unfinished\":%ld,\"text\":\"%s\"}", i ? "," : "", execs, hist.size(),
            crashed, unfinished, text.c_str());
    for (auto &h : hist)
      out += (out.empty() ? "" : ",\n") + ("{" + h.first + "}");
  }
  fprintf(f, "],\n\"hist\":[%s]}\n", out.c_str());
  fclose(f);
  return 0;
}
