// Monitor conformance driver: runs scripts of controller operations on real
// periodic monitors (or bare tasks) under vrt's virtual time and schedules and
// writes the distinct histories, for spec/MonitorTrace.tla to judge.
//
//   monitor_driver SCRIPTS OUT
//
// Script lines:
//   S variant fill sec nsec spurious late maxtime_us latek   variant 0 RTML_monitor, 1 its scheduling constructor, 2 task
//   M period d1,d2,... [pol prio]   a monitor, the durations of its jobs (us, cyclic) and its scheduling
//   T op.mon.arg ...                controllers; the first one starts, START k starts another
//   E bound maxexec randexec seed keep
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <new>
#include <sstream>
#include <string>
#include <vector>

#include <unistd.h>
#include <circularbuffer.h>
#include <event.h>
#include <periodicmonitor.h>

#include "vrt.h"

int count_until_iterations;

enum { CONSTRUCT = 1, ENABLE, DISABLE, SETP, ISRUN, GETP, SLEEP, JOIN, ID, START };
enum { EN_C = 1, EN_R, DIS_C, DIS_R, SP_C, SP_R, IR_C, IR_R, GP_C, GP_R, J_S, J_E, JO_C, JO_R, MADE, ID_R, END, THREAD };
struct OpSpec { int op, mon; long arg; };
struct MonSpec { long period; std::vector<long> dur; int pol, prio; };
struct Scn {
  int variant, fill, spurious, late, latek;
  long sec, nsec, maxtime;
  std::vector<MonSpec> mon;
  std::vector<std::vector<OpSpec>> thr;
  int bound = 2;
  long maxexec = 500, randexec = 500, seed = 1, keep = 2000;
};
struct Ev_ { int type; long t, v; };
static std::vector<std::vector<Ev_>> logs;
static int64_t base;
static bool frac;
static const Scn *scn;

static void note(int m, int type, long v) {
  int64_t d = vrt::now() - base;
  if (type == J_S && d % 1000)
    frac = true;
  logs[m].push_back({type, (long)(d / 1000), v});
}
static void body(int m, bool right) {
  int k = 0;
  {
    vrt::Quiet q;
    note(m, J_S, right);
    for (auto &e : logs[m])
      k += e.type == J_S;
  }
  const std::vector<long> &d = scn->mon[m].dur;
  long us = d[(k - 1) % d.size()];
  if (us) {
    struct timespec ts = {us / 1000000, us % 1000000 * 1000};
    nanosleep(&ts, nullptr);
  } else
    sched_yield();
  vrt::Quiet q;
  note(m, J_E, 0);
}
template <char... N> class Mon : public RTML_monitor<N...> {
  long key;
  int me;
  void run() { body(me, key == 4711 + me); }

public:
  Mon(useconds_t p, int m) : RTML_monitor<N...>(p), key(4711 + m), me(m) {}
  Mon(useconds_t p, unsigned pol, unsigned pri, int m) : RTML_monitor<N...>(p, pol, pri), key(4711 + m), me(m) {}
};
typedef Mon<'#', 'a', '0'> MonA;
typedef Mon<'b', '1', '2', '3'> MonB;
static int payloads[8];
template <int M> static void *task_body(void *p) {
  body(M, p == &payloads[M]);
  return NULL;
}
static void *mem[4];
static __task *raw(int m) { return (__task *)mem[m]; }
#define ON(m, CALL) (m % 2 == 0 ? ((MonA *)mem[m])->CALL : ((MonB *)mem[m])->CALL)

static void control(int t) {
  const Scn &s = *scn;
  bool task_ = s.variant == 2;
  size_t before = 0;
  for (auto &o : s.thr[t]) {
    int m = o.mon;
    useconds_t p = m < (int)s.mon.size() ? s.mon[m].period : 0;
    switch (o.op) {
    case CONSTRUCT:
      before = vrt::created.size();
      if (task_)
        new (mem[m]) __task(m == 0 ? "t0" : m == 1 ? "t1" : "t2", m == 0 ? task_body<0> : m == 1 ? task_body<1> : task_body<2>,
                            s.mon[m].prio, s.mon[m].pol, p, &payloads[m]);
      else if (s.variant == 1)
        m % 2 == 0 ? (void)new (mem[m]) MonA(p, s.mon[m].pol, s.mon[m].prio, m) : (void)new (mem[m]) MonB(p, s.mon[m].pol, s.mon[m].prio, m);
      else
        m % 2 == 0 ? (void)new (mem[m]) MonA(p, m) : (void)new (mem[m]) MonB(p, m);
      note(m, MADE, 0);
      // only one controller constructs: the threads made since are this monitor's
      for (; before < vrt::created.size(); before++) {
        auto &a = vrt::created[before];
        note(m, THREAD, a.policy * 100000 + a.prio * 1000 + (a.detach != PTHREAD_CREATE_JOINABLE) * 100 + (a.inherit == PTHREAD_EXPLICIT_SCHED));
      }
      break;
    case ENABLE: {
      note(m, EN_C, 0);
      int r = 0;
      if (task_) raw(m)->st = ACTIVATE; else r = ON(m, enable());
      note(m, EN_R, r);
      break;
    }
    case DISABLE: {
      note(m, DIS_C, 0);
      int r = 0;
      if (task_) raw(m)->st = ABORT; else r = ON(m, disable());
      note(m, DIS_R, r);
      break;
    }
    case SETP: {
      useconds_t np = o.arg;
      note(m, SP_C, o.arg);
      if (task_) raw(m)->period = np; else ON(m, setPeriod(np));
      np = 77;
      note(m, SP_R, o.arg);
      break;
    }
    case ISRUN: {
      note(m, IR_C, 0);
      bool b = task_ ? raw(m)->st == RUNNING : ON(m, isRunning());
      note(m, IR_R, b);
      break;
    }
    case GETP: {
      note(m, GP_C, 0);
      long v = task_ ? raw(m)->period : ON(m, getPeriod());
      note(m, GP_R, v);
      break;
    }
    case SLEEP: {
      struct timespec ts = {o.arg / 1000000, o.arg % 1000000 * 1000};
      nanosleep(&ts, nullptr);
      break;
    }
    case JOIN: {
      note(m, JO_C, 0);
      void *r = NULL;
      int x = task_ ? pthread_join(raw(m)->thread, &r) : ON(m, join());
      note(m, JO_R, x);
      break;
    }
    case ID: {
      const char *id = task_ ? raw(m)->tid : ON(m, id);
      const char *want = task_ ? (m == 0 ? "t0" : m == 1 ? "t1" : "t2") : m % 2 == 0 ? "#a0" : "b123";
      note(m, ID_R, strcmp(id, want) == 0 && (task_ || strlen(id) < 5));
      break;
    }
    case START: {
      int k = o.arg;
      vrt::spawn([k] { control(k); });
      break;
    }
    }
  }
}
static vrt::Outcome once(const Scn &s) {
  scn = &s;
  vrt::Limits l;
  l.max_steps = 30000;
  for (auto &t : s.thr)
    for (auto &o : t)
      if (o.op == SLEEP)
        l.max_steps += o.arg / 25; // a monitor that waits to be enabled looks every 100 us
  l.max_run = 3000;
  base = (int64_t)s.sec * 1000000000 + s.nsec;
  l.max_time = base + s.maxtime * 1000;
  vrt::begin(l);
  vrt::set_clock(base, 0);
  vrt::set_cost(0);
  vrt::spurious_budget = s.spurious;
  vrt::late_budget = s.late;
  vrt::late_by = {1000000L * s.latek, 37000L * s.latek, 3000000L * s.latek, 1000L * s.latek};
  logs.assign(s.mon.size(), {});
  frac = false;
  for (size_t m = 0; m < s.mon.size(); m++) {
    size_t n = sizeof(MonA) > sizeof(__task) ? sizeof(MonA) : sizeof(__task);
    mem[m] = vrt::arena_alloc(n + 64);
    if (s.fill >= 0)
      for (size_t i = 0; i < n / 4; i++)
        ((int *)mem[m])[i] = s.fill;
  }
  vrt::spawn([] { control(0); });
  vrt::Outcome o = vrt::run();
  for (size_t m = 0; m < s.mon.size(); m++)
    note(m, END, o == vrt::FINISHED);
  return o;
}
int main(int argc, char **argv) {
#ifdef PORT_H // the targets have smaller stacks, and priorities in every policy
  vrt::min_stack = 2048;
  vrt::other_max = 255;
#endif
  std::ifstream in(argv[1]);
  std::string line;
  std::vector<Scn> scns;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "S") {
      scns.push_back(Scn());
      Scn &s = scns.back();
      is >> s.variant >> s.fill >> s.sec >> s.nsec >> s.spurious >> s.late >> s.maxtime >> s.latek;
    } else if (k == "M") {
      MonSpec m;
      std::string d, x;
      is >> m.period >> d;
      std::istringstream ds(d);
      while (std::getline(ds, x, ','))
        m.dur.push_back(atol(x.c_str()));
      static const int some[3][2] = {{SCHED_FIFO, 7}, {SCHED_OTHER, 0}, {SCHED_RR, 31}};
      int k = scns.back().mon.size() % 3;
      if (!(is >> m.pol >> m.prio))
        m.pol = some[k][0], m.prio = some[k][1];
      scns.back().mon.push_back(m);
    } else if (k == "T") {
      std::vector<OpSpec> v;
      std::string tok;
      while (is >> tok) {
        OpSpec o = {0, 0, 0};
        sscanf(tok.c_str(), "%d.%d.%ld", &o.op, &o.mon, &o.arg);
        v.push_back(o);
      }
      scns.back().thr.push_back(v);
    } else if (k == "E")
      is >> scns.back().bound >> scns.back().maxexec >> scns.back().randexec >> scns.back().seed >> scns.back().keep;
  }
  FILE *f = fopen(argv[2], "w");
  std::string out;
  fprintf(f, "{\"scns\":[");
  for (size_t i = 0; i < scns.size(); i++) {
    const Scn &s = scns[i];
    std::map<std::string, std::string> hist; // history -> schedule
    long execs = 0, crashed = 0, unfinished = 0, exhausted = 0;
    std::string text;
    auto one = [&]() {
      vrt::Outcome o = once(s);
      execs++;
      if (o == vrt::CRASHED) {
        if (!crashed++) text = vrt::outcome_detail();
        return crashed < 10;
      }
      if (o != vrt::FINISHED && !unfinished++)
        text = vrt::outcome_detail();
      for (size_t m = 0; m < s.mon.size(); m++) {
        std::ostringstream h;
        h << "\"s\":" << i + 1 << ",\"m\":" << m << ",\"frac\":" << frac << ",\"p0\":" << s.mon[m].period << ",\"th\":[" << s.mon[m].pol << "," << s.mon[m].prio << "],\"v\":" << s.variant << ",\"jumps\":[";
        for (size_t j = 0; j < vrt::jumps.size(); j++)
          h << (j ? "," : "") << "[" << (vrt::jumps[j].first - base) / 1000 << "," << (vrt::jumps[j].second - base) / 1000 << "]";
        h << "],\"ev\":[";
        for (size_t j = 0; j < logs[m].size(); j++)
          h << (j ? "," : "") << "[" << logs[m][j].type << "," << logs[m][j].t << "," << logs[m][j].v << "]";
        h << "]";
        std::string x = h.str();
        if (!hist.count(x) && (long)hist.size() < s.keep)
          hist[x] = vrt::schedule();
      }
      return unfinished < 50;
    };
    vrt::no_filter();
    bool go = true;
    for (int b = 0; go && b <= s.bound; b++) {
      vrt::explorer.systematic(b);
      long n = 0;
      bool done = false;
      while (go && n < s.maxexec && !(done = !vrt::explorer.next())) {
        go = one();
        n++;
      }
      if (done) exhausted = b + 1;
      if (n >= s.maxexec) break;
    }
    for (long r = 0; go && r < s.randexec; r++) {
      vrt::explorer.random(s.seed + r, r % 7);
      vrt::explorer.next();
      go = one();
    }
    fprintf(f, "%s{\"execs\":%ld,\"hist\":%zu,\"crashed\":%ld,\"unfinished\":%ld,\"exhausted\":%ld,\"text\":\"%s\"}",
            i ? "," : "", execs, hist.size(), crashed, unfinished, exhausted, text.c_str());
    for (auto &h : hist)
      out += (out.empty() ? "" : ",\n") + ("{" + h.first + ",\"sched\":\"" + h.second.substr(0, 300) + "\"}");
  }
  fprintf(f, "],\n\"hist\":[%s]}\n", out.c_str());
  fclose(f);
  return 0;
}
