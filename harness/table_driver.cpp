// Applies the connectives, duration operators and event operations of rtmlib to
// given arguments and writes what they returned (for spec/TableTrace.tla).
//   table_driver CASES OUT
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "vclock.h"

#include <circularbuffer.h>
#include <time_compat.h>
#include <event.h>
#include <rmtld3/rmtld3.h>
#include <rmtld3/formulas.h>

int count_until_iterations;
#include "exprs.inc" // generated: static int run_expr(int k, const int *v)

static FILE *f;
static bool first = true;
static void row(const std::string &s) {
  fprintf(f, "%s%s", first ? "" : ",\n", s.c_str());
  first = false;
}
static std::string big(long long v) { // "sign,[limbs]"
  std::string s = v < 0 ? "-1,[" : v ? "1,[" : "0,[";
  unsigned long long u = v < 0 ? -(unsigned long long)v : v;
  bool c = false;
  while (u) {
    s += (c ? "," : "") + std::to_string(u % 10000);
    u /= 10000;
    c = true;
  }
  return s + "]";
}
static std::string D(const duration &d) { return "[" + big(d.first) + "," + (d.second ? "1" : "0") + "]"; }

template <typename T> struct EvRunner {
  typedef Event<T> Ev;
  std::vector<long long> times;
  int rank(long long t) {
    for (size_t i = 0; i < times.size(); i++)
      if (times[i] == t) return i;
    return -5;
  }
  template <typename X, typename Y> std::string cmp(const X &a, const Y &b) {
    std::ostringstream o;
    o << "[" << (a < b) << "," << (a <= b) << "," << (a > b) << "," << (a >= b) << "," << (a == b) << "," << (a != b) << "]";
    return o.str();
  }
  void compare(int i, int d, int j, int e) {
    T dd(d), ee(e);
    timespan ti = times[i], tj = times[j];
    Ev a(dd, ti), b(ee, tj);
    std::ostringstream x;
    x << "\"a\":[[" << i << "," << d << "],[" << j << "," << e << "]],\"r\":";
    row("{\"op\":\"evev\"," + x.str() + cmp(a, b) + "}");
    std::ostringstream y;
    y << "\"a\":[[" << i << "," << d << "]," << j << "],\"r\":";
    row("{\"op\":\"evtime\"," + y.str() + cmp(a, tj) + "}");
    std::ostringstream z;
    z << "\"a\":[[" << i << "," << d << "]," << j << "],\"r\":";
    row("{\"op\":\"timeev\"," + z.str() + cmp(tj, a) + "}");
  }
  std::vector<Ev *> ev;
  char mem[3][sizeof(Ev)] __attribute__((aligned(16)));
  void step(const std::string &op, std::vector<int> a) {
    if (op == "ev.start") {
      ev.clear();
      for (int i = 0; i < 3; i++) {
        memset(mem[i], 0xA5, sizeof(Ev));
        ev.push_back(new (mem[i]) Ev());
      }
    } else if (op == "ev.setTime") {
      timespan t = times[a[1]];
      ev[a[0] - 1]->setTime(t);
    } else if (op == "ev.setData") {
      T d(a[1]);
      ev[a[0] - 1]->setData(d);
    } else if (op == "ev.set") {
      T d(a[1]);
      ev[a[0] - 1]->set(d, times[a[2]]);
    } else if (op == "ev.make") {
      T d(a[1]);
      timespan t = times[a[2]];
      ev[a[0] - 1] = new (mem[a[0] - 1]) Ev(d, t);
    } else if (op == "ev.copy") {
      Ev tmp(*ev[a[1] - 1]);
      ev[a[0] - 1] = new (mem[a[0] - 1]) Ev(tmp);
    } else if (op == "ev.assign")
      *ev[a[0] - 1] = *ev[a[1] - 1];
    else if (op == "ev.assignp")
      *ev[a[0] - 1] = (const Ev *)ev[a[1] - 1];
    std::ostringstream o;
    o << "{\"op\":\"" << op << "\",\"a\":[";
    for (size_t i = 0; i < a.size(); i++) o << (i ? "," : "") << a[i];
    o << "],\"r\":[";
    for (int i = 0; i < 3; i++)
      o << (i ? "," : "") << "[" << rank(ev[i]->getTime()) << "," << (long)ev[i]->getData() << "]";
    o << "]}";
    row(o.str());
  }
};

int main(int argc, char **argv) {
  std::ifstream in(argv[1]);
  f = fopen(argv[2], "w");
  std::string line;
  EvRunner<int> ri;
  EvRunner<unsigned char> rc;
  EvRunner<long> rl;
  int zero = 0, type = 0;
  std::ostringstream head;
  std::vector<duration> ds;
  std::vector<std::string> lines;
  while (std::getline(in, line)) lines.push_back(line);
  for (auto &l : lines)
    if (l.substr(0, 5) == "TIMES") {
      std::istringstream is(l.substr(5));
      long long t;
      while (is >> t) {
        if (t == 0) zero = ri.times.size();
        ri.times.push_back(t); rc.times.push_back(t); rl.times.push_back(t);
      }
    }
  fprintf(f, "{\"zero\":%d,\"rows\":[", zero);
  for (auto &l : lines) {
    std::istringstream is(l);
    std::string k;
    is >> k;
    if (k == "EXPR") {
      int id;
      is >> id;
      std::vector<int> v;
      int x;
      std::string json;
      is >> json;
      while (is >> x) v.push_back(x);
      int r = run_expr(id, v.data());
      row("{\"op\":\"expr\",\"a\":" + json + ",\"r\":[" + std::to_string(r) + "]}");
    } else if (k == "CONV") {
      for (int i = 0; i < 3; i++) {
        three_valued_type t = (three_valued_type)i;
        four_valued_type q = b3_to_b4(t);
        three_valued_type b = b4_to_b3(q);
        row("{\"op\":\"b3b4\",\"a\":[" + std::to_string(i) + "],\"r\":[" + std::to_string((int)q) + "]}");
        row("{\"op\":\"b3b4\",\"a\":[" + std::to_string(i) + "],\"r\":[" + std::to_string((int)b) + "]}");
      }
      const char *names[] = {"true", "false", "unknown", "symbol"};
      auto name = [&](const char *x) { int k = 0; while (k < 4 && strcmp(x, names[k])) k++; return std::to_string(k); };
      for (int i = 0; i < 3; i++) {
        three_valued_type t = (three_valued_type)i;
        row("{\"op\":\"name\",\"a\":[" + std::to_string(i) + "],\"r\":[" + name(out_p(t)) + "]}");
      }
      for (int i = 0; i < 4; i++) {
        four_valued_type t = (four_valued_type)i;
        row("{\"op\":\"name\",\"a\":[" + std::to_string(i) + "],\"r\":[" + name(out_fv(t)) + "]}");
      }
      for (int i = 0; i < 4; i++) {
        four_valued_type q = (four_valued_type)i;
        three_valued_type b = b4_to_b3(q);
        row("{\"op\":\"b4b3\",\"a\":[" + std::to_string(i) + "],\"r\":[" + std::to_string((int)b) + "]}");
      }
    } else if (k == "DUR") { // DUR a ua b ub c uc
      long long a, b, c;
      int ua, ub, uc, small;
      is >> a >> ua >> b >> ub >> c >> uc >> small;
      duration x = make_duration(a, (bool)ua), y = make_duration(b, (bool)ub), z = make_duration(c, (bool)uc);
      std::string A = "\"a\":[" + D(x) + "," + D(y) + "]";
      row("{\"op\":\"sum\"," + A + ",\"r\":" + D(sum_dur(x, y)) + "}");
      row("{\"op\":\"less\"," + A + ",\"r\":[" + std::to_string((int)(b3_lessthan(x, y))) + "]}");
      if (small) {
        row("{\"op\":\"mul\"," + A + ",\"r\":" + D(mult_dur(x, y)) + "}");
        row("{\"op\":\"lessexpr\",\"a\":[" + D(x) + "," + D(y) + "," + D(z) + "],\"r\":[" +
            std::to_string((int)(b3_lessthan(sum_dur(x, y), mult_dur(x, z)))) + "]}");
      }
    } else if (k == "TS") { // TS sec nsec sec nsec: arithmetic on struct timespec
      long long s[4];
      for (auto &x : s) is >> x;
      struct timespec a, b, r;
      a.tv_sec = s[0]; a.tv_nsec = s[1]; b.tv_sec = s[2]; b.tv_nsec = s[3];
      auto put = [&](const char *op, const struct timespec &v) {
        row(std::string("{\"op\":\"") + op + "\",\"a\":[[" + big(s[0]) + "," + std::to_string(s[1]) + "],[" + big(s[2]) + "," +
            std::to_string(s[3]) + "]],\"r\":[" + big(v.tv_sec) + "," + std::to_string(v.tv_nsec) + "]}");
      };
      memset(&r, 0xA5, sizeof r);
      timespecadd(&a, &b, &r);
      put("tadd", r);
      memset(&r, 0xA5, sizeof r);
      timespecsub(&a, &b, &r);
      put("tsub", r);
      r = a;
      timespecadd(&r, &b, &r);
      put("tadd", r);
      r = b;
      timespecadd(&a, &r, &r);
      put("tadd", r);
      r = a;
      timespecsub(&r, &b, &r);
      put("tsub", r);
      r = b;
      timespecsub(&a, &r, &r);
      put("tsub", r);
      std::ostringstream o;
      o << "{\"op\":\"tcmp\",\"a\":[[" << big(s[0]) << "," << s[1] << "],[" << big(s[2]) << "," << s[3] << "]],\"r\":["
        << (timespeccmp(&a, &b, <) ? 1 : 0) << "," << (timespeccmp(&a, &b, <=) ? 1 : 0) << "," << (timespeccmp(&a, &b, >) ? 1 : 0) << ","
        << (timespeccmp(&a, &b, >=) ? 1 : 0) << "," << (timespeccmp(&a, &b, ==) ? 1 : 0) << "," << (timespeccmp(&a, &b, !=) ? 1 : 0) << ","
        << (timespecisset(&a) ? 1 : 0) << "]}";
      row(o.str());
      timespecclear(&a);
      put("tclear", a);
    } else if (k == "US") { // microseconds
      long long v;
      is >> v;
      useconds_t us = (useconds_t)v;
      struct timespec r;
      memset(&r, 0xA5, sizeof r);
      useconds_t2timespec(&us, &r);
      row("{\"op\":\"tus\",\"a\":[" + big(v) + "],\"r\":[" + big(r.tv_sec) + "," + std::to_string(r.tv_nsec) + "]}");
    } else if (k == "CLK") { // what the system clock says
      long long s, n;
      is >> s >> n;
      vclock::base = s * 1000000000LL + n;
      vclock::scale = 1;
      vclock::tick = 0;
      timespan t = clockgettime();
      timespanw w = t;
      row("{\"op\":\"clock\",\"a\":[" + big(s) + "," + std::to_string(n) + "],\"r\":[[" + big((long long)t) + "],[" + big((long long)w) + "]]}");
    } else if (k == "TYPE")
      is >> type;
    else if (k == "CMP") {
      int i, d, j, e;
      is >> i >> d >> j >> e;
      if (type == 0) ri.compare(i, d, j, e);
      else if (type == 1) rc.compare(i, d, j, e);
      else rl.compare(i, d, j, e);
    } else if (k.substr(0, 3) == "ev.") {
      std::vector<int> a;
      int x;
      while (is >> x) a.push_back(x);
      if (type == 0) ri.step(k, a);
      else if (type == 1) rc.step(k, a);
      else rl.step(k, a);
    }
  }
  fprintf(f, "]}\n");
  fclose(f);
}
