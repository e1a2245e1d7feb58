// Concurrent conformance driver: runs small programs of writers and readers on
// the real buffer under many schedules (vrt) and writes the distinct histories
// of calls and returns, for spec/ConcTrace.tla to judge.
//
//   conc_driver SCENARIOS OUT
//
// Scenario lines:
//   S N payload writers readers        capacity, 0 int / 1 two-word payload
//   I op.target ...                    operations before the threads start
//   T op.target ...                    one line per thread
//   E bound maxexec randexec seed keep pairs steps near
//      near: leave out histories in which an operation overlaps more than one push
//      or destruction by another thread
//      exploration budget; pairs: schedules that suspend two threads once each
//      (every thread is also suspended once at each of its points); steps: when
//      an execution counts as stuck
// Compiled with -fsanitize=thread (instrumentation only) and linked with vrt.
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <new>
#include <random>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <circularbuffer.h>
#include <event.h>
#include <reader.h>
#include <rmtld3/reader.h>
#include <writer.h>

#include "vrt.h"

int count_until_iterations;

struct Two { // a payload that is not copied in one access
  long a, b;
  Two() : a(0), b(0) {}
  Two(long x) : a(x), b(x) {}
  Two(const Two &o) { a = o.a; b = o.b; }
  Two &operator=(const Two &o) { a = o.a; b = o.b; return *this; }
  bool operator==(const Two &o) const { return a == o.a && b == o.b; }
};
static long num(int x) { return x; }
static long num(const Two &t) { return t.a == t.b ? t.a : -7777; }

struct OpSpec { int op, tgt; long arg; };
struct OpRec { int thr, op, tgt; long data, res, od, ot, t0, t1, call, ret; long ov; };
struct Scn {
  int N, payload, nw, nr;
  std::vector<OpSpec> init;
  std::vector<std::vector<OpSpec>> thr;
  int bound = 2;
  long maxexec = 1000, randexec = 1000, seed = 1, keep = 3000, pairs = 0, steps = 12000, near = 0;
};
// Distinct histories, grouped by what came out of them (replies, data, order of
// the stamps, final contents): of every outcome some histories are kept.
struct Group { long seen = 0; std::vector<std::string> h; };
struct Result {
  std::unordered_set<size_t> known;
  std::unordered_map<std::string, Group> groups;
  std::vector<std::string> order; // outcomes as they came up
  size_t PER = 12;
  std::mt19937_64 rng{12345};
  void add(const std::string &sig, const std::string &h) {
    if (!known.insert(std::hash<std::string>()(h)).second)
      return;
    Group &g = groups[sig];
    if (!g.seen++)
      order.push_back(sig);
    if (g.h.size() < PER)
      g.h.push_back(h);
    else {
      size_t k = rng() % g.seen;
      if (k < PER)
        g.h[k] = h;
    }
  }
  std::vector<std::string> chosen(size_t keep) {
    std::vector<std::string> out;
    for (size_t r = 0; r < PER; r++)
      for (auto &s : order)
        if (r < groups[s].h.size() && out.size() < keep)
          out.push_back(groups[s].h[r]);
    return out;
  }
  long execs = 0, stuck = 0, crashed = 0, sys_exhausted = 0, left_out = 0;
  std::string stuck_text, crash_text;
};
static std::vector<OpRec> ops;
static std::vector<int> events; // +k call, -k return
enum { BSTATE = 6, BLEN = 8, NEWW = 9, DELW, WPUSH, WPUSHALL, WBULK, BDEBUG = 15, SYNC = 21, RPULL, RPOP, RGAP, RLEN, RDEBUG, DRAIN };
#ifdef PORT_ARM
static const int64_t BASE = 1000; // times have 32 bits
#else
static const int64_t BASE = 1700000000000000000LL;
#endif
static long dec(int64_t t) { return t == 0 ? 0 : t - BASE; }

template <typename D, size_t N> struct Runner {
  typedef Event<D> Ev;
  typedef RTML_buffer<Ev, N> Buf;
  typedef RTML_writer<Buf> Wr;
  typedef RTML_reader<Buf> Rd;
  Buf *buf;
  std::vector<Wr *> wr;
  std::vector<void *> wmem;
  std::vector<Rd *> rd;
  std::vector<void *> rmem;
  long datum = 0;

  void call(int thr, const OpSpec &o) {
    OpRec r = {thr, o.op, o.tgt, 0, 0, -1, -1, 0, 0, 0, 0, 0};
    if (o.op == WPUSH || o.op == WPUSHALL || o.op == WBULK)
      r.data = ++datum;
    if (o.op == WBULK)
      r.od = o.arg;
    r.t0 = dec(vrt::now());
    ops.push_back(r);
    size_t k = ops.size() - 1;
    ops[k].call = events.size();
    events.push_back(k + 1);
    Ev e;
    D sd(99);
    timespan st = 7;
    e.set(sd, st);
    long res = 0;
    bool out = false;
    switch (o.op) {
    case WPUSH: case WPUSHALL: {
      D d(r.data);
      timespan t = o.op == WPUSH ? 0 : BASE + (o.arg ? o.arg : vrt::now() - BASE);
      e.set(d, t);
      if (o.op == WPUSHALL)
        ops[k].t0 = dec(t);
      res = o.op == WPUSH ? wr[o.tgt]->push(e) : wr[o.tgt]->push_all(e);
      out = true;
      break;
    }
    case WBULK: // the same event many times
      for (long k = 0; k < o.arg; k++) {
        D d(r.data);
        timespan t = BASE + 5;
        e.set(d, t);
        res = wr[o.tgt]->push_all(e);
      }
      break;
    case NEWW: wr[o.tgt] = new (wmem[o.tgt]) Wr(*buf); break;
    case DELW:
      wr[o.tgt]->~Wr();
      memset(wmem[o.tgt], 0xCD, sizeof(Wr));
      break;
    case SYNC: res = rd[o.tgt]->synchronize(); break;
    case RPULL: res = rd[o.tgt]->pull(e); out = true; break;
    case RPOP: res = rd[o.tgt]->pop(e); out = true; break;
    case RGAP: res = rd[o.tgt]->gap(); break;
    case RLEN: res = rd[o.tgt]->length(); break;
    case BLEN: res = buf->length(); break;
    case BDEBUG: buf->debug(); break;
    case RDEBUG: rd[o.tgt]->debug(); break;
    case BSTATE: {
      size_t b = 77, t = 77;
      buf->state(b, t);
      res = b * 100 + t;
      break;
    }
    }
    ops[k].res = res;
    ops[k].t1 = dec(vrt::now());
    if (out && !(num(e.getData()) == 99 && e.getTime() == 7)) {
      ops[k].od = num(e.getData());
      ops[k].ot = dec(e.getTime());
    }
    ops[k].ret = events.size();
    events.push_back(-(long)k - 1);
  }

  vrt::Outcome once(const Scn &s) {
    vrt::Limits l;
    l.max_steps = s.steps;
    l.max_run = s.steps / 4;
    vrt::begin(l);
    vrt::set_clock(BASE, 1);
    vrt::set_cost(0);
    ops.clear();
    events.clear();
    datum = 0;
    buf = new (vrt::arena_alloc(sizeof(Buf))) Buf();
    wr.assign(s.nw, nullptr);
    wmem.clear();
    for (int i = 0; i < s.nw; i++)
      wmem.push_back(vrt::arena_alloc(sizeof(Wr)));
    if (rmem.empty())
      for (int i = 0; i < s.nr; i++)
        rmem.push_back(malloc(sizeof(Rd)));
    rd.clear();
    for (int i = 0; i < s.nr; i++) {
      memset(rmem[i], 0xA5, sizeof(Rd));
      rd.push_back(new (rmem[i]) Rd(*buf)); // private to its thread
    }
    for (auto &o : s.init)
      call(0, o);
    for (size_t t = 0; t < s.thr.size(); t++)
      vrt::spawn([this, &s, t] {
        for (auto &o : s.thr[t])
          call(t + 1, o);
      });
    vrt::Outcome oc = vrt::run();
    return oc;
  }

  bool near() {
    for (auto &o : ops) {
      int k = 0;
      for (auto &p : ops)
        k += p.thr != o.thr && p.op >= DELW && p.op <= WBULK && p.call < o.ret && o.call < p.ret;
      if (k > 1)
        return false;
    }
    return true;
  }

  // calls and returns with runs of calls and runs of returns in a fixed order
  std::string canonical(std::string &sig) {
    // operations overlapping a push
    for (auto &o : ops)
      for (auto &p : ops)
        if (p.op >= WPUSH && p.op <= WBULK && &p != &o && p.call < o.ret && o.call < p.ret)
          o.ov = 1;
    std::vector<int> ev = events;
    auto key = [&](int x) { return ops[abs(x) - 1].thr * 1000 + abs(x); };
    for (size_t i = 0; i < ev.size();) {
      size_t j = i;
      while (j < ev.size() && (ev[j] > 0) == (ev[i] > 0))
        j++;
      std::sort(ev.begin() + i, ev.begin() + j, [&](int a, int b) {
        return ops[abs(a) - 1].thr != ops[abs(b) - 1].thr ? ops[abs(a) - 1].thr < ops[abs(b) - 1].thr : abs(a) < abs(b);
      });
      i = j;
    }
    // rename operations and data by (thread, position)
    std::vector<int> order(ops.size());
    for (size_t i = 0; i < order.size(); i++)
      order[i] = i;
    std::stable_sort(order.begin(), order.end(), [&](int a, int b) { return ops[a].thr < ops[b].thr; });
    std::vector<int> nm(ops.size());
    std::map<long, long> dn;
    for (size_t i = 0; i < order.size(); i++) {
      nm[order[i]] = i + 1;
      if (ops[order[i]].data)
        dn[ops[order[i]].data] = i + 1;
    }
    auto D_ = [&](long d) { return dn.count(d) ? dn[d] : d; };
    std::ostringstream o, q;
    std::vector<std::pair<long, int>> st;
    for (size_t i = 0; i < order.size(); i++) {
      OpRec &r = ops[order[i]];
      q << r.res << " " << D_(r.od) << " " << (r.ot >= r.t0 && r.ot <= r.t1) << ";";
      if (r.op == WPUSH)
        st.push_back({r.ot, i});
    }
    std::sort(st.begin(), st.end());
    for (auto &x : st)
      q << x.second << " ";
    o << "{\"ops\":[";
    for (size_t i = 0; i < order.size(); i++) {
      OpRec &r = ops[order[i]];
      o << (i ? "," : "") << "[" << r.thr << "," << r.op << "," << r.tgt << "," << D_(r.data) << "," << r.res
        << "," << (r.op == WBULK ? r.od : D_(r.od)) << "," << r.ot << "," << r.t0 << "," << r.t1 << "," << r.ov << "]";
    }
    o << "],\"ev\":[";
    for (size_t i = 0; i < ev.size(); i++)
      o << (i ? "," : "") << (ev[i] > 0 ? nm[ev[i] - 1] : -nm[-ev[i] - 1]);
    size_t b, t;
    timespanw ts, tt;
    buf->state(b, t, ts, tt);
    o << "],\"fin\":[" << b << "," << t << "," << buf->length();
    for (size_t i = 0; i <= N; i++) {
      Ev e;
      if (buf->read(e, i) == buf->OK)
        o << "," << D_(num(e.getData())) << "," << dec(e.getTime()), q << "|" << D_(num(e.getData()));
      else
        o << ",-1,-1";
    }
    o << "]}";
    q << "|" << b << " " << t;
    sig = q.str();
    return o.str();
  }
  std::string story() {
    std::ostringstream o;
    for (int x : events) {
      auto &r = ops[abs(x) - 1];
      o << (x > 0 ? "call" : "return") << " thread " << r.thr << " op " << r.op << " target " << r.tgt << " data " << r.data;
      if (x < 0)
        o << " -> " << r.res << " (" << r.od << "," << r.ot << ")";
      o << "\n";
    }
    return o.str();
  }

  void run(const Scn &s, Result &res) {
    auto one = [&]() -> bool {
      vrt::Outcome oc = once(s);
      res.execs++;
      if (oc == vrt::FINISHED && s.near && !near())
        res.left_out++;
      else if (oc == vrt::FINISHED) {
        std::string sig, h = canonical(sig);
        res.add(sig, h);
      } else if (oc == vrt::STUCK) {
        if (!res.stuck++)
          res.stuck_text = std::string(vrt::outcome_detail()) + "\n" + story() + "schedule " + vrt::schedule().substr(0, 2000);
        if (res.stuck > 300) return false;
      } else {
        if (!res.crashed++)
          res.crash_text = std::string(vrt::outcome_detail()) + "\n" + story();
        if (res.crashed > 20) return false;
      }
      return true;
    };
    // learn which words threads compete for
    vrt::learn(true);
    for (int i = 0; i < (s.steps > 100000 ? 7 : 120); i++) {
      vrt::explorer.random(s.seed + 1000 + i, i % 7);
      vrt::explorer.next();
      if (!one()) return;
    }
    vrt::learn(false);
    // every thread suspended once, at each of its points; then pairs of threads
    std::vector<long> len(s.thr.size(), 0);
    for (size_t t = 0; t < s.thr.size(); t++)
      for (long at = 0;; at++) {
        if (at >= (s.steps > 12000 ? 40 : 400)) {
          len[t] = at;
          break;
        }
        vrt::explorer.segments({{(int)t, at}});
        vrt::explorer.next();
        if (!one()) return;
        if (vrt::explorer.segment_was_short(0)) {
          len[t] = at;
          break;
        }
      }
    double all = 0;
    for (size_t a = 0; a < len.size(); a++)
      for (size_t b = 0; b < len.size(); b++)
        if (a != b) all += (double)len[a] * len[b];
    std::mt19937_64 rng(s.seed * 31 + 5);
    for (size_t a = 0; a < len.size() && s.pairs; a++)
      for (size_t b = 0; b < len.size(); b++)
        for (long i = 0; i < len[a] && a != b; i++)
          for (long j = 0; j < len[b]; j++) {
            if (all > s.pairs && rng() % 1000000 > s.pairs / all * 1000000) continue;
            vrt::explorer.segments({{(int)a, i}, {(int)b, j}});
            vrt::explorer.next();
            if (!one()) return;
          }
    for (int b = 0; b <= s.bound; b++) {
      vrt::explorer.systematic(b);
      long n = 0;
      bool done = false;
      while (n < s.maxexec && !(done = !vrt::explorer.next())) {
        if (!one()) return;
        n++;
      }
      if (done) res.sys_exhausted = b + 1;
      if (n >= s.maxexec) break;
    }
    for (long i = 0; i < s.randexec; i++) {
      vrt::explorer.random(s.seed + i, i % 7);
      vrt::explorer.next();
      if (!one()) return;
    }
    vrt::no_filter();
    for (long i = 0; i < s.randexec / 4; i++) {
      vrt::explorer.random(s.seed + 500000 + i, i % 7);
      vrt::explorer.next();
      if (!one()) return;
    }
  }
};

template <typename D> static void dispatch(const Scn &s, Result &r) {
  switch (s.N) {
  case 1: { Runner<D, 1> x; x.run(s, r); break; }
  case 2: { Runner<D, 2> x; x.run(s, r); break; }
  case 3: { Runner<D, 3> x; x.run(s, r); break; }
  case 4: { Runner<D, 4> x; x.run(s, r); break; }
  case 7: { Runner<D, 7> x; x.run(s, r); break; }
  default: fprintf(stderr, "capacity\n"); exit(3);
  }
}
static std::string esc(const std::string &s) {
  std::string o;
  for (char c : s)
    if (c == '\n') o += "\\n";
    else if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else o += c;
  return o;
}
int main(int argc, char **argv) {
  std::ifstream in(argv[1]);
  std::string line;
  std::vector<Scn> scns;
  auto parse = [](std::istringstream &is) {
    std::vector<OpSpec> v;
    std::string tok;
    while (is >> tok) {
      OpSpec o = {0, 0, 0};
      sscanf(tok.c_str(), "%d.%d.%ld", &o.op, &o.tgt, &o.arg);
      v.push_back(o);
    }
    return v;
  };
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "S") {
      scns.push_back(Scn());
      is >> scns.back().N >> scns.back().payload >> scns.back().nw >> scns.back().nr;
    } else if (k == "I")
      scns.back().init = parse(is);
    else if (k == "T")
      scns.back().thr.push_back(parse(is));
    else if (k == "E")
      is >> scns.back().bound >> scns.back().maxexec >> scns.back().randexec >> scns.back().seed >> scns.back().keep >> scns.back().pairs >> scns.back().steps >> scns.back().near;
  }
  FILE *f = fopen(argv[2], "w");
  fprintf(f, "{\"scns\":[");
  std::string hist;
  long idx = 0;
  for (auto &s : scns) {
    Result r;
    r.PER = s.keep > 1000 ? 60 : 12;
#ifndef PLAIN_PAYLOAD
    if (s.payload)
      dispatch<Two>(s, r);
    else
#endif
      dispatch<int>(s, r);
    fprintf(f, "%s{\"bound\":%d,\"n\":%d,\"nr\":%d,\"execs\":%ld,\"hist\":%zu,\"stuck\":%ld,\"crashed\":%ld,\"outcomes\":%zu,\"left_out\":%ld,\"exhausted\":%ld,\"stuck_text\":\"%s\",\"crash_text\":\"%s\"}",
            idx ? "," : "", s.bound, s.N, s.nr, r.execs, r.known.size(), r.stuck, r.crashed, r.groups.size(), r.left_out, r.sys_exhausted, esc(r.stuck_text).c_str(), esc(r.crash_text).c_str());
    idx++;
    for (auto &h : r.chosen(s.keep)) {
      if (!hist.empty()) hist += ",\n";
      hist += "{\"s\":" + std::to_string(idx) + "," + h.substr(1);
    }
  }
  fprintf(f, "],\n\"hist\":[%s]}\n", hist.c_str());
  fclose(f);
  return 0;
}
