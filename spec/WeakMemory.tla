----------------------------- MODULE WeakMemory ------------------------------
(***************************************************************************)
(* LockFree on machines that reorder.  A store first goes into a buffer of *)
(* its thread, which sees it there; it reaches the memory later.  Atomic   *)
(* exchanges empty the buffer.                                             *)
(*                                                                         *)
(* STORES  in which order stores reach the memory:                         *)
(*   "tso"      the order of the program (x86)                             *)
(*   "release"  any, but the store of a release comes after all before it  *)
(*   "any"      any (a relative in which `ready' is a plain store)         *)
(*   "loose"    as "release", and the exchange does not empty the buffer   *)
(* LOADS   in which order the reader loads:                                *)
(*   "tso"      the order of the program (x86)                             *)
(*   "fenced"   any between two loads of the page, except as they depend   *)
(*              on one another (RISC-V: an atomic load has a fence on      *)
(*              either side)                                               *)
(*   "free"     a load of the page may also come before the loads before   *)
(*              it (ARMv7: an atomic load has a barrier after it only)     *)
(***************************************************************************)
EXTENDS LockFree
CONSTANTS STORES, LOADS
VARIABLES buf,     \* stores of each writer on their way, oldest first
          got      \* what the reader has loaded in this phase
mvars == <<vars, buf, got>>

S(k, a, v) == [k |-> k, a |-> a, v |-> v]
Mem(k, a) == CASE k = "bot" -> st[a].bot [] k = "top" -> st[a].top [] k = "pos" -> st[a].pos
               [] k = "ev" -> st[a].ev [] k = "ready" -> st[a].ready [] k = "sd" -> sd[a] [] k = "sl" -> sl[a]
Look(w, k, a) ==
  LET hits == {i \in 1..Len(buf[w]) : buf[w][i].k = k /\ buf[w][i].a = a}
  IN IF hits = {} THEN Mem(k, a) ELSE buf[w][CHOOSE i \in hits : \A j \in hits : j <= i].v
Put(w, ss) == buf' = [buf EXCEPT ![w] = @ \o ss]

MInit == Init /\ buf = [w \in W |-> << >>] /\ got = {}
Rest == UNCHANGED <<sd, sl, rd, log, rep, got>>

MWait(w) ==
  /\ wr[w].pc = "wait"
  /\ Go(w, IF Look(w, "ready", wr[w].cur.ref) THEN "bottom" ELSE "load")
  /\ UNCHANGED <<page, st, buf>> /\ Rest
MBottom(w) ==
  /\ wr[w].pc = "bottom"
  /\ Put(w, <<S("bot", wr[w].ref, Look(w, "bot", wr[w].cur.ref))>>) /\ Go(w, "top")
  /\ UNCHANGED <<page, st>> /\ Rest
MTop(w) ==
  LET t == Look(w, "top", wr[w].cur.ref)
  IN /\ wr[w].pc = "top"
     /\ Put(w, <<S("top", wr[w].ref, t), S("pos", wr[w].ref, t)>>) /\ Go(w, "body")
     /\ UNCHANGED <<page, st>> /\ Rest
MBody(w) ==
  LET r == wr[w].ref
      t == Look(w, "top", r)
      b == Look(w, "bot", r)
      p == Inc(t) = b
      e == [d |-> <<w, wr[w].n + 1>>, t |-> Stamp]
  IN /\ wr[w].pc = "body"
     /\ Put(w, <<S("top", r, Inc(t))>> \o (IF p THEN <<S("bot", r, Inc(b))>> ELSE << >>))
     /\ wr' = [wr EXCEPT ![w].pc = "prepare", ![w].slot = t, ![w].ev = e, ![w].err = IF p THEN BUFFER_OVERFLOW ELSE OK]
     /\ UNCHANGED <<page, st>> /\ Rest
MPrepare(w) ==
  /\ wr[w].pc = "prepare"
  /\ Put(w, <<S("ev", wr[w].ref, wr[w].ev), S("ready", wr[w].ref, FALSE)>>) /\ Go(w, "cas")
  /\ UNCHANGED <<page, st>> /\ Rest
MCas(w) == (STORES = "loose" \/ buf[w] = << >>) /\ WCas(w) /\ UNCHANGED <<buf, got>>
MData(w) ==
  /\ wr[w].pc = "data"
  /\ Put(w, <<S("sd", wr[w].slot, wr[w].ev.d)>>) /\ Go(w, "time")
  /\ UNCHANGED <<page, st>> /\ Rest
MTime(w) ==
  /\ wr[w].pc = "time"
  /\ Put(w, <<S("sl", wr[w].slot, wr[w].ev.t)>>) /\ Go(w, "ready")
  /\ UNCHANGED <<page, st>> /\ Rest
MReady(w) ==
  /\ wr[w].pc = "ready"
  /\ Put(w, <<S("ready", wr[w].ref, TRUE)>>)
  /\ wr' = [wr EXCEPT ![w].n = @ + 1, ![w].pc = Next(w)]
  /\ UNCHANGED <<page, st>> /\ Rest
MWriter(w) == \/ (WLoad(w) /\ UNCHANGED <<buf, got>>)
              \/ MWait(w) \/ MBottom(w) \/ MTop(w) \/ MBody(w) \/ MPrepare(w) \/ MCas(w) \/ MData(w) \/ MTime(w) \/ MReady(w)

Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
MayGo(w, i) ==
  LET x == buf[w][i]
  IN \/ i = 1
     \/ /\ STORES # "tso"
        /\ ~\E j \in 1..i - 1 : buf[w][j].k = x.k /\ buf[w][j].a = x.a
        /\ ~(STORES \in {"release", "loose"} /\ x.k = "ready" /\ x.v)
Drain(w) ==
  \E i \in 1..Len(buf[w]) :
    /\ MayGo(w, i)
    /\ buf' = [buf EXCEPT ![w] = Drop(@, i)]
    /\ LET x == buf[w][i] IN
       /\ st' = CASE x.k = "bot" -> [st EXCEPT ![x.a].bot = x.v] [] x.k = "top" -> [st EXCEPT ![x.a].top = x.v]
                  [] x.k = "pos" -> [st EXCEPT ![x.a].pos = x.v] [] x.k = "ev" -> [st EXCEPT ![x.a].ev = x.v]
                  [] x.k = "ready" -> [st EXCEPT ![x.a].ready = x.v] [] OTHER -> st
       /\ sd' = IF x.k = "sd" THEN [sd EXCEPT ![x.a] = x.v] ELSE sd
       /\ sl' = IF x.k = "sl" THEN [sl EXCEPT ![x.a] = x.v] ELSE sl
    /\ UNCHANGED <<page, wr, rd, log, rep, got>>

\* ---- the reader --------------------------------------------------------------
\* Two phases, each of plain loads and a load of the page: the event in hand and
\* the time of the next; then the state, and whether the page is still the same
\* (kept in rd.next.d, which the reader has no use for).
Phase1 == IF rd.op = "pull" THEN {"d1", "t1", "t2"} ELSE {}
Phase2 == {"b", "t", "pos", "ts"}
KStart ==
  /\ rd.pc = "idle" /\ rd.n < READS
  /\ \/ rd' = [rd EXCEPT !.pc = "first", !.op = "sync", !.n = @ + 1]
     \/ RLen > 1 /\ rd' = [rd EXCEPT !.pc = "first", !.op = "pull", !.n = @ + 1]
  /\ got' = {} /\ RUn /\ UNCHANGED buf
\* x may be loaded after all of `before' in the order of the program
After(before, deps) ==
  IF LOADS = "tso" THEN before \subseteq got ELSE deps \subseteq got
Load(x, before, deps, f) ==
  /\ x \notin got /\ After(before, deps) /\ got' = got \cup {x} /\ rd' = f /\ RUn /\ UNCHANGED buf
KFirst ==
  /\ rd.pc = "first"
  /\ \/ "d1" \in Phase1 /\ Load("d1", {}, {}, [rd EXCEPT !.now.d = sd[rd.bot]])
     \/ "t1" \in Phase1 /\ Load("t1", {"d1"}, {}, [rd EXCEPT !.now.t = sl[rd.bot]])
     \/ "t2" \in Phase1 /\ Load("t2", {"d1", "t1"}, {}, [rd EXCEPT !.next.t = sl[Nxt], !.miss = Len(log) = rd.lo + 1 /\ sl[(Len(log) - 1) % Slots] # log[Len(log)].t])
     \/ Load("page", Phase1, IF LOADS = "free" THEN {} ELSE Phase1, [rd EXCEPT !.pg = page, !.seen = Len(log)])
KView ==
  /\ rd.pc = "first" /\ Phase1 \cup {"page"} \subseteq got
  /\ rd' = [rd EXCEPT !.pc = "view"] /\ got' = {} /\ RUn /\ UNCHANGED buf
KSecond ==
  /\ rd.pc = "view"
  /\ \/ Load("b", {}, {}, [rd EXCEPT !.b = st[rd.pg.ref].bot])
     \/ Load("t", {"b"}, {}, [rd EXCEPT !.t = st[rd.pg.ref].top])
     \/ Load("pos", {"b", "t"}, {"b"}, [rd EXCEPT !.wait = rd.b = st[rd.pg.ref].pos /\ ~st[rd.pg.ref].ready])
     \/ Load("ts", {"b", "t", "pos"}, {"b", "pos"}, [rd EXCEPT !.s = IF rd.wait THEN st[rd.pg.ref].ev.t ELSE sl[rd.b]])
     \/ Load("page", Phase2, IF LOADS = "free" THEN {} ELSE Phase2, [rd EXCEPT !.next.d = IF Same(page, rd.pg) THEN Nothing ELSE <<9, 9>>])
KAfter ==
  /\ rd.pc = "view" /\ Phase2 \cup {"page"} \subseteq got
  /\ rd' = [rd EXCEPT !.pc = IF rd.next.d = Nothing THEN "decide" ELSE "first", !.next.d = Nothing]
  /\ got' = IF rd.next.d = Nothing THEN {} ELSE Phase1
  /\ RUn /\ UNCHANGED buf
KDecide == (RSync \/ RPull) /\ UNCHANGED <<buf, got>>
KReader == KStart \/ KFirst \/ KView \/ KSecond \/ KAfter \/ KDecide

MStep == (\E w \in W : MWriter(w) \/ Drain(w)) \/ KReader
MSpec == MInit /\ [][MStep]_mvars /\ \A w \in W : WF_mvars(MWriter(w)) /\ WF_mvars(Drain(w))

\* the properties speak of what the memory comes to
Drained == Done /\ \A w \in W : buf[w] = << >>
MContents == Drained => \A i \in First..Len(log) : sd[(i - 1) % Slots] = log[i].d /\ sl[(i - 1) % Slots] = log[i].t
MFinishes == <>Drained
===============================================================================
