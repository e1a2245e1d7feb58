------------------------------- MODULE LockFree -------------------------------
(***************************************************************************)
(* The lock-free protocol between the writers of a buffer and a reader     *)
(* (ATOMIC_PUSH, ATOMIC_TRIPLE, ATOMIC_TIME in src/atomic_compat.h, push   *)
(* in src/writer.h, synchronize and pull in src/reader.h), one shared      *)
(* memory access per step.                                                 *)
(*                                                                         *)
(* A push reserves the next slot by exchanging the page, a pointer to the  *)
(* current state (top, bottom) with a counter, and stores its event in the *)
(* slot afterwards, data and time one after the other; the next push waits *)
(* until the state of the last one is `ready'.  A reader takes a           *)
(* consistent view of the state by loading the page before and after.      *)
(*                                                                         *)
(* `log' is the order of the successful exchanges: the order in which the  *)
(* pushes take effect.  DESIGN selects the protocol of the code ("fixed")  *)
(* or one of its broken relatives, which must violate the properties:      *)
(*   "original"   one state per writer, and waiting by comparing the slot  *)
(*                of the last push with its event (as before the repairs)  *)
(*   "nocounter"  the page is exchanged without counting (ABA)             *)
(*   "early"      the time is taken before the page is loaded              *)
(*   "nowait"     a push does not wait for the previous one                *)
(*   "onestate"   the state in use may be the one being prepared           *)
(*   "norecheck"  the reader does not load the page again                  *)
(*   "slottime"   the reader takes the time of the oldest event from its   *)
(*                slot, even when it is not there yet                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS W,        \* the writers
          NPUSH,    \* pushes of each
          N,        \* capacity
          READS,    \* operations of the reader
          DESIGN

VARIABLES page,     \* [ref, cnt]
          st,       \* the states, by reference
          sd, sl,   \* data and time of the slots
          wr,       \* the writers
          rd,       \* the reader
          log,      \* pushed events, in the order of their exchanges
          rep       \* [err, i] of the completed pushes
vars == <<page, st, sd, sl, wr, rd, log, rep>>

Slots == N + 1
Inc(i) == IF i + 1 >= Slots THEN 0 ELSE i + 1
Global == <<0, 0>>
Refs == {Global} \cup { <<w, k>> : w \in W, k \in 1..2 }
Nothing == <<0, 0>>
NoEv == [d |-> Nothing, t |-> 0]
OK == 0
BUFFER_OVERFLOW == 2
Original == DESIGN = "original"
Same(p, q) == p.ref = q.ref /\ (DESIGN = "nocounter" \/ p.cnt = q.cnt)

Init ==
  /\ page = [ref |-> Global, cnt |-> 0]
  /\ st = [r \in Refs |-> [top |-> 0, bot |-> 0, pos |-> 0, ev |-> NoEv, ready |-> TRUE]]
  /\ sd = [i \in 0..N |-> Nothing] /\ sl = [i \in 0..N |-> 0]
  /\ wr = [w \in W |-> [pc |-> IF DESIGN = "early" THEN "stamp" ELSE "load", n |-> 0, cur |-> [ref |-> Global, cnt |-> 0],
                        ref |-> <<w, 1>>, slot |-> 0, err |-> OK, ev |-> NoEv]]
  /\ rd = [pc |-> "idle", n |-> 0, op |-> "none", top |-> 0, bot |-> 0, ts |-> 0,
           now |-> NoEv, next |-> NoEv, pg |-> [ref |-> Global, cnt |-> 0], b |-> 0, t |-> 0, s |-> 0, wait |-> FALSE, seen |-> 0,
           lo |-> 1, first |-> TRUE, told |-> TRUE, taken |-> 0, good |-> TRUE, miss |-> FALSE]
  /\ log = << >> /\ rep = {}

\* ---- a push ----------------------------------------------------------------
Go(w, pc) == wr' = [wr EXCEPT ![w].pc = pc]
Stamp == Len(log) + 1                       \* a clock that ticks with every push

WStamp(w) ==
  /\ wr[w].pc = "stamp"
  /\ wr' = [wr EXCEPT ![w].pc = "load", ![w].ev = [d |-> <<w, wr[w].n + 1>>, t |-> Stamp]]
  /\ UNCHANGED <<page, st, sd, sl, rd, log, rep>>
WLoad(w) ==
  /\ wr[w].pc = "load"
  /\ wr' = [wr EXCEPT ![w].cur = page, ![w].pc = IF DESIGN = "nowait" THEN "bottom" ELSE "wait",
                      ![w].ref = IF Original THEN IF page.ref = <<w, 1>> THEN Global ELSE <<w, 1>>
                                 ELSE IF DESIGN = "onestate" THEN <<w, 1>>
                                 ELSE IF page.ref = <<w, 1>> THEN <<w, 2>> ELSE <<w, 1>>]
  /\ UNCHANGED <<page, st, sd, sl, rd, log, rep>>
WWait(w) ==
  LET s == st[wr[w].cur.ref]
  IN /\ wr[w].pc = "wait"
     /\ IF Original
        THEN Go(w, IF s.ev = [d |-> sd[s.pos], t |-> sl[s.pos]] THEN "bottom" ELSE "wait")
        ELSE Go(w, IF s.ready THEN "bottom" ELSE "load")
     /\ UNCHANGED <<page, st, sd, sl, rd, log, rep>>
WBottom(w) ==
  /\ wr[w].pc = "bottom"
  /\ st' = [st EXCEPT ![wr[w].ref].bot = st[wr[w].cur.ref].bot]
  /\ Go(w, "top")
  /\ UNCHANGED <<page, sd, sl, rd, log, rep>>
WTop(w) ==
  LET t == st[wr[w].cur.ref].top
  IN /\ wr[w].pc = "top"
     /\ st' = [st EXCEPT ![wr[w].ref].top = t, ![wr[w].ref].pos = t]
     /\ Go(w, "body")
     /\ UNCHANGED <<page, sd, sl, rd, log, rep>>
\* what only touches the state being prepared: time, top, bottom, status
WBody(w) ==
  LET r == wr[w].ref
      t == st[r].top
      p == Inc(t) = st[r].bot
      e == IF DESIGN = "early" THEN wr[w].ev ELSE [d |-> <<w, wr[w].n + 1>>, t |-> Stamp]
  IN /\ wr[w].pc = "body"
     /\ st' = [st EXCEPT ![r].top = Inc(t), ![r].bot = IF p THEN Inc(@) ELSE @]
     /\ wr' = [wr EXCEPT ![w].pc = "prepare", ![w].slot = t, ![w].ev = e, ![w].err = IF p THEN BUFFER_OVERFLOW ELSE OK]
     /\ UNCHANGED <<page, sd, sl, rd, log, rep>>
WPrepare(w) ==
  /\ wr[w].pc = "prepare"
  /\ st' = [st EXCEPT ![wr[w].ref].ev = wr[w].ev, ![wr[w].ref].ready = FALSE]
  /\ Go(w, "cas")
  /\ UNCHANGED <<page, sd, sl, rd, log, rep>>
WCas(w) ==
  /\ wr[w].pc = "cas"
  /\ IF Same(page, wr[w].cur)
     THEN /\ page' = [ref |-> wr[w].ref, cnt |-> wr[w].cur.cnt + 1]
          /\ log' = Append(log, wr[w].ev)
          /\ rep' = rep \cup {[w |-> w, err |-> wr[w].err, i |-> Len(log) + 1]}
          /\ Go(w, "data")
     ELSE Go(w, "load") /\ UNCHANGED <<page, log, rep>>
  /\ UNCHANGED <<st, sd, sl, rd>>
WData(w) ==
  /\ wr[w].pc = "data"
  /\ sd' = [sd EXCEPT ![wr[w].slot] = wr[w].ev.d]
  /\ Go(w, "time")
  /\ UNCHANGED <<page, st, sl, rd, log, rep>>
Next(w) == IF wr[w].n + 1 = NPUSH THEN "done" ELSE IF DESIGN = "early" THEN "stamp" ELSE "load"
WTime(w) ==
  /\ wr[w].pc = "time"
  /\ sl' = [sl EXCEPT ![wr[w].slot] = wr[w].ev.t]
  /\ wr' = IF Original THEN [wr EXCEPT ![w].n = @ + 1, ![w].pc = Next(w)] ELSE [wr EXCEPT ![w].pc = "ready"]
  /\ UNCHANGED <<page, st, sd, rd, log, rep>>
WReady(w) ==
  /\ wr[w].pc = "ready"
  /\ st' = [st EXCEPT ![wr[w].ref].ready = TRUE]
  /\ wr' = [wr EXCEPT ![w].n = @ + 1, ![w].pc = Next(w)]
  /\ UNCHANGED <<page, sd, sl, rd, log, rep>>
Writer(w) == \/ WStamp(w) \/ WLoad(w) \/ WWait(w) \/ WBottom(w) \/ WTop(w) \/ WBody(w) \/ WPrepare(w)
             \/ WCas(w) \/ WData(w) \/ WTime(w) \/ WReady(w)

\* ---- the reader --------------------------------------------------------------
\* rd.lo, told, taken and good are ghosts: the index (in log) of the event to be
\* taken next, whether a loss was reported since the last event was taken, the
\* index of that event, whether the event behind the oldest one was not stored
\* yet when its time was taken, and whether everything was as it should be.
RLen == IF rd.top >= rd.bot THEN rd.top - rd.bot ELSE Slots - (rd.bot - rd.top)
RUn == UNCHANGED <<page, st, sd, sl, wr, log, rep>>
First == IF Len(log) <= N THEN 1 ELSE Len(log) - N + 1     \* oldest event not discarded
RStart ==
  /\ rd.pc = "idle" /\ rd.n < READS
  /\ \/ rd' = [rd EXCEPT !.pc = "before", !.op = "sync", !.n = @ + 1]
     \/ RLen > 1 /\ rd' = [rd EXCEPT !.pc = "d1", !.op = "pull", !.n = @ + 1]
  /\ RUn
Nxt == Inc(rd.bot)
RD1 == rd.pc = "d1" /\ rd' = [rd EXCEPT !.pc = "t1", !.now.d = sd[rd.bot]] /\ RUn
RT1 == rd.pc = "t1" /\ rd' = [rd EXCEPT !.pc = "t2", !.now.t = sl[rd.bot]] /\ RUn
RT2 == /\ rd.pc = "t2"
       /\ rd' = [rd EXCEPT !.pc = "before", !.next.t = sl[Nxt],
                           !.miss = Len(log) = rd.lo + 1 /\ sl[(Len(log) - 1) % Slots] # log[Len(log)].t]
       /\ RUn
\* a consistent view of the state
RBefore == rd.pc = "before" /\ rd' = [rd EXCEPT !.pc = "b", !.pg = page, !.seen = Len(log)] /\ RUn
RB == rd.pc = "b" /\ rd' = [rd EXCEPT !.pc = "t", !.b = st[rd.pg.ref].bot] /\ RUn
RT == rd.pc = "t" /\ rd' = [rd EXCEPT !.pc = "pos", !.t = st[rd.pg.ref].top] /\ RUn
RPos == /\ rd.pc = "pos"
        /\ rd' = [rd EXCEPT !.pc = "ts", !.wait = DESIGN # "slottime" /\ rd.b = st[rd.pg.ref].pos /\ ~st[rd.pg.ref].ready]
        /\ RUn
RTs == rd.pc = "ts" /\ rd' = [rd EXCEPT !.pc = "after", !.s = IF rd.wait THEN st[rd.pg.ref].ev.t ELSE sl[rd.b]] /\ RUn
RAfter == /\ rd.pc = "after"
          /\ rd' = [rd EXCEPT !.pc = IF DESIGN # "norecheck" /\ ~Same(page, rd.pg) THEN "before" ELSE "decide"]
          /\ RUn
Idle(f) == [f EXCEPT !.pc = "idle", !.now = NoEv, !.next = NoEv, !.pg = [ref |-> Global, cnt |-> 0], !.b = 0, !.t = 0, !.s = 0, !.wait = FALSE, !.miss = FALSE, !.seen = 0]
Seen == rd.seen                                            \* pushes the view includes
FirstSeen == IF Seen <= N THEN 1 ELSE Seen - N + 1
RSync ==
  /\ rd.pc = "decide" /\ rd.op = "sync"
  /\ rd' = Idle(
       IF rd.t = rd.b
       THEN rd                                             \* nothing stored yet
       ELSE IF rd.ts < rd.s
            THEN [rd EXCEPT !.top = rd.t, !.bot = rd.b, !.ts = rd.s, !.lo = FirstSeen, !.told = TRUE, !.first = FALSE,
                            !.good = @ /\ (rd.first \/ rd.lo < First)]      \* GAP: something was lost
            ELSE [rd EXCEPT !.top = rd.t, !.good = @ /\ rd.lo >= FirstSeen])  \* NO_GAP: nothing was lost
  /\ RUn
RPull ==
  /\ rd.pc = "decide" /\ rd.op = "pull"
  /\ rd' = Idle(
       IF rd.ts < rd.s
       THEN [rd EXCEPT !.told = TRUE, !.good = @ /\ rd.lo < First]           \* READER_OVERFLOW
       ELSE IF rd.next.t < rd.now.t
       THEN [rd EXCEPT !.good = @ /\ rd.miss]                               \* UNAVAILABLE: the newest one was not stored yet
       ELSE [rd EXCEPT !.bot = Nxt, !.ts = rd.next.t, !.taken = rd.lo, !.told = FALSE, !.lo = @ + 1,
                       !.good = /\ @
                                /\ rd.lo <= Len(log) /\ rd.now = log[rd.lo]  \* a whole event, the next in order
                                /\ rd.lo > rd.taken
                                /\ (rd.lo = rd.taken + 1 \/ rd.told)])
  /\ RUn
Reader == \/ RStart \/ RD1 \/ RT1 \/ RT2 \/ RBefore \/ RB \/ RT \/ RPos \/ RTs \/ RAfter \/ RSync \/ RPull

Done == \A w \in W : wr[w].pc = "done"
Step == (\E w \in W : Writer(w)) \/ Reader
Spec == Init /\ [][Step]_vars /\ \A w \in W : WF_vars(Writer(w))

\* ---- properties ----------------------------------------------------------------
Cur == st[page.ref]
TypeOK == page.ref \in Refs /\ Len(log) <= Cardinality(W) * NPUSH
\* W02: the page always describes the pushes that took effect, in their order
Positions == /\ Cur.top = Len(log) % Slots
             /\ Cur.bot = (First - 1) % Slots
\* no event is lost, duplicated, moved or mixed
Contents == Done => \A i \in First..Len(log) : /\ sd[(i - 1) % Slots] = log[i].d
                                               /\ sl[(i - 1) % Slots] = log[i].t
\* all but the last event are in their slots
Stored == \A i \in First..Len(log) - 1 : /\ sd[(i - 1) % Slots] = log[i].d
                                         /\ sl[(i - 1) % Slots] = log[i].t
Once == \A i, j \in 1..Len(log) : log[i].d = log[j].d => i = j
OwnOrder == \A i, j \in 1..Len(log) : i < j /\ log[i].d[1] = log[j].d[1] => log[i].d[2] < log[j].d[2]
Statuses == \A r \in rep : r.err = IF r.i > N THEN BUFFER_OVERFLOW ELSE OK
\* W01: stamps in the order of the pushes
StampOrder == \A i \in 1..Len(log) - 1 : log[i].t <= log[i + 1].t
\* R04
Whole == rd.good
\* Targets whose page is not counted ("nocounter"): what holds there holds as long
\* as at most one push takes effect while a push or a view is under way (P03).
Near == /\ \A w \in W : wr[w].pc \in {"wait", "bottom", "top", "body", "prepare", "cas"} => page.cnt - wr[w].cur.cnt <= 1
        /\ rd.pc \in {"b", "t", "pos", "ts", "after", "decide"} => page.cnt - rd.pg.cnt <= 1
\* W03
Finishes == <>Done
\* from anywhere, the writers can go on: no writer waits for what cannot happen
NoWedge == Done \/ \E w \in W : ENABLED Writer(w)
===============================================================================
