------------------------------- MODULE MCReader -------------------------------
(***************************************************************************)
(* The reader's algorithm (src/reader.h): positions and the timestamp of   *)
(* the next event, against what a user is promised (RingReader.tla).       *)
(*                                                                         *)
(* Every history of pushes and reader operations up to MAXPUSH pushes; in  *)
(* each step the reply of the algorithm must be one the specification      *)
(* allows.  FIXED = FALSE is the algorithm before the repairs, which must  *)
(* violate it.  With the view Rel, a state stands for all that differ from *)
(* it only in how many pushes there were before; then there is no need for *)
(* a bound, and all histories are explored whatever their length.          *)
(***************************************************************************)
EXTENDS RingReader, TLC
CONSTANTS CAP, MAXPUSH, FIXED
VARIABLES b,      \* the buffer
          p,      \* the reader: top, bottom, timestamp
          r,      \* the reader a user sees
          ok      \* the last reply was allowed, by kind of operation
vars == <<b, p, r, ok>>

Fine == [sync |-> TRUE, pull |-> TRUE, pop |-> TRUE, gap |-> TRUE, len |-> TRUE]
Init == /\ b = Attach(NewBuffer(CAP)) /\ r = NewReader(1) /\ ok = Fine
        /\ p = [top |-> 0, bot |-> 0, ts |-> 0]

PLen == IF p.top >= p.bot THEN p.top - p.bot ELSE Slots(b) - (p.bot - p.top)
T(i) == b.arr[i][2]                             \* time of a slot
PGap(ts, i) == IF ts < T(i) THEN GAP ELSE NO_GAP
Nxt == Inc(b, p.bot)
Hard == [top |-> b.top, bot |-> b.bot, ts |-> T(b.bot)]

SyncReply ==                                    \* [r |-> reply, p |-> reader afterwards]
  IF b.top = b.bot THEN [r |-> GAP, p |-> Hard]
  ELSE IF FIXED
  THEN IF p.ts < T(b.bot) THEN [r |-> GAP, p |-> Hard]
                          ELSE [r |-> NO_GAP, p |-> [p EXCEPT !.top = b.top]]
  ELSE IF b.top < b.bot
  THEN IF PGap(p.ts, p.bot) = GAP THEN [r |-> GAP, p |-> Hard]
                                  ELSE [r |-> NO_GAP, p |-> [p EXCEPT !.top = b.top]]
  ELSE IF T(b.bot) < p.ts /\ p.ts < T(b.top) THEN [r |-> NO_GAP, p |-> [p EXCEPT !.top = b.top]]
  ELSE [r |-> GAP, p |-> [top |-> b.top,
                          bot |-> IF b.bot < p.bot THEN p.bot ELSE b.bot,
                          ts |-> IF b.bot < p.bot THEN p.ts ELSE T(b.bot)]]
PullReply ==
  IF PLen <= 1 THEN [r |-> UNAVAILABLE, e |-> Untouched, p |-> p]
  ELSE IF FIXED
  THEN IF p.ts < T(b.bot) THEN [r |-> READER_OVERFLOW, e |-> Untouched, p |-> p]
       ELSE IF T(Nxt) < T(p.bot) THEN [r |-> UNAVAILABLE, e |-> Untouched, p |-> p]
       ELSE [r |-> AVAILABLE, e |-> b.arr[p.bot], p |-> [p EXCEPT !.bot = Nxt, !.ts = T(Nxt)]]
  ELSE LET q == [p EXCEPT !.bot = Nxt, !.ts = T(Nxt)]
       IN [r |-> IF PGap(q.ts, q.bot) = GAP THEN READER_OVERFLOW ELSE AVAILABLE, e |-> b.arr[p.bot], p |-> q]
PopReply ==
  IF PLen = 0 THEN [r |-> UNAVAILABLE, e |-> Untouched, p |-> p]
  ELSE LET q == [p EXCEPT !.top = Dec(b, @)]
       IN [r |-> IF PGap(q.ts, q.bot) = GAP THEN READER_OVERFLOW ELSE AVAILABLE, e |-> b.arr[q.top], p |-> q]

Push == /\ b.cnt < MAXPUSH
        /\ b' = WPush(b, <<b.cnt + 1, b.cnt + 1>>).b
        /\ ok' = Fine /\ UNCHANGED <<p, r>>
Sync == LET x == SyncReply IN
        /\ p' = x.p /\ r' = RSync(r, b, x.r).r /\ ok' = [Fine EXCEPT !.sync = RSync(r, b, x.r).ok] /\ UNCHANGED b
Pull == LET x == PullReply IN
        /\ p' = x.p /\ r' = RPull(r, b, x.r, x.e).r /\ ok' = [Fine EXCEPT !.pull = RPull(r, b, x.r, x.e).ok] /\ UNCHANGED b
Pop == LET x == PopReply IN
       /\ p' = x.p /\ r' = RPop(r, b, x.r, x.e).r /\ ok' = [Fine EXCEPT !.pop = RPop(r, b, x.r, x.e).ok] /\ UNCHANGED b
\* queries: they change nothing, so they are judged in every state
GapOK == RGap(r, b, PGap(p.ts, p.bot)).ok
LenOK == RLen(r, b, PLen).ok

AllOK == ok = Fine
Next == AllOK /\ (Push \/ Sync \/ Pull \/ Pop)
Spec == Init /\ [][Next]_vars

\* distances instead of places in the history; all beyond N + 2 are alike
Back(i) == IF b.cnt - i > CAP + 2 THEN CAP + 2 ELSE b.cnt - i
Rel == << IF b.cnt > CAP + 2 THEN CAP + 2 ELSE b.cnt, b.cnt % Slots(b), b.bot, b.top, Len(b.q), [i \in 0..b.n |-> Back(b.arr[i][2])],
          p.top, p.bot, Back(p.ts), Back(r.lo), RLength(r), r.synced, r.lost, ok >>

PullsRight == ok.pull
Told == ok.sync /\ ok.pull
PopsRight == ok.pop
BufferWell == Well(b)
===============================================================================
