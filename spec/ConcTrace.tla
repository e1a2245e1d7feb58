------------------------------- MODULE ConcTrace -------------------------------
(***************************************************************************)
(* Linearizability of recorded concurrent histories with respect to the    *)
(* specification (RingBuffer, RingReader).                                 *)
(*                                                                         *)
(* A history is a sequence of calls and returns of operations of several   *)
(* threads on one buffer, its writers and readers.  It is accepted when    *)
(* every operation can be given one instant between its call and its       *)
(* return such that the replies, and what is stored at the end, are those  *)
(* of the specification's operations applied in that order.                *)
(*                                                                         *)
(* The state holds the set S of all specification states still possible    *)
(* after the first `pos` calls and returns; operations are placed as late  *)
(* as possible, when some return needs it.  An empty S means no order      *)
(* explains the history.                                                   *)
(***************************************************************************)
EXTENDS RingReader, FiniteSets, TLC, Json

CONSTANTS FILE,
          JUDGE      \* operations whose replies are judged ({} = all), 111: the stamp order
T == JsonDeserialize(FILE)
Hist == T.hist

VARIABLES h, pos, open, S
vars == <<h, pos, open, S>>

H == Hist[h]
OpOf(k) == H.ops[k]
Code(k) == OpOf(k)[2]
Tgt(k) == OpOf(k)[3] + 1
Datum(k) == OpOf(k)[4]
Res(k) == OpOf(k)[5]
Out(k) == IF OpOf(k)[6] = -1 /\ OpOf(k)[7] = -1 THEN Untouched ELSE <<OpOf(k)[6], OpOf(k)[7]>>
T0(k) == OpOf(k)[8]
T1(k) == OpOf(k)[9]
Overlaps(k) == OpOf(k)[10] = 1          \* overlaps a push of another thread
Stamps == JUDGE = {} \/ 111 \in JUDGE
Judged(k) == JUDGE = {} \/ Code(k) \in JUDGE

Start == [b |-> NewBuffer(T.scns[H.s].n),
          r |-> [i \in 1..T.scns[H.s].nr |-> NewReader(1)],
          stamp |-> 0,                   \* of the newest stamped event
          part |-> 0,                    \* pushes of a bulk operation already placed
          lin |-> {}]                    \* operations already placed, not returned

(* A bulk operation: the same event pushed many times, not atomically. Other  *)
(* operations may fall between its pushes; where makes a difference only near *)
(* its ends, as the buffer keeps the newest n events.                         *)
RECURSIVE PushMany(_, _, _)
PushMany(b, e, k) ==
  IF k = 0 THEN b
  ELSE IF k <= Slots(b) + 1 THEN PushMany(Store(b, e), e, k - 1)
  ELSE LET t == (b.top + k) % Slots(b)
       IN [b EXCEPT !.q = [i \in 1..b.n |-> e], !.arr = [i \in 0..b.n |-> e],
                    !.top = t, !.bot = Inc(b, t), !.cnt = @ + k]
Splits(b, left) == { j \in 1..(left - 1) : j <= Slots(b) + 1 \/ left - j <= Slots(b) + 1 }

(* What a reader may additionally be told while pushes are under way: the   *)
(* newest event may be reserved but not stored yet, so it cannot serve as   *)
(* successor of the event to pull; an event being overwritten may not be    *)
(* recognized as lost by the gap query before it is overwritten.            *)
PullOp(r, b, k) ==
  LET x == RPull(r, b, Res(k), Out(k))
  IN IF ~x.ok /\ Overlaps(k) /\ Res(k) = UNAVAILABLE /\ RLength(r) <= 2 /\ None(Out(k))
     THEN R(TRUE, r) ELSE x
GapOp(r, b, k) ==
  LET x == RGap(r, b, Res(k))
  IN IF ~x.ok /\ Overlaps(k) /\ Res(k) = NO_GAP THEN R(TRUE, r) ELSE x

\* place operation k now: the specification states this leads to
Apply(c, k) ==
  LET done == [c EXCEPT !.lin = @ \cup {k}]
      rd(x) == IF x.ok \/ ~Judged(k) THEN {[done EXCEPT !.r[Tgt(k)] = x.r]} ELSE {}
      r == c.r[Tgt(k)]
      op == Code(k)
  IN CASE op = 9 -> {[done EXCEPT !.b = Attach(c.b)]}
       [] op \in {10, 15, 26} -> {done}
       [] op \in {11, 12} ->
            LET t == IF op = 11 THEN OpOf(k)[7] ELSE T0(k)
                x == WPush(c.b, <<Datum(k), t>>)
            IN IF ~Judged(k)
                  \/ /\ Res(k) = x.r
                     /\ Out(k) = <<Datum(k), t>>
                     /\ op = 11 => /\ t > T0(k) /\ t <= T1(k)
                     \* stamps never decrease in the order of the pushes (W01)
                     /\ op = 11 /\ Stamps => t >= c.stamp
               THEN {[done EXCEPT !.b = x.b, !.stamp = IF op = 11 THEN t ELSE @]} ELSE {}
       [] op = 13 ->
            LET e == <<Datum(k), 5>>
                n == OpOf(k)[6] - c.part
                x == PushMany(c.b, e, n)
            IN {[done EXCEPT !.b = x, !.part = 0]}
               \cup {[c EXCEPT !.b = PushMany(c.b, e, j), !.part = @ + j] : j \in IF c.part = 0 THEN Splits(c.b, n) ELSE {}}
       [] op = 8 -> IF Res(k) = Length(c.b) \/ ~Judged(k) THEN {done} ELSE {}
       [] op = 6 -> IF Res(k) = c.b.bot * 100 + c.b.top \/ ~Judged(k) THEN {done} ELSE {}
       [] op = 21 -> rd(RSync(r, c.b, Res(k)))
       [] op = 22 -> rd(PullOp(r, c.b, k))
       [] op = 23 -> rd(RPop(r, c.b, Res(k), Out(k)))
       [] op = 24 -> rd(GapOp(r, c.b, k))
       [] op = 25 -> rd(RLen(r, c.b, Res(k)))

RECURSIVE Place(_, _)
Place(cs, k) ==                          \* all ways to have k placed
  LET have == {c \in cs : k \in c.lin}
      rest == cs \ have
  IN IF rest = {} THEN have
     ELSE have \cup Place(UNION { UNION {Apply(c, o) : o \in open \ c.lin} : c \in rest }, k)

Final(c) ==
  LET f == H.fin
  IN /\ f[1] = c.b.bot /\ f[2] = c.b.top /\ f[3] = Len(c.b.q)
     /\ \A i \in 1..Len(c.b.q) :
          LET s == (c.b.bot + i - 1) % Slots(c.b)
          IN f[4 + 2 * s] = c.b.q[i][1] /\ f[5 + 2 * s] = c.b.q[i][2]

Init == h \in 1..Len(Hist) /\ pos = 0 /\ open = {} /\ S = {Start}
Next ==
  /\ S # {}
  /\ pos <= Len(H.ev)
  /\ pos' = pos + 1 /\ h' = h
  /\ IF pos = Len(H.ev)
     THEN open' = open /\ S' = {c \in S : Final(c)}
     ELSE LET e == H.ev[pos + 1]
          IN IF e > 0
             THEN open' = open \cup {e} /\ S' = S
             ELSE /\ open' = open \ {-e}
                  /\ S' = {[c EXCEPT !.lin = @ \ {-e}] : c \in Place(S, -e)}
Spec == Init /\ [][Next]_vars
View == <<h, pos>>
Accepted == S # {}
SpecWell == \A c \in S : Well(c.b)
===============================================================================
