------------------------------- MODULE MCBuffer -------------------------------
(* Design check of RingBuffer: every history of one buffer; up to MAXOPS       *)
(* operations, or of any length with the view Rel, in which a state stands    *)
(* for all whose events are in the same order.  Every pushed event gets a new *)
(* identity; `live` is the set of identities a user believes to be stored:    *)
(* push adds one (and drops the smallest when there were already CAP), pull   *)
(* removes the smallest, pop the largest.  The FIFO, the ring positions and   *)
(* `live` must always agree.                                                  *)
EXTENDS RingBuffer, FiniteSets, TLC
CONSTANTS CAP, MAXOPS, MAXW
VARIABLES b,      \* the buffer
          live,   \* ghost: identities stored according to the user
          ret,    \* reply of the last operation
          prev,   \* the buffer before it
          ops
vars == <<b, live, ret, prev, ops>>
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Sorted(S) == [i \in 1..Cardinality(S) |->
                CHOOSE x \in S : Cardinality({y \in S : y < x}) = i - 1]

Init == b = NewBuffer(CAP) /\ live = {} /\ ret = [op |-> "init", r |-> OK, e |-> Untouched]
        /\ prev = NewBuffer(CAP) /\ ops = 0
Do(name, x) == /\ b' = x.b /\ prev' = b /\ ret' = [op |-> name, r |-> x.r, e |-> x.e]
               /\ ops' = ops + 1
Push == LET e == <<ops + 1, 1>> IN
        /\ Do("push", BPush(b, e))
        /\ live' = (IF Cardinality(live) = CAP THEN live \ {Min(live)} ELSE live) \cup {ops + 1}
Pull == Do("pull", BPull(b)) /\ live' = IF live = {} THEN {} ELSE live \ {Min(live)}
Pop  == Do("pop", BPop(b)) /\ live' = IF live = {} THEN {} ELSE live \ {Max(live)}
Read == \E i \in 0..CAP + 2 : Do("read", BRead(b, i)) /\ UNCHANGED live
AttachW == b.w < MAXW /\ Do("attach", [b |-> Attach(b), r |-> OK, e |-> Untouched]) /\ UNCHANGED live

Next == ops < MAXOPS /\ (Push \/ Pull \/ Pop \/ Read \/ AttachW)
Spec == Init /\ [][Next]_vars

Ids == { b.arr[i][1] : i \in 0..CAP } \cup { prev.arr[i][1] : i \in 0..CAP } \cup live
           \cup (IF ret.e = Untouched THEN {} ELSE {ret.e[1]})
Rank(x) == Cardinality({ y \in Ids : y < x })
RankQ(q) == [i \in 1..Len(q) |-> Rank(q[i][1])]
RankA(a) == [i \in 0..CAP |-> Rank(a[i][1])]
Rel == << b.bot, b.top, b.w, RankA(b.arr), RankQ(b.q), prev.bot, prev.top, RankA(prev.arr), RankQ(prev.q),
          { Rank(x) : x \in live }, ret.op, ret.r, IF ret.e = Untouched THEN -1 ELSE Rank(ret.e[1]), 0 \in Ids >>
\* ---- properties -----------------------------------------------------------
TypeOK == b.n = CAP /\ b.w \in 0..MAXW
WellFormed == Well(b)
NewestHeld == [i \in 1..Len(b.q) |-> b.q[i][1]] = Sorted(live)
Bounded == Len(b.q) <= CAP
StatusExact ==
  /\ (ret.r = EMPTY) <=> (ret.op \in {"pull", "pop"} /\ prev.q = << >>)
  /\ (ret.r = BUFFER_OVERFLOW) <=> (ret.op = "push" /\ Len(prev.q) = CAP)
  /\ (ret.r = UNSAFE) <=> /\ ret.op \in {"push", "pull", "pop"} /\ b.w > 1
                          /\ ret.r \notin {EMPTY, BUFFER_OVERFLOW}
  /\ ret.r = EMPTY => b = prev /\ ret.e = Untouched
FifoOut ==
  /\ ret.op = "pull" /\ ret.r # EMPTY => ret.e = prev.q[1] /\ b.q = Tail(prev.q)
  /\ ret.op = "pop" /\ ret.r # EMPTY =>
       ret.e = prev.q[Len(prev.q)] /\ b.q = SubSeq(prev.q, 1, Len(prev.q) - 1)
  /\ ret.op = "push" => IF Len(prev.q) = CAP
                        THEN SubSeq(b.q, 1, CAP - 1) = Tail(prev.q)
                        ELSE SubSeq(b.q, 1, Len(b.q) - 1) = prev.q
Passive == ret.op = "read" => b = prev
===============================================================================
