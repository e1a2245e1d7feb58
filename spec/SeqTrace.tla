------------------------------- MODULE SeqTrace -------------------------------
(***************************************************************************)
(* Conformance of recorded sequential executions with the specification.   *)
(*                                                                         *)
(* The driver (harness/seq_driver.cpp) records executed operations as a    *)
(* trie: every node is one operation with its arguments, its reply and the *)
(* observable state after it, and every root-to-node path is one execution *)
(* of the real code.  A state of this module is a node together with the   *)
(* specification's state after that history; Next applies the              *)
(* specification's operation of a child node and compares the reply and    *)
(* the observation.  `bad` is the first node that differs, so TLC's        *)
(* counterexample is the offending history.                                *)
(***************************************************************************)
EXTENDS RingReader, TLC, Json, SequencesExt

CONSTANTS FILE,     \* the recorded executions
          JUDGE,    \* operations whose replies this check judges ({} = all of them)
          PORT,     \* "hw": the code for hardware synthesis, which has no lock-free writers; "" = lock-free
          REF       \* the same operations executed by another build of the code ("" = none)
T == JsonDeserialize(FILE)
Nodes == T.nodes
RefNodes == IF REF = "" THEN << >> ELSE JsonDeserialize(REF).nodes
Roots == { T.roots[i] : i \in 1..Len(T.roots) }

VARIABLES n, bufs, wr, rd, stamp, bad
vars == <<n, bufs, wr, rd, stamp, bad>>

\* columns of a node
Op(c) == Nodes[c][1]
A(c) == Nodes[c][2]
B(c) == Nodes[c][3]
CC(c) == Nodes[c][4]
D(c) == Nodes[c][5]
Res(c) == Nodes[c][6]
O(c, i) == Nodes[c][6 + i]
FirstChild(c) == Nodes[c][11]
NChild(c) == Nodes[c][12]
ObsLen(c) == Len(Nodes[c]) - 12
Obs(c, i) == Nodes[c][12 + i]
\* the event the caller passed, after the call
Out(c) == IF O(c, 1) = -1 /\ O(c, 2) = -1 THEN Untouched ELSE <<O(c, 1), O(c, 2)>>

Init == /\ n \in Roots
        /\ bufs = [i \in 1..B(n) |-> NewBuffer(A(n))]
        /\ wr = << >> /\ rd = << >> /\ bad = 0
        /\ stamp = [i \in 1..B(n) |-> 0]     \* last stamp given by a writer

\* every operation: [ok |-> reply as specified, bufs, wr, rd, stamp |-> afterwards]
(* What a writer stores; without lock-free writers, what the buffer does and *)
(* says itself.                                                              *)
WStore(b, e) == IF PORT = "hw" THEN [BPush(b, e) EXCEPT !.e = e] ELSE WPush(b, e)
WSoft(b) == IF PORT = "hw" THEN Soft(b) ELSE OK

Same == [ok |-> TRUE, bufs |-> bufs, wr |-> wr, rd |-> rd, stamp |-> stamp]
BufOp(c, k, x) ==
  [Same EXCEPT !.ok = Res(c) = x.r /\ Out(c) = x.e, !.bufs = [bufs EXCEPT ![k] = x.b]]
BufOp0(c, k, x) ==                               \* no event handed to the call
  [Same EXCEPT !.ok = Res(c) = x.r, !.bufs = [bufs EXCEPT ![k] = x.b]]
RdOp(i, x) == [Same EXCEPT !.ok = x.ok, !.rd = [rd EXCEPT ![i] = x.r]]
Alive(i) == i <= Len(wr) /\ wr[i] # 0

(* Many calls in one step.  The replies are listed after the node.           *)
BulkPush(c, b, soft) ==
  LET k == D(c)
      E(j) == <<((B(c) + j) % 90) + 1, CC(c) + 2 * j>>             \* the j-th event, from 0
      len == IF Len(b.q) + k > b.n THEN b.n ELSE Len(b.q) + k
      off(s) == (s + Slots(b) - b.top) % Slots(b)
      t == (b.top + k) % Slots(b)
  IN [ok |-> \A j \in 0..(k - 1) : Obs(c, j + 1) = (IF Len(b.q) + j >= b.n THEN BUFFER_OVERFLOW ELSE soft),
      b |-> [b EXCEPT !.q = TLCEval([i \in 1..len |-> LET from == Len(b.q) + k - len + i          \* of the old and the new ones
                                                    IN IF from <= Len(b.q) THEN b.q[from] ELSE E(from - Len(b.q) - 1)]),
                      !.arr = TLCEval([s \in 0..b.n |-> IF off(s) < k THEN E(off(s) + Slots(b) * ((k - 1 - off(s)) \div Slots(b))) ELSE b.arr[s]]),
                      !.top = t, !.cnt = @ + k, !.bot = (t + Slots(b) - len) % Slots(b)]]
Triple(c, w, j) == LET x == (j - 1) * w IN
  [r |-> Obs(c, x + 1), e |-> IF Obs(c, x + 2) = -1 /\ Obs(c, x + 3) = -1 THEN Untouched ELSE <<Obs(c, x + 2), Obs(c, x + 3)>>]
\* pulls (or pops) of the buffer: q loses its first (last) events
BulkTake(c, b, front) ==
  LET k == B(c)
      len == Len(b.q)
      m == IF k < len THEN k ELSE len
  IN [ok |-> \A j \in 1..k : LET x == Triple(c, 3, j)
                             IN IF j > len THEN x.r = EMPTY /\ x.e = Untouched
                                ELSE x.r = Soft(b) /\ x.e = b.q[IF front THEN j ELSE len + 1 - j],
      b |-> IF front THEN [b EXCEPT !.q = SubSeq(b.q, m + 1, len), !.bot = (@ + m) % Slots(b)]
                     ELSE [b EXCEPT !.q = SubSeq(b.q, 1, len - m), !.top = (@ + Slots(b) - m) % Slots(b)]]
Fold(r0, k, F(_, _)) == FoldLeft(LAMBDA acc, j : IF acc.ok THEN LET x == F(acc.r, j) IN R(x.ok, x.r) ELSE acc, R(TRUE, r0), [j \in 1..k |-> j])

Effect(c) ==
  LET op == Op(c)
      k == A(c) + 1                              \* buffer, writer or reader
      bb == bufs[k]
      r == rd[k]
      rb == bufs[r.buf]
  IN CASE op = 1 -> BufOp0(c, k, BPush(bb, <<B(c), CC(c)>>))
       [] op = 2 -> BufOp(c, k, BPull(bb))
       [] op = 3 -> BufOp(c, k, BPop(bb))
       [] op = 4 -> BufOp(c, k, BRead(bb, B(c)))
       [] op = 5 ->                              \* O1: an out-of-bounds write changed memory
            LET x == BufOp0(c, k, BWrite(bb, <<CC(c), D(c)>>, B(c)))
            IN [x EXCEPT !.ok = @ /\ O(c, 1) = 0]
       [] op = 6 -> [Same EXCEPT !.ok = Res(c) = OK /\ O(c, 1) = bb.bot /\ O(c, 2) = bb.top]
       [] op = 7 -> [Same EXCEPT !.ok = Res(c) = OK /\ O(c, 1) = bb.bot /\ O(c, 2) = bb.top
                                   /\ O(c, 3) = bb.arr[bb.bot][2] /\ O(c, 4) = bb.arr[bb.top][2]]
       [] op = 8 -> [Same EXCEPT !.ok = Res(c) = Length(bb)]
       [] op = 9 -> [Same EXCEPT !.bufs = [bufs EXCEPT ![k] = Attach(bb)], !.wr = Append(wr, k)]
       [] op = 10 -> [Same EXCEPT !.wr = IF Alive(k) THEN [wr EXCEPT ![k] = 0] ELSE wr]
       [] op = 11 ->                             \* push: stamped with the system clock
            IF ~Alive(k) THEN Same
            ELSE LET x == WPush(bufs[wr[k]], <<B(c), O(c, 2)>>)
                 IN [Same EXCEPT
                       !.ok = /\ Res(c) = x.r
                              /\ O(c, 1) = B(c)
                              /\ O(c, 2) >= O(c, 3) /\ O(c, 2) < O(c, 4)
                              /\ O(c, 2) >= stamp[wr[k]],
                       !.bufs = [bufs EXCEPT ![wr[k]] = x.b],
                       !.stamp = [stamp EXCEPT ![wr[k]] = O(c, 2)]]
       [] op = 12 ->                             \* push_all: keeps the time it was given
            IF ~Alive(k) THEN Same
            ELSE LET x == WStore(bufs[wr[k]], <<B(c), CC(c)>>)
                 IN [Same EXCEPT !.ok = Res(c) = x.r /\ Out(c) = x.e,
                                 !.bufs = [bufs EXCEPT ![wr[k]] = x.b]]
       [] op = 13 -> [Same EXCEPT !.bufs = [bufs EXCEPT ![k] = bufs[B(c) + 1]]]
       [] op = 14 -> [Same EXCEPT !.bufs = [bufs EXCEPT ![k] = NewBuffer(bb.n)],
                                  !.wr = [i \in DOMAIN wr |-> IF wr[i] = k THEN 0 ELSE wr[i]]]
       [] op \in {15, 26} ->                     \* diagnosis: changes nothing, shows events only
            [Same EXCEPT !.ok = O(c, 1) = 0]
       [] op = 16 -> [Same EXCEPT !.ok = Res(c) = 1 /\ O(c, 1) = 0]
       [] op = 41 -> [Same EXCEPT !.ok = O(c, 1) = 0 /\ O(c, 4) = r.cp]
       [] op = 20 -> [Same EXCEPT !.rd = Append(rd, NewReader(k))]
       [] op = 21 -> RdOp(k, RSync(r, rb, Res(c)))
       [] op = 22 -> RdOp(k, RPull(r, rb, Res(c), Out(c)))
       [] op = 23 -> RdOp(k, RPop(r, rb, Res(c), Out(c)))
       [] op = 24 -> RdOp(k, RGap(r, rb, Res(c)))
       [] op = 25 -> RdOp(k, RLen(r, rb, Res(c)))
       [] op = 30 -> RdOp(k, CReset(r, rb, Res(c), O(c, 4)))
       [] op = 31 -> LET x == CSet(r, rb, B(c), Res(c), O(c, 4))
                     IN RdOp(k, [x EXCEPT !.ok = @ /\ O(c, 1) = B(c)])
       [] op = 32 -> RdOp(k, CInc(r, rb, Res(c), O(c, 4)))
       [] op = 33 -> RdOp(k, CDec(r, rb, Res(c), O(c, 4)))
       [] op = 34 -> RdOp(k, CPull(r, rb, Res(c), Out(c), O(c, 4)))
       [] op = 35 -> RdOp(k, CRead(r, rb, Res(c), Out(c), O(c, 4)))
       [] op = 36 -> RdOp(k, CNext(r, rb, Res(c), Out(c), O(c, 4)))
       [] op = 37 -> RdOp(k, CPrev(r, rb, Res(c), Out(c), O(c, 4)))
       [] op = 38 -> RdOp(k, CLen(r, rb, Res(c), O(c, 4)))
       [] op = 39 -> RdOp(k, CCons(r, rb, Res(c), O(c, 4)))
       [] op = 50 -> LET x == BulkPush(c, bb, Soft(bb)) IN [Same EXCEPT !.ok = x.ok, !.bufs = [bufs EXCEPT ![k] = x.b]]
       [] op = 51 -> LET x == BulkPush(c, bufs[wr[k]], WSoft(bufs[wr[k]])) IN [Same EXCEPT !.ok = x.ok, !.bufs = [bufs EXCEPT ![wr[k]] = x.b]]
       [] op \in {52, 53} -> LET x == BulkTake(c, bb, op = 52) IN [Same EXCEPT !.ok = x.ok, !.bufs = [bufs EXCEPT ![k] = x.b]]
       [] op = 54 -> RdOp(k, Fold(r, B(c), LAMBDA q, j : LET t == Triple(c, 3, j) IN RPull(q, rb, t.r, t.e)))
       [] op = 55 -> RdOp(k, Fold(r, B(c), LAMBDA q, j : LET t == Triple(c, 3, j) IN RPop(q, rb, t.r, t.e)))
       [] op = 56 -> RdOp(k, Fold(r, B(c), LAMBDA q, j : CInc(q, rb, Obs(c, 2 * j - 1), Obs(c, 2 * j))))
       [] op = 57 -> RdOp(k, Fold(r, B(c), LAMBDA q, j : CDec(q, rb, Obs(c, 2 * j - 1), Obs(c, 2 * j))))
       [] op = 58 -> RdOp(k, Fold(r, B(c), LAMBDA q, j : LET t == Triple(c, 4, j) IN CPull(q, rb, t.r, t.e, Obs(c, 4 * j))))
       [] op = 40 -> RdOp(k, CSetCur(r, rb, B(c), Res(c), O(c, 4)))

(* What can be seen of every buffer after the operation: positions, length  *)
(* and (when recorded) the content of every slot.                           *)
RECURSIVE ObsFrom(_, _, _, _)
ObsFrom(c, bs, i, full) ==
  IF i > Len(bs) THEN TRUE
  ELSE LET b == bs[i]
           w == IF full THEN 3 + 2 * Slots(b) ELSE 3
           at == (i - 1) * w
       IN /\ Obs(c, at + 1) = b.bot /\ Obs(c, at + 2) = b.top
          /\ Obs(c, at + 3) = Len(b.q)
          /\ full => \A s \in 0..b.n : /\ Obs(c, at + 4 + 2 * s) = b.arr[s][1]
                                       /\ Obs(c, at + 5 + 2 * s) = b.arr[s][2]
          /\ ObsFrom(c, bs, i + 1, full)
ObsOK(c, bs) == IF ObsLen(c) = 0 \/ Op(c) >= 50 THEN TRUE
                ELSE ObsFrom(c, bs, 1, ObsLen(c) > 3 * Len(bs))

(* Replies of operations outside JUDGE are not compared; the specification's *)
(* state moves on all the same, so what such an operation spoils shows later. *)
Judged(c) == JUDGE = {} \/ Op(c) \in JUDGE
(* Judging one build of the code by another: it is enough that they do the   *)
(* same.                                                                     *)
Alike(c) == REF # "" /\ Nodes[c] = RefNodes[c]

Next == /\ bad = 0
        /\ NChild(n) > 0
        /\ \E c \in FirstChild(n)..(FirstChild(n) + NChild(n) - 1) :
             LET e == Effect(c)
             IN /\ n' = c
                /\ bufs' = e.bufs /\ wr' = e.wr /\ rd' = e.rd /\ stamp' = e.stamp
                /\ bad' = IF Alike(c) \/ ((e.ok \/ ~Judged(c)) /\ ObsOK(c, e.bufs)) THEN 0 ELSE c
Spec == Init /\ [][Next]_vars
View == n
\* what counterexamples show
Shown == [n |-> n, bad |-> bad, rd |-> rd, wr |-> wr, bufs |-> IF \A i \in DOMAIN bufs : bufs[i].n < 40 THEN bufs ELSE << >>]
Accepted == bad = 0
SpecWell == \A i \in DOMAIN bufs : Well(bufs[i])
===============================================================================
