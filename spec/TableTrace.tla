------------------------------ MODULE TableTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded applications of the connectives, the duration   *)
(* operators and the event operations with Logic and EventAlg.             *)
(*                                                                         *)
(* A row is [name, arguments, results].  Rows of one machine history (the  *)
(* event operations) share the state `ev` of the specification's events.   *)
(***************************************************************************)
EXTENDS Logic, EventAlg, TLC, Json, FiniteSets

CONSTANT FILE
T == JsonDeserialize(FILE)
Rows == T.rows

VARIABLES i, ev, bad
vars == <<i, ev, bad>>

Name == Rows[i].op
A == Rows[i].a
R == Rows[i].r
\* a nested connective: <<0,v>> constant, <<1,x>> not, <<2,x,y>> and, <<3,x,y>> or
RECURSIVE Eval(_)
Eval(x) == CASE x[1] = 0 -> x[2]
             [] x[1] = 1 -> Not3(Eval(x[2]))
             [] x[1] = 2 -> And3(Eval(x[2]), Eval(x[3]))
             [] x[1] = 3 -> Or3(Eval(x[2]), Eval(x[3]))
Dur(x) == <<<<x[1], x[2]>>, x[3] = 1>>           \* sign, limbs, unknown
B(b) == IF b THEN 1 ELSE 0
Bools(s) == [k \in DOMAIN s |-> B(s[k])]
Ev(x) == [t |-> x[1], d |-> x[2]]
Seen(es) == [k \in DOMAIN es |-> <<es[k].t, es[k].d>>]

Default == [t |-> T.zero, d |-> 0]
(* the event operations: results are all events as seen afterwards *)
After == CASE Name = "ev.start" -> [k \in 1..3 |-> Default]
           [] Name = "ev.setTime" -> [ev EXCEPT ![A[1]] = SetTime(@, A[2])]
           [] Name = "ev.setData" -> [ev EXCEPT ![A[1]] = SetData(@, A[2])]
           [] Name = "ev.set" -> [ev EXCEPT ![A[1]] = [t |-> A[3], d |-> A[2]]]
           [] Name = "ev.make" -> [ev EXCEPT ![A[1]] = [t |-> A[3], d |-> A[2]]]
           [] Name = "ev.copy" -> [ev EXCEPT ![A[1]] = ev[A[2]]]
           [] Name = "ev.assign" -> [ev EXCEPT ![A[1]] = ev[A[2]]]
           [] Name = "ev.assignp" -> [ev EXCEPT ![A[1]] = ev[A[2]]]
           [] OTHER -> ev

(* Times as <<seconds, nanoseconds>>: the number of nanoseconds they denote, and  *)
(* the one way to write it.                                                      *)
Num(k) == Norm(IF k < 0 THEN -1 ELSE 1, LET m == IF k < 0 THEN -k ELSE k IN <<m % BASE, (m \div BASE) % BASE, m \div (BASE * BASE)>>)
Zero == <<0, << >>>>
Negated(x) == <<-x[1], x[2]>>
Ns(x) == BigAdd(BigMul(<<x[1], x[2]>>, Num(1000000000)), Num(x[3]))
Canonical(x) == x[3] >= 0 /\ x[3] < 1000000000

OkRow ==
  CASE Name = "expr" -> R[1] = Eval(A)
    [] Name = "b3b4" -> R[1] = A[1]                \* and back again
    [] Name = "b4b3" -> R[1] = (IF A[1] = SYM THEN UU ELSE A[1])
    [] Name = "name" -> R[1] = A[1]                \* printed as its name: true, false, unknown, symbol
    [] Name = "sum" -> Dur(R) = DSum(Dur(A[1]), Dur(A[2]))
    [] Name = "mul" -> Dur(R) = DMul(Dur(A[1]), Dur(A[2]))
    [] Name = "less" -> R[1] = DLess(Dur(A[1]), Dur(A[2]))
    [] Name = "lessexpr" -> R[1] = DLess(DSum(Dur(A[1]), Dur(A[2])), DMul(Dur(A[1]), Dur(A[3])))
    [] Name = "evev" -> R = Bools(EvEv(Ev(A[1]), Ev(A[2])))
    [] Name = "evtime" -> R = Bools(ByTime(A[1][1], A[2]))
    [] Name = "timeev" -> R = Bools(ByTime(A[2], A[1][1]))
    [] Name = "tadd" -> Ns(R) = BigAdd(Ns(A[1]), Ns(A[2])) /\ Canonical(R)
    [] Name = "tsub" -> Ns(R) = BigAdd(Ns(A[1]), Negated(Ns(A[2]))) /\ Canonical(R)
    [] Name = "tcmp" -> LET x == Ns(A[1])  y == Ns(A[2])
                        IN R = Bools(<<BigLess(x, y), ~BigLess(y, x), BigLess(y, x), ~BigLess(x, y), x = y, x # y, x # Zero>>)
    [] Name = "tclear" -> Ns(R) = Zero
    [] Name = "tus" -> Ns(R) = BigMul(<<A[1], A[2]>>, Num(1000)) /\ Canonical(R)
    [] Name = "clock" -> R[1] = Ns(A) /\ R[2] = Ns(A)
    [] OTHER -> R = Seen(After)

Init == i = 1 /\ ev = << >> /\ bad = 0
Next == /\ bad = 0 /\ i <= Len(Rows)
        /\ i' = i + 1
        /\ ev' = After
        /\ bad' = IF OkRow THEN 0 ELSE i
Spec == Init /\ [][Next]_vars
View == i
Accepted == bad = 0
===============================================================================
