--------------------------------- MODULE Logic ---------------------------------
(***************************************************************************)
(* The three-valued logic of rtmlib (src/rmtld3/rmtld3.h): strong Kleene   *)
(* connectives, durations that may be unknown, and unbounded integers for  *)
(* values beyond TLC's own.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* three_valued_type
TT == 0
FF == 1
UU == 2
B3 == {TT, FF, UU}
\* four_valued_type adds the evaluators' internal "not decided yet"
SYM == 3

(* Strong Kleene, from what a result has to be: a connective is conclusive  *)
(* exactly when every way to resolve the unknown operands agrees.           *)
Resolve(v) == IF v = UU THEN {TT, FF} ELSE {v}
Common(S) == IF S = {TT} THEN TT ELSE IF S = {FF} THEN FF ELSE UU
AndC(x, y) == IF x = TT /\ y = TT THEN TT ELSE FF
OrC(x, y) == IF x = TT \/ y = TT THEN TT ELSE FF
NotC(x) == IF x = TT THEN FF ELSE TT
And3(a, b) == Common({AndC(x, y) : x \in Resolve(a), y \in Resolve(b)})
Or3(a, b) == Common({OrC(x, y) : x \in Resolve(a), y \in Resolve(b)})
Not3(a) == Common({NotC(x) : x \in Resolve(a)})

ASSUME KleeneTables ==
  /\ \A a \in B3 : And3(a, FF) = FF /\ And3(a, TT) = a /\ And3(a, a) = a
  /\ \A a \in B3 : Or3(a, TT) = TT /\ Or3(a, FF) = a /\ Or3(a, a) = a
  /\ \A a \in B3 : Not3(Not3(a)) = a
  /\ \A a, b \in B3 : /\ Not3(And3(a, b)) = Or3(Not3(a), Not3(b))
                      /\ And3(a, b) = And3(b, a) /\ Or3(a, b) = Or3(b, a)
  /\ \A a, b, c \in B3 : And3(a, Or3(b, c)) = Or3(And3(a, b), And3(a, c))

\* the step of until and since: what the two operands at one event decide
Step(phi1, phi2) == IF phi2 # FF THEN phi2 ELSE IF phi1 # TT THEN phi1 ELSE SYM

(***************************************************************************)
(* Integers as <<sign, limbs>>, sign in {-1,0,1}, limbs least significant  *)
(* first in base 10^4, without leading zeros.                              *)
(***************************************************************************)
BASE == 10000
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Trim(_)
Trim(a) == IF a # << >> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0
                  ELSE IF Limb(a, i) # Limb(b, i) THEN (IF Limb(a, i) < Limb(b, i) THEN -1 ELSE 1)
                  ELSE CmpAt(a, b, i - 1)
MagCmp(a, b) == CmpAt(a, b, Max2(Len(a), Len(b)))
RECURSIVE AddAt(_, _, _, _)
AddAt(a, b, i, c) ==
  IF i > Max2(Len(a), Len(b)) THEN IF c = 0 THEN << >> ELSE <<c>>
  ELSE LET s == Limb(a, i) + Limb(b, i) + c IN <<s % BASE>> \o AddAt(a, b, i + 1, s \div BASE)
RECURSIVE SubAt(_, _, _, _)
SubAt(a, b, i, c) ==                                       \* a >= b
  IF i > Len(a) THEN << >>
  ELSE LET s == Limb(a, i) - Limb(b, i) - c
       IN IF s < 0 THEN <<s + BASE>> \o SubAt(a, b, i + 1, 1) ELSE <<s>> \o SubAt(a, b, i + 1, 0)
RECURSIVE ScaleAt(_, _, _, _)
ScaleAt(a, d, i, c) ==
  IF i > Len(a) THEN IF c = 0 THEN << >> ELSE <<c>>
  ELSE LET s == a[i] * d + c IN <<s % BASE>> \o ScaleAt(a, d, i + 1, s \div BASE)
RECURSIVE MulAt(_, _, _)
MulAt(a, b, j) == IF j > Len(b) THEN << >>
                  ELSE AddAt(ScaleAt(a, b[j], 1, 0), <<0>> \o MulAt(a, b, j + 1), 1, 0)
Norm(s, m) == LET t == Trim(m) IN IF t = << >> THEN <<0, << >>>> ELSE <<s, t>>
BigAdd(x, y) ==
  IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
  ELSE IF x[1] = y[1] THEN Norm(x[1], AddAt(x[2], y[2], 1, 0))
  ELSE LET c == MagCmp(x[2], y[2])
       IN IF c >= 0 THEN Norm(x[1], SubAt(x[2], y[2], 1, 0)) ELSE Norm(y[1], SubAt(y[2], x[2], 1, 0))
BigMul(x, y) == Norm(x[1] * y[1], MulAt(x[2], y[2], 1))
BigLess(x, y) == IF x[1] # y[1] THEN x[1] < y[1]
                 ELSE IF x[1] = 0 THEN FALSE
                 ELSE IF x[1] > 0 THEN MagCmp(x[2], y[2]) < 0 ELSE MagCmp(x[2], y[2]) > 0

(* Durations: a value and whether it is not fully known yet. *)
DSum(x, y) == <<BigAdd(x[1], y[1]), x[2] \/ y[2]>>
DMul(x, y) == <<BigMul(x[1], y[1]), x[2] \/ y[2]>>
DLess(x, y) == IF x[2] \/ y[2] THEN UU ELSE IF BigLess(x[1], y[1]) THEN TT ELSE FF
===============================================================================
