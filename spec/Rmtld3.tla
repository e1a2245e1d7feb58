-------------------------------- MODULE Rmtld3 ---------------------------------
(***************************************************************************)
(* The meaning of the RMTLD3 operators of rtmlib (src/rmtld3/formulas.h,   *)
(* terms.h) on a finite window of events.                                  *)
(*                                                                         *)
(* A window w is a sequence of events <<proposition, time>> with strictly  *)
(* increasing times.  Event i is in force from its time up to the next     *)
(* event's time.  Eval(w, f, i, t) is the verdict of formula f at time t   *)
(* with the cursor on event i.  Formulas are tuples headed by a name.      *)
(***************************************************************************)
EXTENDS Logic

Ev_p(w, i) == w[i][1]
Tm(w, i) == w[i][2]

\* The event in force at t: the last one not after t (0 when there is none).
RECURSIVE InForceFrom(_, _, _)
InForceFrom(w, t, i) == IF i = 0 THEN 0 ELSE IF Tm(w, i) <= t THEN i ELSE InForceFrom(w, t, i - 1)
InForce(w, t) == InForceFrom(w, t, Len(w))

Reached(w, i, x) == \E j \in i..Len(w) : Tm(w, j) >= x      \* the trace has an event at or after x
ReachesBack(w, i, x) == \E j \in 1..i : Tm(w, j) <= x

RECURSIVE Eval(_, _, _, _)
RECURSIVE UntilFrom(_, _, _, _, _, _, _, _)
RECURSIVE Between(_, _, _, _, _, _, _)
RECURSIVE SinceFrom(_, _, _, _, _, _, _)
RECURSIVE FirstNotFalse(_, _, _)
RECURSIVE DurFrom(_, _, _, _, _)

Prop(w, p, i, t) ==
  IF i >= 1 /\ i < Len(w) /\ Tm(w, i) <= t /\ t < Tm(w, i + 1)
  THEN IF Ev_p(w, i) = p THEN TT ELSE FF
  ELSE UU

StepAt(w, f1, f2, j, x) == Step(Eval(w, f1, j, x), Eval(w, f2, j, x))

(* phi1 U_{<b} phi2: the first event before t+b that decides. *)
UntilFrom(w, b, f1, f2, i, t, j, inb) ==
  IF j > Len(w) THEN SYM
  ELSE IF Tm(w, j) >= t + b THEN SYM
  ELSE LET s == StepAt(w, f1, f2, j, Tm(w, j))
           m == IF s # SYM \/ ~inb THEN s ELSE Between(w, f1, f2, j, j + 1, t + b, 0)
       IN IF m # SYM THEN m ELSE UntilFrom(w, b, f1, f2, i, t, j + 1, inb)

(* The in-between option: after event j it also looks at the instants      *)
(* Tm(j) + (Tm(k+1) - Tm(j+1)), k = j+1, j+2, ... that come before event k *)
(* and before the end of the window.                                       *)
Between(w, f1, f2, j, k, lim, dummy) ==
  IF k + 1 > Len(w) THEN SYM
  ELSE LET x == Tm(w, j) + Tm(w, k + 1) - Tm(w, j + 1)
       IN IF x >= Tm(w, k) \/ x >= lim THEN SYM
          ELSE LET s == StepAt(w, f1, f2, InForce(w, x), x)
               IN IF s # SYM THEN s ELSE Between(w, f1, f2, j, k + 1, lim, dummy)

Until(w, b, f1, f2, i, t, inb) ==
  LET s == UntilFrom(w, b, f1, f2, i, t, IF i = 0 THEN 1 ELSE i, inb)
  IN IF s # SYM THEN s ELSE IF i >= 1 /\ Reached(w, i, t + b) THEN FF ELSE UU

(* phi1 S_{<b} phi2: backwards over the events strictly inside (t-b, t). *)
SinceFrom(w, b, f1, f2, t, j, dummy) ==
  IF j = 0 THEN SYM
  ELSE IF Tm(w, j) >= t THEN SinceFrom(w, b, f1, f2, t, j - 1, dummy)
  ELSE IF Tm(w, j) <= t - b THEN SYM
  ELSE LET s == StepAt(w, f1, f2, j, Tm(w, j))
       IN IF s # SYM THEN s ELSE SinceFrom(w, b, f1, f2, t, j - 1, dummy)

Since(w, b, f1, f2, i, t) ==
  LET s == SinceFrom(w, b, f1, f2, t, i, 0)
  IN IF s # SYM THEN s ELSE IF ReachesBack(w, i, t - b) THEN FF ELSE UU

(* Exactly b ahead: the operand at the last event not after t+b. *)
AtAhead(w, b, f, i, t) ==
  LET J == {j \in i..Len(w) : Tm(w, j) <= t + b}
  IN IF i = 0 \/ J = {} \/ ~Reached(w, i, t + b) THEN UU
     ELSE LET j == CHOOSE m \in J : \A k \in J : k <= m IN Eval(w, f, j, Tm(w, j))

(* Exactly b back: the operand at the event in force at t-b, or at the     *)
(* oldest one.                                                             *)
AtBack(w, b, f, i, t) ==
  LET J == {j \in 1..i : Tm(w, j) < t}
      K == {j \in J : Tm(w, j) <= t - b}
  IN IF J = {} THEN UU
     ELSE LET j == IF K = {} THEN 1 ELSE CHOOSE m \in K : \A k \in K : k <= m
          IN Eval(w, f, j, Tm(w, j))

FirstNotFalse(w, f, j) ==
  IF j = 0 \/ j > Len(w) THEN UU
  ELSE LET s == Eval(w, f, j, Tm(w, j)) IN IF s # FF THEN s ELSE FirstNotFalse(w, f, j + 1)

(* The time in [t, t+b] during which events where f is TRUE are in force,  *)
(* and whether it may still change.                                        *)
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
DurFrom(w, b, f, t, j) ==
  IF j >= Len(w) THEN <<0, FALSE>>
  ELSE LET r == DurFrom(w, b, f, t, j + 1)
           lo == MaxOf(t, Tm(w, j))
           hi == MinOf(t + b, Tm(w, j + 1))
       IN IF Tm(w, j) > t + b \/ Tm(w, j + 1) <= t THEN r        \* not in force inside the window
          ELSE LET v == Eval(w, f, j, Tm(w, j))
               IN <<r[1] + (IF v = TT THEN hi - lo ELSE 0), r[2] \/ v = UU>>
Dur(w, b, f, i, t) ==
  IF i = 0 THEN <<0, TRUE>>
  ELSE LET r == DurFrom(w, b, f, t, i) IN <<r[1], r[2] \/ ~Reached(w, i, t + b + 1)>>

NotF(f) == <<"not", f>>
TrueF == <<"true">>
Less(x, y) == IF x[2] \/ y[2] THEN UU ELSE IF x[1] < y[1] THEN TT ELSE FF

Eval(w, f, i, t) ==
  CASE f[1] = "prop" -> Prop(w, f[2], i, t)
    [] f[1] = "true" -> TT
    [] f[1] = "not" -> Not3(Eval(w, f[2], i, t))
    [] f[1] = "and" -> And3(Eval(w, f[2], i, t), Eval(w, f[3], i, t))
    [] f[1] = "or" -> Or3(Eval(w, f[2], i, t), Eval(w, f[3], i, t))
    [] f[1] = "until" -> Until(w, f[2], f[3], f[4], i, t, FALSE)
    [] f[1] = "untilb" -> Until(w, f[2], f[3], f[4], i, t, TRUE)
    [] f[1] = "alw" -> Not3(Until(w, f[2], TrueF, NotF(f[3]), i, t, FALSE))
    [] f[1] = "eveq" -> AtAhead(w, f[2], f[3], i, t)
    [] f[1] = "alweq" -> AtAhead(w, f[2], f[3], i, t)
    [] f[1] = "evun" -> FirstNotFalse(w, f[2], i)
    [] f[1] = "since" -> Since(w, f[2], f[3], f[4], i, t)
    [] f[1] = "hist" -> Not3(Since(w, f[2], TrueF, NotF(f[3]), i, t))
    [] f[1] = "peq" -> AtBack(w, f[2], f[3], i, t)
    [] f[1] = "heq" -> AtBack(w, f[2], f[3], i, t)
    [] f[1] = "durlt" -> Less(Dur(w, f[2], f[3], i, t), <<f[4], FALSE>>)
    [] f[1] = "durgt" -> Less(<<f[4], FALSE>>, Dur(w, f[2], f[3], i, t))
    [] f[1] = "dur2" -> LET a == Dur(w, f[2], f[3], i, t) b == Dur(w, f[4], f[5], i, t)
                        IN Less(<<a[1], a[2]>>, <<b[1], b[2]>>)

(* Top level: a verdict, or for a duration term its value and its flag in  *)
(* one number.                                                             *)
IsTerm(f) == f[1] = "dur"
Result(w, f, i, t) ==
  IF IsTerm(f) THEN LET d == Dur(w, f[2], f[3], i, t) IN 100 + 2 * d[1] + (IF d[2] THEN 1 ELSE 0)
  ELSE Eval(w, f, i, t)
Conclusive(r) == IF r >= 100 THEN r % 2 = 0 ELSE r # UU
===============================================================================
