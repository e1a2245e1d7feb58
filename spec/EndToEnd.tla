------------------------------- MODULE EndToEnd --------------------------------
(* Composition: events are pushed into a buffer that keeps the newest CAP of     *)
(* them; monitors, one per formula of FORMS, at any moment take the stored window,*)
(* seek the event in force at their start time TZ and publish the formula's value. *)
EXTENDS Rmtld3, Forms, FiniteSets
CONSTANTS CAP, MAXLEN, PROPS, GAPS, TZ
VARIABLES hist, out, drop
vars == <<hist, out, drop>>
M == DOMAIN FORMS

Stored == SubSeq(hist, drop + 1, Len(hist))
Init == hist = << >> /\ out = [m \in M |-> UU] /\ drop = 0
Push(p, g) == /\ Len(hist) < MAXLEN
              /\ hist' = Append(hist, <<p, (IF hist = << >> THEN 0 ELSE Tm(hist, Len(hist))) + g>>)
              /\ drop' = IF Len(hist') - drop > CAP THEN drop + 1 ELSE drop
              /\ UNCHANGED out
Job(m) == LET w == Stored  i == InForce(w, TZ)
          IN /\ i >= 1 /\ i < Len(w)
             /\ out' = [out EXCEPT ![m] = Eval(w, FORMS[m], i, TZ)]
             /\ UNCHANGED <<hist, drop>>
Next == (\E p \in PROPS, g \in GAPS : Push(p, g)) \/ (\E m \in M : Job(m))
Spec == Init /\ [][Next]_vars

\* published verdicts go from UNKNOWN to one conclusive value and stay
Stay == [][\A m \in M : out[m] # UU => out'[m] = out[m]]_vars
\* a conclusive verdict is the formula's value on everything pushed, also on what is discarded
Right == \A m \in M : out[m] # UU => LET i == InForce(hist, TZ) IN i >= 1 /\ i < Len(hist) /\ Eval(hist, FORMS[m], i, TZ) = out[m]
TypeOK == /\ \A m \in M : out[m] \in {TT, FF, UU}
          /\ Len(Stored) <= CAP
================================================================================
