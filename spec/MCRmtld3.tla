------------------------------- MODULE MCRmtld3 --------------------------------
(***************************************************************************)
(* The window grows by one event at a time; the formulas of module Forms   *)
(* are evaluated at every time at which the window has an event in force.  *)
(***************************************************************************)
EXTENDS Rmtld3, Forms, TLC, FiniteSets

CONSTANTS MAXLEN, PROPS, GAPS, BOUNDS

VARIABLE w
Init == w = << >>
Last == IF w = << >> THEN 0 ELSE Tm(w, Len(w))
Next == /\ Len(w) < MAXLEN
        /\ \E p \in PROPS, g \in GAPS : w' = Append(w, <<p, Last + g>>)
Spec == Init /\ [][Next]_w

Times == IF w = << >> THEN {} ELSE Tm(w, 1)..(Last + 1)
F1 == <<"prop", 1>>
F2 == <<"not", <<"prop", 2>>>>
F3 == <<"until", 2, <<"not", <<"prop", 1>>>>, <<"prop", 2>>>>
Small == {F1, F2, F3}
At(f, t) == Eval(w, f, InForce(w, t), t)

(* L02..L06 in their declarative form *)
PropDef == \A t \in Times, p \in PROPS :
             LET v == At(<<"prop", p>>, t) i == InForce(w, t)
             IN (v # UU) <=> (\E j \in 1..(Len(w) - 1) : Tm(w, j) <= t /\ t < Tm(w, j + 1) /\ v = (IF Ev_p(w, j) = p THEN TT ELSE FF))
UntilDef == \A t \in Times, b \in BOUNDS, f \in Small, g \in Small :
  LET i == InForce(w, t)
      J == {j \in i..Len(w) : Tm(w, j) < t + b}
      D == {j \in J : ~(Eval(w, g, j, Tm(w, j)) = FF /\ Eval(w, f, j, Tm(w, j)) = TT)}
      v == At(<<"until", b, f, g>>, t)
  IN IF D = {} THEN v = (IF Last >= t + b THEN FF ELSE UU)
     ELSE LET j == CHOOSE j \in D : \A k \in D : j <= k
          IN v = (IF Eval(w, g, j, Tm(w, j)) # FF THEN Eval(w, g, j, Tm(w, j)) ELSE Eval(w, f, j, Tm(w, j)))
SinceDef == \A t \in Times, b \in BOUNDS, f \in Small, g \in Small :
  LET J == {j \in 1..Len(w) : Tm(w, j) < t /\ Tm(w, j) > t - b}
      D == {j \in J : ~(Eval(w, g, j, Tm(w, j)) = FF /\ Eval(w, f, j, Tm(w, j)) = TT)}
      v == At(<<"since", b, f, g>>, t)
  IN IF D = {} THEN v = (IF Tm(w, 1) <= t - b THEN FF ELSE UU)
     ELSE LET j == CHOOSE j \in D : \A k \in D : j >= k
          IN v = (IF Eval(w, g, j, Tm(w, j)) # FF THEN Eval(w, g, j, Tm(w, j)) ELSE Eval(w, f, j, Tm(w, j)))
AlwaysDef == \A t \in Times, b \in BOUNDS, f \in Small :
  LET i == InForce(w, t)
      J == {j \in i..Len(w) : Tm(w, j) < t + b}
      D == {j \in J : Eval(w, f, j, Tm(w, j)) # TT}
      v == At(<<"alw", b, f>>, t)
  IN IF D = {} THEN v = (IF Last >= t + b THEN TT ELSE UU)
     ELSE LET j == CHOOSE j \in D : \A k \in D : j <= k IN v = Eval(w, f, j, Tm(w, j))
Unbounded == \A t \in Times, f \in Small : At(<<"evun", f>>, t) # FF
(* the time a formula holds, counted instant by instant *)
DurDef == \A t \in Times, b \in BOUNDS, f \in Small :
  LET d == Dur(w, b, f, InForce(w, t), t)
      holds(x) == \E j \in InForce(w, t)..(Len(w) - 1) : Tm(w, j) <= x /\ x < Tm(w, j + 1) /\ Eval(w, f, j, Tm(w, j)) = TT
      open == \E j \in InForce(w, t)..(Len(w) - 1) : Tm(w, j) <= t + b /\ Tm(w, j + 1) > t /\ Eval(w, f, j, Tm(w, j)) = UU
  IN /\ d[1] = Cardinality({x \in t..(t + b - 1) : holds(x)}) /\ d[1] <= b
     /\ d[2] = (open \/ Last <= t + b)
(* L07 on the specification *)
Monotone == [][\A f \in 1..Len(FORMS), t \in Times \ {Last + 1} :
                 LET r == Result(w, FORMS[f], InForce(w, t), t)
                 IN Conclusive(r) => Result(w', FORMS[f], InForce(w', t), t) = r]_w
(* L08 on the specification: shifting time changes nothing *)
Shifted == [j \in DOMAIN w |-> <<w[j][1], w[j][2] + 7>>]
Invariance == \A f \in 1..Len(FORMS), t \in Times :
                Result(w, FORMS[f], InForce(w, t), t) = Result(Shifted, FORMS[f], InForce(w, t), t + 7)
===============================================================================
