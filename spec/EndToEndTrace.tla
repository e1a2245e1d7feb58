----------------------------- MODULE EndToEndTrace -----------------------------
(* Verdicts published by real monitors while real writers push, judged against   *)
(* the operators' meaning.                                                        *)
(*                                                                                *)
(* A history: ev, the events <<proposition, time, call, return>> in the order of  *)
(* their times, and per monitor its formula f, start time tz and jobs             *)
(* <<verdict after the job, first step, last step, start time after the job>>.    *)
(* A job evaluates on some prefix of the events: at least the pushes that had     *)
(* returned when it began, at most those that were called before it ended, and    *)
(* never less than the monitor's job before.                                      *)
EXTENDS Rmtld3, Forms, TLC, Json, FiniteSets
CONSTANTS FILE, CAP      \* capacity of the buffer
H == JsonDeserialize(FILE).hist

VARIABLES h, m, j, K, old, ok
vars == <<h, m, j, K, old, ok>>

Ev == H[h].ev
Mon(k) == H[h].mons[k]
\* the window of the newest CAP of the first k events
Win(k) == LET lo == IF k > CAP THEN k - CAP + 1 ELSE 1 IN [i \in 1..(k - lo + 1) |-> <<Ev[lo + i - 1][1], Ev[lo + i - 1][2]>>]
Biggest(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Lo(job) == Biggest({i \in 1..Len(Ev) : Ev[i][4] > 0 /\ Ev[i][4] < job[2]})
Hi(job) == Biggest({i \in 1..Len(Ev) : Ev[i][3] < job[3]})
\* what a job publishes that sees the first k events
Verdict(k, before) ==
  LET w == Win(k)  tz == Mon(m).tz  i == InForce(w, tz)
  IN IF i >= 1 /\ i < Len(w) THEN Eval(w, FORMS[Mon(m).f], i, tz) ELSE before

\* which components of a formula are formulas
IsForm(f, i) ==
  CASE f[1] \in {"not", "evun"} -> i = 2
    [] f[1] \in {"and", "or"} -> i \in {2, 3}
    [] f[1] \in {"until", "untilb", "since"} -> i \in {3, 4}
    [] f[1] \in {"alw", "eveq", "alweq", "hist", "peq", "heq", "dur", "durlt", "durgt"} -> i = 3
    [] f[1] = "dur2" -> i \in {3, 5}
    [] OTHER -> FALSE
RECURSIVE Past(_)
Past(f) == \/ f[1] \in {"since", "hist", "peq", "heq"}
           \/ \E i \in 2..Len(f) : IsForm(f, i) /\ Past(f[i])

Init == h \in 1..Len(H) /\ m \in 1..Len(H[h].mons) /\ j = 0 /\ K = {0} /\ old = UU /\ ok = TRUE
Next == /\ ok /\ j < Len(Mon(m).jobs)
        /\ j' = j + 1 /\ UNCHANGED <<h, m>>
        /\ LET job == Mon(m).jobs[j + 1]
               least == CHOOSE x \in K : \A y \in K : x <= y
               K2 == {k \in Lo(job)..Hi(job) : k >= least /\ Verdict(k, old) = job[1]}
           IN /\ K' = K2 /\ old' = job[1]
              /\ ok' = /\ K2 # {}
                       /\ job[4] = Mon(m).tz                  \* evaluating leaves the time alone
                       \* conclusive verdicts stay, unless the formula looks into a past that has been discarded
                       /\ old # UU /\ ~(Past(FORMS[Mon(m).f]) /\ \E k \in K2 : k > CAP) => job[1] = old
Spec == Init /\ [][Next]_vars
View == <<h, m, j>>
Accepted == ok
===============================================================================
