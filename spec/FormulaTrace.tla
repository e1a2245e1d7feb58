----------------------------- MODULE FormulaTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded evaluations of the real operators with Rmtld3.  *)
(*                                                                         *)
(* A row is one window as the real trace reader presented it:              *)
(*   w   the events <<p, t>> of the window                                 *)
(*   f   the formulas evaluated (indices into FORMS)                       *)
(*   e   evaluations <<cursor, time, results, results of a second run,     *)
(*       observable state before, after>>                                  *)
(*   g   1 if the window continues the previous row's history              *)
(* MODE selects what is judged: "value" the verdicts themselves (L02-L06), *)
(* "grow" that conclusive verdicts stay (L07), "pure" that evaluation      *)
(* changes nothing and does not depend on the storage (L08).               *)
(***************************************************************************)
EXTENDS Rmtld3, Forms, TLC, Json, FiniteSets

CONSTANTS FILE, MODE, NBLK
Rows == JsonDeserialize(FILE).rows
NROWS == Len(Rows)

VARIABLES b, r, old, ok
vars == <<b, r, old, ok>>

From(k) == ((k - 1) * NROWS) \div NBLK + 1
To(k) == (k * NROWS) \div NBLK

Fs(row) == row.f
Values(row) ==
  \A k \in DOMAIN row.e : LET e == row.e[k] IN
     \A m \in DOMAIN Fs(row) : e[3][m] = Result(row.w, FORMS[Fs(row)[m]], e[1], e[2])
Pure(row) ==
  \A k \in DOMAIN row.e : LET e == row.e[k] IN
     /\ e[3] = e[4]                                \* evaluating again gives the same
     /\ e[5] = e[6]                                \* cursor, window, buffer, time argument
(* The same history in other storage: same verdicts. *)
Same(row, before) == /\ Len(row.e) = Len(before)
                     /\ \A k \in DOMAIN row.e : /\ row.e[k][2] = before[k][2]
                                                /\ row.e[k][3] = before[k][3]
Verdicts(row) == [k \in DOMAIN row.e |-> <<row.e[k][2], row.e[k][3]>>]
Kept(row, before) ==
  \A k \in DOMAIN before : \A j \in DOMAIN row.e :
     row.e[j][2] = before[k][1] =>
       \A m \in DOMAIN Fs(row) : Conclusive(before[k][2][m]) => row.e[j][3][m] = before[k][2][m]

RowOk(row, before) ==
  CASE MODE = "value" -> Values(row)
    [] MODE = "grow" -> (row.g = 0 \/ Kept(row, before))
    [] MODE = "pure" -> Pure(row) /\ (row.g = 0 \/ Same(row, before))
Remember(row) == CASE MODE = "value" -> << >>
                   [] MODE = "grow" -> Verdicts(row)
                   [] MODE = "pure" -> row.e

Init == b \in 1..NBLK /\ r = From(b) - 1 /\ old = << >> /\ ok = TRUE
Next == /\ ok /\ r < To(b)
        /\ b' = b /\ r' = r + 1
        /\ LET row == Rows[r + 1] IN
             /\ ok' = IF r + 1 = From(b) THEN RowOk([row EXCEPT !.g = 0], << >>) ELSE RowOk(row, old)
             /\ old' = Remember(row)
Spec == Init /\ [][Next]_vars
View == <<b, r>>
Accepted == ok
===============================================================================
