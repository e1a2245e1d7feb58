------------------------------- MODULE Diagnosis -------------------------------
(***************************************************************************)
(* Diagnosis (debug() of buffers, events, readers and traces; the           *)
(* RTMLIB_DEBUG builds) is an observer of the system: at any point of any   *)
(* history it may look at the storage of the objects it is asked about, and *)
(* the history goes on as if it had not.                                    *)
(*                                                                         *)
(* DESIGN = "code": walks over the N + 2 slots a buffer owns.               *)
(* "overread": one slot more (the code before the repair).                  *)
(* "consume": shows the events by taking them.                              *)
(***************************************************************************)
EXTENDS MCReader
CONSTANT DESIGN
VARIABLES seen,     \* slots looked at so far
          shown     \* times something was shown
dvars == <<vars, seen, shown>>

Storage(x) == 0..(x.n + 1)
DInit == Init /\ seen = {} /\ shown = 0
Act == Next /\ UNCHANGED <<seen, shown>>
ShowBuffer == /\ seen' = seen \cup (0..(IF DESIGN = "overread" THEN Slots(b) + 1 ELSE Slots(b)))
              /\ b' = IF DESIGN = "consume" /\ Len(b.q) > 0 THEN BPull(b).b ELSE b
              /\ UNCHANGED <<p, r, ok>>
ShowReader == UNCHANGED <<vars, seen>>
Show == shown < 2 /\ shown' = shown + 1 /\ (ShowBuffer \/ ShowReader)
DSpec == DInit /\ [][Act \/ Show]_dvars

Within == seen \subseteq Storage(b)
\* what is not a step of the system leaves the system alone: without the
\* observations, the behaviours are those of the system
Silent == [][UNCHANGED vars \/ Next]_vars
Passive == [][shown' # shown => UNCHANGED vars]_dvars
===============================================================================
