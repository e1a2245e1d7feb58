------------------------------- MODULE EventAlg -------------------------------
(***************************************************************************)
(* Events (src/event.h): a datum and a timestamp, ordered by time only and *)
(* equal when both agree.  Times are given by their rank among all times   *)
(* used, so full-width timestamps can be judged.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* six comparisons in the order < <= > >= == !=
ByTime(s, t) == <<s < t, s <= t, s > t, s >= t, s = t, s # t>>
EvEv(e, f) == <<e.t < f.t, e.t <= f.t, e.t > f.t, e.t >= f.t,
                e.t = f.t /\ e.d = f.d, ~(e.t = f.t /\ e.d = f.d)>>
SetTime(e, t) == [e EXCEPT !.t = t]
SetData(e, d) == [e EXCEPT !.d = d]
===============================================================================
