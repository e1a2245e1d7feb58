------------------------------- MODULE Forever --------------------------------
(***************************************************************************)
(* LockFree without an end: writers that push for ever and a reader that   *)
(* reads for ever.                                                         *)
(*                                                                         *)
(* The protocol only ever compares counters and times with one another,    *)
(* and the ghosts only compare places in the log, so two states that       *)
(* differ in how many pushes there were before, but not in the distances   *)
(* between what they hold, have the same future: Rel maps a state to its   *)
(* distances.  A distance beyond FAR is as good as any other that far: a   *)
(* thread that finds the page changed starts again, and an event that far  *)
(* back has left the buffer.  TLC explores one state of each class (VIEW), *)
(* and as the classes are finite in number, it explores all histories      *)
(* whatever their length.                                                  *)
(***************************************************************************)
EXTENDS LockFree

FAR == N + 3
Len_ == Len(log)
Cap(x) == IF x > FAR THEN FAR ELSE x
Back(i) == Cap(Len_ - i)                          \* how long ago (a place in the log, a time)
D(d) == IF d[1] = 0 THEN <<0, 0>> ELSE <<d[1], Cap(wr[d[1]].n - d[2])>>
E(e) == <<D(e.d), Back(e.t)>>
\* What will never be used is left out: who finds that the page has changed
\* since starts again, and the page never comes back.
Trying == {"wait", "bottom", "top", "body", "prepare", "cas"}
Filling == {"data", "time", "ready"}
Viewing == {"b", "t", "pos", "ts", "after"}
WDoomed(w) == wr[w].pc \in Trying /\ ~Same(page, wr[w].cur)
RDoomed == rd.pc \in Viewing /\ ~Same(page, rd.pg)
St(r, fields) == << IF "bot" \in fields THEN st[r].bot ELSE 0,
                    IF "top" \in fields THEN <<st[r].top, st[r].pos>> ELSE 0,
                    IF "ev" \in fields THEN E(st[r].ev) ELSE 0 >>
\* a writer, with what it has prepared so far
WView(w) ==
  LET x == wr[w] IN
  IF x.pc \in Filling THEN <<x.pc, x.ref, x.slot, E(x.ev)>>
  ELSE IF x.pc \notin Trying THEN <<x.pc>>
  ELSE IF WDoomed(w) THEN <<x.pc, "doomed", x.ref, IF x.pc = "wait" THEN x.cur.ref ELSE Global>>
  ELSE <<x.pc, x.ref, St(x.ref, IF x.pc = "top" THEN {"bot"} ELSE IF x.pc \in {"body", "prepare"} THEN {"bot", "top"}
                                ELSE IF x.pc = "cas" THEN {"bot", "top", "ev"} ELSE {}),
         IF x.pc \in {"prepare", "cas"} THEN <<x.slot, E(x.ev), x.err>> ELSE << >> >>

\* the event in hand is the one to be taken next, or part of it
RightNow == rd.lo <= Len_ /\ (rd.now.d = Nothing \/ rd.now.d = log[rd.lo].d) /\ (rd.now.t = 0 \/ rd.now.t = log[rd.lo].t)
RView == << rd.pc, rd.op, rd.top, rd.bot, Back(rd.ts), Back(rd.lo), rd.first, rd.told, rd.lo - rd.taken = 1, rd.good,
            IF rd.op = "pull" THEN <<rd.now.d = Nothing, rd.now.t = 0, rd.next.t < rd.now.t, rd.miss, RightNow, Back(rd.next.t),
                                     IF rd.pc = "t2" THEN Back(rd.now.t) ELSE 0>> ELSE << >>,
            IF RDoomed THEN "doomed" ELSE "",
            IF rd.pc = "decide" \/ (rd.pc \in Viewing /\ ~RDoomed) THEN <<rd.b, rd.t, rd.wait, Back(rd.s), Back(rd.seen)>> ELSE << >> >>

Rel == << Cap(Len_), Len_ % Slots, page.ref, page.cnt - Len_, St(page.ref, {"bot", "top", "ev"}), [r \in Refs |-> st[r].ready],
          [i \in 0..N |-> <<D(sd[i]), Back(sl[i])>>],
          [w \in W |-> WView(w)], RView,
          [k \in 1..(IF Len_ < N + 2 THEN Len_ ELSE N + 2) |-> E(log[Len_ - k + 1])] >>

\* the status of the last push
LastStatus == \A r \in rep : r.i = Len_ => r.err = IF r.i > N THEN BUFFER_OVERFLOW ELSE OK
LastOnce == \A i \in 1..Len_ - 1 : log[i].d # log[Len_].d
LastOrder == \A i \in 1..Len_ - 1 : log[i].d[1] = log[Len_].d[1] => log[i].d[2] < log[Len_].d[2]
LastStamp == Len_ < 2 \/ log[Len_ - 1].t <= log[Len_].t
\* once the last push is ready, all events are in their slots
Settled == Cur.ready => \A i \in First..Len_ : /\ sd[(i - 1) % Slots] = log[i].d
                                               /\ sl[(i - 1) % Slots] = log[i].t
\* a push that waits does so for one that can go on by itself
Owned == ~Cur.ready => \E w \in W : wr[w].pc \in Filling /\ wr[w].ref = page.ref
Endless == Init /\ [][Step]_vars
===============================================================================
