------------------------------- MODULE Leaving --------------------------------
(***************************************************************************)
(* LockFree with writers that go away and come back (ATOMIC_PAGE_RELEASE   *)
(* in src/atomic_compat.h).  The current state may be one of a writer that *)
(* goes away; it then moves into the state of the buffer, which only one   *)
(* writer at a time may use for that (`lock').  The memory of a writer     *)
(* that is gone holds anything.                                            *)
(*                                                                         *)
(* LEAVE selects the code ("fixed") or a broken relative:                  *)
(*   "stays"   the state stays where it was                                *)
(*   "nolock"  writers that go away do not wait for one another            *)
(*   "store"   the page is replaced whether or not it has changed since    *)
(*   "blind"   the page is replaced although it belongs to another writer  *)
(***************************************************************************)
EXTENDS LockFree
CONSTANTS LIVES,   \* how often a writer lives
          LEAVE
VARIABLES lock,    \* the writer that uses the state of the buffer, or 0
          lives    \* lives left
lvars == <<vars, lock, lives>>

LInit == Init /\ lock = 0 /\ lives = [w \in W |-> LIVES]
LStay == UNCHANGED <<sd, sl, rd, log, rep>>
To(w, pc) == wr' = [wr EXCEPT ![w].pc = pc]
Mine(w, r) == r \in {<<w, 1>>, <<w, 2>>}
LLock(w) ==
  /\ wr[w].pc = "done"
  /\ IF LEAVE = "stays" THEN To(w, "destroy") /\ UNCHANGED lock
     ELSE IF LEAVE = "nolock" THEN To(w, "lload") /\ UNCHANGED lock
     ELSE lock = 0 /\ lock' = w /\ To(w, "lload")
  /\ UNCHANGED <<page, st, lives>> /\ LStay
LLoad(w) ==
  /\ wr[w].pc = "lload"
  /\ wr' = [wr EXCEPT ![w].cur = page, ![w].pc = "ltest"]
  /\ UNCHANGED <<page, st, lock, lives>> /\ LStay
LTest(w) ==
  /\ wr[w].pc = "ltest"
  /\ To(w, IF LEAVE = "blind" \/ Mine(w, wr[w].cur.ref) THEN "lbot" ELSE "unlock")
  /\ UNCHANGED <<page, st, lock, lives>> /\ LStay
From(w) == st[wr[w].cur.ref]
LBot(w) ==
  /\ wr[w].pc = "lbot" /\ st' = [st EXCEPT ![Global].bot = From(w).bot] /\ To(w, "ltop")
  /\ UNCHANGED <<page, lock, lives>> /\ LStay
LTop(w) ==
  /\ wr[w].pc = "ltop" /\ st' = [st EXCEPT ![Global].top = From(w).top] /\ To(w, "lrest")
  /\ UNCHANGED <<page, lock, lives>> /\ LStay
LRest(w) ==
  /\ wr[w].pc = "lrest"
  /\ st' = [st EXCEPT ![Global].pos = From(w).pos, ![Global].ev = From(w).ev, ![Global].ready = TRUE]
  /\ To(w, "lcas")
  /\ UNCHANGED <<page, lock, lives>> /\ LStay
LCas(w) ==
  /\ wr[w].pc = "lcas"
  /\ IF LEAVE = "store" \/ Same(page, wr[w].cur)
     THEN page' = [ref |-> Global, cnt |-> wr[w].cur.cnt + 1] /\ To(w, "unlock")
     ELSE wr' = [wr EXCEPT ![w].cur = page, ![w].pc = "ltest"] /\ UNCHANGED page   \* a failed exchange loads the page
  /\ UNCHANGED <<st, lock, lives>> /\ LStay
LUnlock(w) ==
  /\ wr[w].pc = "unlock" /\ To(w, "destroy")
  /\ lock' = IF lock = w THEN 0 ELSE lock
  /\ UNCHANGED <<page, st, lives>> /\ LStay
LDestroy(w) ==
  /\ wr[w].pc = "destroy" /\ To(w, "gone")
  /\ \E b \in BOOLEAN : st' = [r \in Refs |-> IF Mine(w, r) THEN [top |-> N, bot |-> 0, pos |-> 0, ev |-> NoEv, ready |-> b] ELSE st[r]]
  /\ lives' = [lives EXCEPT ![w] = @ - 1]
  /\ UNCHANGED <<page, lock>> /\ LStay
\* a new writer in the memory of the old one; its events go on counting
LBorn(w) ==
  /\ wr[w].pc = "gone" /\ lives[w] > 0 /\ To(w, "load")
  /\ UNCHANGED <<page, st, lock, lives>> /\ LStay
Leave(w) == \/ LLock(w) \/ LLoad(w) \/ LTest(w) \/ LBot(w) \/ LTop(w) \/ LRest(w) \/ LCas(w) \/ LUnlock(w) \/ LDestroy(w) \/ LBorn(w)

\* a life is over after NPUSH pushes: LockFree's Next goes to "done" at the first
\* life's end only, so later lives count on
LTime(w) ==
  /\ wr[w].pc = "ready"
  /\ st' = [st EXCEPT ![wr[w].ref].ready = TRUE]
  /\ wr' = [wr EXCEPT ![w].n = @ + 1, ![w].pc = IF (wr[w].n + 1) % NPUSH = 0 THEN "done" ELSE "load"]
  /\ UNCHANGED <<page, sd, sl, rd, log, rep, lock, lives>>
LWriter(w) == \/ (wr[w].pc # "ready" /\ Writer(w) /\ UNCHANGED <<lock, lives>>)
              \/ LTime(w) \/ Leave(w)
LStep == (\E w \in W : LWriter(w)) \/ (Reader /\ UNCHANGED <<lock, lives>>)
LSpec == LInit /\ [][LStep]_lvars /\ \A w \in W : WF_lvars(LWriter(w))

AllGone == \A w \in W : wr[w].pc = "gone" /\ lives[w] = 0
\* W04: what is stored stays, in order, and the buffer is usable
Kept == AllGone => \A i \in First..Len(log) : sd[(i - 1) % Slots] = log[i].d /\ sl[(i - 1) % Slots] = log[i].t
NotDangling == page.ref = Global \/ wr[page.ref[1]].pc # "gone"
OneAtATime == \A v, w \in W : v # w => ~({wr[v].pc, wr[w].pc} \subseteq {"lload", "ltest", "lbot", "ltop", "lrest", "lcas", "unlock"})
AllLeave == <>AllGone
===============================================================================
