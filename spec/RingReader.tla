------------------------------ MODULE RingReader ------------------------------
(***************************************************************************)
(* Readers of a ring buffer (src/reader.h, src/rmtld3/reader.h), at the    *)
(* level a user sees.                                                      *)
(*                                                                         *)
(* Events are identified by their place in the history of pushes of the    *)
(* buffer: the i-th event ever pushed has index i.  b.cnt counts pushes,   *)
(* so the buffer holds the indices First(b)..b.cnt (histories with readers *)
(* only push; buffer.pull/pop are other consumers and are not combined     *)
(* with readers).                                                          *)
(*                                                                         *)
(* A reader is synchronized on the indices lo..hi; lo is the next event it *)
(* will take.  An event is LOST to a reader when lo < First(b): it was     *)
(* discarded from the buffer before the reader took it.  The event at      *)
(* First(b)-1 is still physically in the free slot, so a reader may either *)
(* still take it or be told; from First(b)-2 down it must be told.         *)
(*                                                                         *)
(* Operations take the reply the implementation gave, and say whether it   *)
(* is allowed (`ok`) and what the reader is afterwards.                    *)
(***************************************************************************)
EXTENDS RingBuffer

\* RTML_reader::error_t and gap_error_t
AVAILABLE == 0
UNAVAILABLE == 1
READER_OVERFLOW == 2
NO_GAP == 0
GAP == 1

First(b) == b.cnt - Len(b.q) + 1
Ev(b, i) == b.q[i - First(b) + 1]                       \* stored event of index i
SlotOf(b, i) == (i - 1) % Slots(b)                      \* histories of pushes only
\* the event of index First-1, if there was one, sits in the free slot
Ghost(b) == b.arr[b.top]
EvOrGhost(b, i) == IF i >= First(b) THEN Ev(b, i) ELSE Ghost(b)

NewReader(k) == [buf |-> k, lo |-> 1, hi |-> 0, synced |-> FALSE, lost |-> FALSE,
                 cp |-> 0]                               \* cp: slot of the trace cursor
RLength(r) == r.hi - r.lo + 1

R(ok, r) == [ok |-> ok, r |-> r]
None(e) == e = Untouched

RSync(r, b, res) ==
  IF b.q = << >> THEN R(res \in {NO_GAP, GAP}, r)
  ELSE LET f == First(b)
           hard == [r EXCEPT !.lo = f, !.hi = b.cnt, !.synced = TRUE, !.lost = FALSE]
       IN IF ~r.synced
          THEN R(IF f > 1 THEN res = GAP ELSE res \in {NO_GAP, GAP}, hard)
          ELSE IF r.lo < f
               THEN R(res = GAP, hard)                     \* something was lost
               ELSE R(res = NO_GAP, [r EXCEPT !.hi = b.cnt])

\* e: the caller's event afterwards (Untouched if it was not written)
RPull(r, b, res, e) ==
  IF r.lost THEN R(res \in {READER_OVERFLOW, UNAVAILABLE}, r)
  ELSE IF RLength(r) <= 1 THEN R(res = UNAVAILABLE /\ None(e), r)
  ELSE IF r.lo >= First(b) THEN R(res = AVAILABLE /\ e = Ev(b, r.lo), [r EXCEPT !.lo = @ + 1])
  ELSE IF res = READER_OVERFLOW THEN R(TRUE, [r EXCEPT !.lost = TRUE])
  ELSE R(r.lo = First(b) - 1 /\ res = AVAILABLE /\ e = Ghost(b), [r EXCEPT !.lo = @ + 1])

\* a reader that was told of a loss may still pop what is physically there
RPop(r, b, res, e) ==
  IF r.lost THEN IF res = AVAILABLE
                 THEN R(r.hi >= r.lo /\ r.hi >= First(b) - 1 /\ e = EvOrGhost(b, r.hi), [r EXCEPT !.hi = @ - 1])
                 ELSE R(res \in {READER_OVERFLOW, UNAVAILABLE}, r)
  ELSE IF RLength(r) <= 0 THEN R(res = UNAVAILABLE /\ None(e), r)
  ELSE IF r.lo >= First(b) THEN R(res = AVAILABLE /\ e = Ev(b, r.hi), [r EXCEPT !.hi = @ - 1])
  ELSE IF res = READER_OVERFLOW THEN R(TRUE, [r EXCEPT !.lost = TRUE])
  ELSE R(r.lo = First(b) - 1 /\ res = AVAILABLE /\ e = EvOrGhost(b, r.hi), [r EXCEPT !.hi = @ - 1])

RGap(r, b, res) ==
  R(IF ~r.synced THEN TRUE
    ELSE IF r.lo < First(b) - 1 THEN res = GAP
    ELSE IF r.lo = First(b) - 1 THEN res \in {NO_GAP, GAP}
    ELSE res = NO_GAP, r)

RLen(r, b, res) == R(IF r.lost THEN res \in 0..b.n ELSE res = RLength(r), r)

(***************************************************************************)
(* The trace cursor of RMTLD3_reader: a slot number.  It is inside the     *)
(* window when it is one of the slots of lo..hi+1; k is its distance from  *)
(* lo.  A cursor outside the window (the window moved on) can be brought   *)
(* back by reset and by seeking; nothing is promised of the other          *)
(* operations then, or when events of the window have been discarded.      *)
(***************************************************************************)
Off(r, b) == (r.cp + Slots(b) - SlotOf(b, r.lo)) % Slots(b)
Valid(r, b) == r.synced /\ ~r.lost /\ r.lo >= First(b)
InWindow(r, b) == Valid(r, b) /\ Off(r, b) <= RLength(r)
At(r, b, k) == Ev(b, r.lo + k)                           \* event k places into the window
SlotAt(r, b, k) == SlotOf(b, r.lo + k)

\* cur: the cursor position the implementation reports after the operation
C(r, b, okay, k, cur) ==
  IF InWindow(r, b) THEN R(okay /\ cur = SlotAt(r, b, k), [r EXCEPT !.cp = cur])
  ELSE R(TRUE, [r EXCEPT !.cp = cur])

CReset(r, b, res, cur) ==
  IF r.synced THEN R(res = AVAILABLE /\ cur = SlotOf(b, r.lo), [r EXCEPT !.cp = cur])
  ELSE R(TRUE, [r EXCEPT !.cp = cur])
CInc(r, b, res, cur) == LET k == Off(r, b) IN
  IF k < RLength(r) THEN C(r, b, res = AVAILABLE, k + 1, cur)
                    ELSE C(r, b, res = UNAVAILABLE, k, cur)
CDec(r, b, res, cur) == LET k == Off(r, b) IN
  IF k > 0 THEN C(r, b, res = AVAILABLE, k - 1, cur)
           ELSE C(r, b, res = UNAVAILABLE, k, cur)
\* event at place k, if there is one (only evaluated for a cursor in the window)
ReadAt(r, b, k, res, e) ==
  IF InWindow(r, b)
  THEN IF k >= 0 /\ k < RLength(r) THEN res = AVAILABLE /\ e = At(r, b, k)
                                   ELSE res = UNAVAILABLE /\ None(e)
  ELSE TRUE
CRead(r, b, res, e, cur) == LET k == Off(r, b) IN C(r, b, ReadAt(r, b, k, res, e), k, cur)
CNext(r, b, res, e, cur) == LET k == Off(r, b) IN C(r, b, ReadAt(r, b, k + 1, res, e), k, cur)
CPrev(r, b, res, e, cur) == LET k == Off(r, b) IN C(r, b, ReadAt(r, b, k - 1, res, e), k, cur)
CLen(r, b, res, cur) == LET k == Off(r, b) IN C(r, b, res = RLength(r) - k, k, cur)
CCons(r, b, res, cur) == LET k == Off(r, b) IN C(r, b, res = k, k, cur)
\* walking forward: hands out the event under the cursor and moves on; the
\* reply says whether there is another one to walk to
CPull(r, b, res, e, cur) == LET k == Off(r, b) IN
  IF ~InWindow(r, b) THEN C(r, b, TRUE, k, cur)
  ELSE IF k < RLength(r)
       THEN C(r, b, e = At(r, b, k)
                    /\ res = (IF k + 1 < RLength(r) THEN AVAILABLE ELSE UNAVAILABLE), k + 1, cur)
       ELSE C(r, b, res = UNAVAILABLE /\ None(e), k, cur)
CSetCur(r, b, x, res, cur) ==
  IF x \in 0..b.n THEN R(res = AVAILABLE /\ cur = x, [r EXCEPT !.cp = cur])
                  ELSE R(res = UNAVAILABLE /\ cur = r.cp, [r EXCEPT !.cp = cur])
\* seek: the event in force at t is the last one not after t, and it must have
\* a successor in the window
CSet(r, b, t, res, cur) ==
  IF ~Valid(r, b) THEN R(TRUE, [r EXCEPT !.cp = cur])
  ELSE LET hit == { k \in 0..RLength(r) - 2 : At(r, b, k)[2] <= t /\ t < At(r, b, k + 1)[2] }
           there == { k \in 0..RLength(r) : SlotAt(r, b, k) = cur }
       IN IF hit # {} THEN R(res = AVAILABLE /\ hit \cap there # {}, [r EXCEPT !.cp = cur])
                      ELSE R(res = UNAVAILABLE /\ there # {}, [r EXCEPT !.cp = cur])
===============================================================================
