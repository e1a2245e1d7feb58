------------------------------ MODULE RingBuffer ------------------------------
(***************************************************************************)
(* The circular buffer of rtmlib (src/circularbuffer.h), as a value.       *)
(*                                                                         *)
(* Two descriptions of the same thing live side by side:                   *)
(*                                                                         *)
(*  - the OBSERVABLE one: a bounded FIFO `q` (the stored events, oldest    *)
(*    first).  It defines what push/pull/pop/length and their status codes *)
(*    mean to a user.                                                      *)
(*  - the PHYSICAL one: n+1 slots, of which the slot at `top` is always    *)
(*    free, with the window [bottom, top) holding the stored events.  It   *)
(*    defines what read/write/state mean.                                  *)
(*                                                                         *)
(* Well(b) ties them together; MCBuffer.tla checks it in all histories of  *)
(* small buffers, SeqTrace.tla real executions against both.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* status codes, numbered as RTML_buffer::error_t
OK == 0
EMPTY == 1
BUFFER_OVERFLOW == 2
OUT_OF_BOUND == 3
UNSAFE == 4

\* an event is <<data, time>>; a slot never written holds the default event
NoEvent == <<0, 0>>

\* A buffer of capacity n.
NewBuffer(n) ==
  [ n   |-> n,
    q   |-> << >>,                       \* observable: stored events, oldest first
    arr |-> [i \in 0..n |-> NoEvent],    \* physical: n+1 slots
    bot |-> 0,
    top |-> 0,
    w   |-> 0,                           \* writers ever attached
    cnt |-> 0 ]                          \* pushes ever made

Slots(b) == b.n + 1
Inc(b, i) == IF i + 1 >= Slots(b) THEN 0 ELSE i + 1
Dec(b, i) == IF i = 0 THEN Slots(b) - 1 ELSE i - 1
Length(b) == Len(b.q)
PhysLength(b) == IF b.top >= b.bot THEN b.top - b.bot ELSE Slots(b) - (b.bot - b.top)

\* The slots from bottom up to (not including) top, in order
Window(b) == [k \in 1..PhysLength(b) |-> b.arr[(b.bot + k - 1) % Slots(b)]]

\* The tie between the two descriptions.
Well(b) ==
  /\ b.bot \in 0..b.n /\ b.top \in 0..b.n
  /\ Len(b.q) <= b.n
  /\ PhysLength(b) = Len(b.q)
  /\ Window(b) = b.q

Soft(b) == IF b.w > 1 THEN UNSAFE ELSE OK

\* Every operation yields [b |-> new buffer, r |-> status, e |-> event handed out].
\* Untouched: the caller's event must come back as it went in.
Untouched == << >>

\* the oldest events are dropped until only the newest n remain
Newest(q, n) == IF Len(q) > n THEN SubSeq(q, Len(q) - n + 1, Len(q)) ELSE q

Store(b, e) ==                                     \* the state change of any push
  LET t2 == Inc(b, b.top)
  IN [b EXCEPT !.q   = Newest(Append(b.q, e), b.n),
               !.arr = [b.arr EXCEPT ![b.top] = e],
               !.top = t2,
               !.cnt = @ + 1,
               !.bot = IF t2 = b.bot THEN Inc(b, b.bot) ELSE b.bot]

Full(b) == Len(b.q) = b.n

BPush(b, e) == [b |-> Store(b, e),
                r |-> IF Full(b) THEN BUFFER_OVERFLOW ELSE Soft(b),
                e |-> Untouched]

BPull(b) == IF b.q = << >>
            THEN [b |-> b, r |-> EMPTY, e |-> Untouched]
            ELSE [b |-> [b EXCEPT !.q = Tail(b.q), !.bot = Inc(b, b.bot)],
                  r |-> Soft(b), e |-> Head(b.q)]

BPop(b) == IF b.q = << >>
           THEN [b |-> b, r |-> EMPTY, e |-> Untouched]
           ELSE [b |-> [b EXCEPT !.q = SubSeq(b.q, 1, Len(b.q) - 1),
                                 !.top = Dec(b, b.top)],
                 r |-> Soft(b), e |-> b.q[Len(b.q)]]

BRead(b, i) == IF i \in 0..b.n
               THEN [b |-> b, r |-> OK, e |-> b.arr[i]]
               ELSE [b |-> b, r |-> OUT_OF_BOUND, e |-> Untouched]

\* Writing a slot that is inside the window changes the stored event there.
BWrite(b, e, i) ==
  IF i \in 0..b.n
  THEN LET k == ((i + Slots(b) - b.bot) % Slots(b)) + 1      \* place in the window
       IN [b |-> [b EXCEPT !.arr[i] = e,
                           !.q = IF k <= Len(b.q) THEN [b.q EXCEPT ![k] = e] ELSE b.q],
           r |-> OK, e |-> Untouched]
  ELSE [b |-> b, r |-> OUT_OF_BOUND, e |-> Untouched]

Attach(b) == [b EXCEPT !.w = @ + 1]

\* Pushes through a writer: BUFFER_OVERFLOW or OK, never UNSAFE.
WPush(b, e) == [b |-> Store(b, e),
                r |-> IF Full(b) THEN BUFFER_OVERFLOW ELSE OK,
                e |-> e]
===============================================================================
