------------------------------ MODULE MonitorTrace ------------------------------
(* What a user may observe of one periodic monitor: calls of the controlling     *)
(* threads, starts and ends of its jobs, all with their (virtual) time in us.     *)
(* Recorded histories of the real code are accepted or not.                       *)
(*                                                                                *)
(* The release times of the jobs are not observable; the specification keeps the  *)
(* set of intervals they can lie in (`poss`), and narrows it by what it sees:      *)
(* the first one is a period after the moment T0 at which the monitor's thread     *)
(* noticed that it was enabled, every later one a period after the previous one,   *)
(* with the period in force when the previous job ended.                           *)
EXTENDS Integers, Sequences, FiniteSets, Json
CONSTANTS FILE, JUDGE, LAT
  \* JUDGE: the properties judged.  LAT: how long a thread may take to notice enable

T == JsonDeserialize(FILE)
H == T.hist
VARIABLES h, pos, s
vars == <<h, pos, s>>

EN_C == 1  EN_R == 2  DIS_C == 3  DIS_R == 4  SP_C == 5  SP_R == 6  IR_C == 7  IR_R == 8  GP_C == 9
GP_R == 10 J_S == 11  J_E == 12   JO_C == 13  JO_R == 14 MADE == 15 ID_R == 16 END == 17  THREAD == 18
Judged(x) == x \in JUDGE
Timing == JUDGE \cap {"M01", "M02", "M05"} # {}
Ev(k) == H[h].ev[k]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Jumps == {H[h].jumps[i] : i \in 1..Len(H[h].jumps)}
\* when something due at x happens, given the late wake-ups of this history
Push(x) == IF \E j \in Jumps : j[1] <= x /\ x <= j[2] THEN (CHOOSE j \in Jumps : j[1] <= x /\ x <= j[2])[2] ELSE x

Init0 == [en |-> FALSE, enT |-> 0, enR |-> -1, dis |-> "no", mixed |-> FALSE,
          pend |-> 0, job |-> FALSE, n |-> 0, rel |-> {}, per |-> 0, set |-> -1, old |-> 0, thr |-> 0, cands |-> {}, last |-> 0,
          disT |-> 0, room |-> 0, must |-> "any", joined |-> FALSE, gp |-> {}, ok |-> TRUE, why |-> ""]
Bad(st, c, w) == IF c \/ ~st.ok THEN st ELSE [st EXCEPT !.ok = FALSE, !.why = w]
If(p, c) == ~Judged(p) \/ c

\* the intervals in which the next release lies
First(st, t) == {<<st.enT + p, Push((IF st.enR < 0 THEN t ELSE st.enR) + LAT) + p>> : p \in st.cands}
Next_(st, t) == IF st.n = 0 THEN First(st, t) ELSE {<<iv[1] + p, iv[2] + p>> : iv \in st.rel, p \in st.cands}
\* the part of interval iv that explains a start at time x
Narrow(iv, x, st) ==
  LET at == {<<x, x>>} \cup (IF st.n > 0 /\ x = st.last THEN {<<iv[1], x>>} ELSE {})
                       \cup {<<j[1], j[2]>> : j \in {j \in Jumps : j[2] = x}}
  IN  {<<Max(iv[1], a[1]), Min(iv[2], a[2])>> : a \in {a \in at : Max(iv[1], a[1]) <= Min(iv[2], a[2])}}
\* latest moment at which the next job has to have started
Due(st, t) == {Push(Max(iv[2], IF st.n > 0 THEN st.last ELSE 0)) : iv \in Next_(st, t)}
Missed(st, t) == /\ st.en /\ ~st.mixed /\ st.dis = "no" /\ ~st.job
                 /\ \A d \in Due(st, t) : d < t
Running(st) ==   IF ~st.en \/ st.joined THEN "F"
                 ELSE IF st.dis = "done" THEN "F"
                 ELSE IF st.dis = "no" /\ ~st.mixed /\ st.n > 0 THEN "T" ELSE "any"
Overdue(st, t) == Bad(Bad(st, If("M01", ~(Missed(st, t) /\ st.n = 0)), "M01 an enabled monitor does not start its jobs"),
                      Timing => ~Missed(st, t), "M02/M05 a job was not started when it was due")

Step(st, e) ==
  LET t == e[2]  v == e[3]  y == e[1] IN
  CASE y = MADE -> st
    [] y = THREAD ->   \* policy, priority, detached, explicit scheduling
        LET a == Bad(st, If("M06", st.thr = 0), "M06 more than one thread")
            b == Bad(a, If("M06", ((v % 1000) \div 100) = 0), "M06 the monitor's thread cannot be joined")
        IN [Bad(b, If("M06", H[h].v = 0 \/ v \div 1000 = 100 * H[h].th[1] + H[h].th[2]), "M06 the thread is created with another policy or priority")
            EXCEPT !.thr = @ + 1]
    [] y = EN_C -> [st EXCEPT !.enT = IF st.en THEN @ ELSE t, !.en = TRUE, !.pend = @ + 1,
                              !.mixed = @ \/ st.dis # "no",
                              !.cands = IF st.en THEN @ ELSE {st.per} \cup (IF st.set >= 0 THEN {st.set} ELSE {}),
                              !.dis = IF @ = "done" THEN "no" ELSE IF @ = "calling" THEN "race" ELSE @]
    [] y = EN_R -> [Bad(st, If("M01", v = 0), "enable fails") EXCEPT !.pend = @ - 1, !.enR = IF @ < 0 THEN t ELSE @]
    [] y = DIS_C -> [Overdue(st, t) EXCEPT !.dis = IF @ = "done" THEN @ ELSE IF st.pend > 0 THEN "race" ELSE "calling", !.mixed = @ \/ st.pend > 0]
    [] y = DIS_R -> [Bad(st, If("M03", v = 0), "disable fails") EXCEPT !.dis = IF st.dis = "calling" THEN "done" ELSE @,
                              !.disT = IF st.dis = "calling" THEN t ELSE @, !.room = IF st.dis # "calling" THEN @ ELSE IF st.job THEN 0 ELSE 1]
    [] y = SP_C -> [st EXCEPT !.set = v, !.cands = IF /\ st.en /\ ~st.job
                                                      /\ (t = st.last \/ (st.n = 0 /\ (st.enR < 0 \/ t <= Push(st.enR + LAT))))
                                                   THEN @ \cup {v} ELSE @]
    [] y = SP_R -> [st EXCEPT !.per = v, !.set = -1]
    [] y = IR_C -> [st EXCEPT !.must = Running(st)]
    [] y = IR_R -> Bad(st, If("M04", Running(st) # st.must \/ st.must = "any" \/ (v = 1) = (st.must = "T")),
                       IF v = 1 THEN "M04 reports running before it is enabled or after it is disabled" ELSE "M04 a running monitor reports that it is not")
    [] y = GP_C -> st
    [] y = GP_R -> Bad(st, If("M04", v \in {st.per} \cup (IF st.set >= 0 THEN {st.set} ELSE {})), "M04 reports another period")
    [] y = ID_R -> Bad(st, If("M04", v = 1), "M04 wrong identifier")
    [] y = J_S ->
        LET rel1 == UNION {Narrow(iv, t, st) : iv \in Next_(st, t)}
            a == Bad(st, If("M01", st.en), "M01 a job starts before the monitor is enabled")
            b == Bad(a, If("M01", ~st.job), "M01 jobs overlap")
            c == Bad(b, If("M01", v = 1), "M01 wrong payload")
            d == Bad(c, If("M03", ~st.joined), "M03 a job starts after join")
            f == Bad(d, If("M03", st.dis = "done" => (st.room > 0 /\ t = st.disT)), "M03 a disabled monitor goes on")
            g == Bad(f, (Timing /\ st.en) => rel1 # {}, "M02/M05 a job starts at a time that is no release of its own")
        IN [g EXCEPT !.job = TRUE, !.n = @ + 1, !.rel = IF Timing THEN rel1 ELSE {}, !.room = IF st.dis = "done" THEN 0 ELSE @]
    [] y = J_E -> [st EXCEPT !.job = FALSE, !.last = t, !.cands = {st.per} \cup (IF st.set >= 0 THEN {st.set} ELSE {})]
    [] y = JO_C -> st
    [] y = JO_R -> [Bad(st, If("M03", v = 0), "M03 join fails") EXCEPT !.joined = TRUE]
    [] y = END -> LET z == Bad(st, If("M06", st.thr = 1), "M06 the monitor has no thread") IN
                  Bad(Overdue(z, t), (Judged("M03") \/ Judged("M05")) => v = 1, "M03/M05 the monitor never ends")
    [] OTHER -> Bad(st, FALSE, "unknown event")

Init == h \in 1..Len(H) /\ pos = 0 /\ s = [Init0 EXCEPT !.per = H[h].p0, !.cands = {H[h].p0},
                                                          !.ok = ~(Timing /\ H[h].frac = 1), !.why = "M02/M05 a job starts between two microseconds"]
Next == /\ pos < Len(H[h].ev) /\ s.ok
        /\ pos' = pos + 1 /\ h' = h
        /\ s' = Step(s, Ev(pos + 1))
Spec == Init /\ [][Next]_vars
View == <<h, pos, s.ok>>
Accepted == s.ok
==================================================================================
