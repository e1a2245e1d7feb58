-------------------------------- MODULE Monitor --------------------------------
(* The life cycle of a periodic monitor: one monitor thread and controlling       *)
(* threads that call enable and disable, at the granularity of single accesses to *)
(* the shared status, with a virtual clock, a timed wait that may wake up without *)
(* reason, and wake-ups that may come late.                                       *)
(*                                                                                *)
(* FIXED = TRUE is the implementation (src/task_compat.h, src/periodicmonitor.h);  *)
(* FIXED = FALSE the original one, whose defects TLC finds here.                   *)
(*                                                                                *)
(* ENDLESS = FALSE: controllers make each of their calls once, the clock runs to   *)
(* MAXT.  ENDLESS = TRUE: they go on calling and time goes on for ever, with any   *)
(* number of spurious and late wake-ups; the clock then stays at 0 and all times   *)
(* move instead, t0 and njobs with them by whole periods, so that there are        *)
(* finitely many states and all histories are explored whatever their length.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS CTRL,      \* controlling threads
          OPS,       \* calls each of them may make
          PERIOD, MAXT,   \* the clock runs from 0 to MAXT
          DUR,       \* possible durations of a job
          SPUR, LATE,     \* spurious and late wake-ups left
          MEM,       \* possible contents of the memory the status lies in
          FIXED, ENDLESS

Status == {"ACTIVATE", "UNACTIVATE", "RUNNING", "ABORT", "ABORTED"}

VARIABLES st,        \* shared status
          cst,       \* construction: "new", "made"
          mpc,       \* program counter of the monitor's thread
          next,      \* release time of the next job
          jend,      \* end of the current job
          now, t0, njobs, starts,
          cpc, creg, left,   \* per controller: program counter, what it read, calls left
          lastop,    \* what the calls completed last amount to: "none", "enabling", "enabled", "disabling", "disabled", "mixed"
          clean,     \* controllers whose call of disable no enable overlaps so far
          room,      \* jobs that may still start after disable has returned
          spur, late, forgave
vars == <<st, cst, mpc, next, jend, now, t0, njobs, starts, cpc, creg, left, lastop, clean, room, spur, late, forgave>>

Init == /\ st \in MEM /\ cst = "new" /\ mpc = "none" /\ next = 0 /\ jend = 0 /\ now = 0 /\ t0 = 0 /\ njobs = 0 /\ starts = 0
        /\ cpc = [c \in CTRL |-> "idle"] /\ creg = [c \in CTRL |-> "UNACTIVATE"] /\ left = [c \in CTRL |-> OPS]
        /\ lastop = "none" /\ clean = {} /\ room = 9 /\ spur = SPUR /\ late = LATE /\ forgave = 0

\* -- construction ---------------------------------------------------------------
\* fixed: status set, then thread created; original: the other way round
Construct1 ==
  /\ cst = "new" /\ cst' = "half"
  /\ IF FIXED THEN st' = "UNACTIVATE" /\ UNCHANGED mpc ELSE mpc' = "trap" /\ UNCHANGED st
  /\ UNCHANGED <<next, jend, now, t0, njobs, starts, cpc, creg, left, lastop, clean, room, spur, late, forgave>>
Construct2 ==
  /\ cst = "half" /\ cst' = "made"
  /\ IF FIXED THEN mpc' = "trap" /\ UNCHANGED st ELSE st' = "UNACTIVATE" /\ UNCHANGED mpc
  /\ UNCHANGED <<next, jend, now, t0, njobs, starts, cpc, creg, left, lastop, clean, room, spur, late, forgave>>

\* -- the monitor's thread --------------------------------------------------------
MStay == UNCHANGED <<cst, now, cpc, creg, left, lastop, clean, spur, late, forgave>>
\* the trap: poll the status
Trap1 ==
  /\ mpc = "trap"
  /\ IF FIXED
     THEN CASE st = "ACTIVATE" -> st' = "RUNNING" /\ mpc' = "first"   \* one atomic step
            [] OTHER -> st' = st /\ mpc' = "trap2"
     ELSE CASE st = "ACTIVATE" -> mpc' = "trapwr" /\ UNCHANGED st
            [] OTHER -> UNCHANGED <<mpc, st>>
  /\ UNCHANGED <<next, jend, t0, njobs, starts, room>> /\ MStay
Trap2 == \* second test of the trap
  /\ mpc = "trap2"
  /\ IF st = "ABORT" THEN st' = "ABORTED" /\ mpc' = "done" ELSE mpc' = "trap" /\ UNCHANGED st
  /\ UNCHANGED <<next, jend, t0, njobs, starts, room>> /\ MStay
TrapWr == \* original: the status is written in a step of its own
  /\ mpc = "trapwr" /\ st' = "RUNNING" /\ mpc' = "first"
  /\ UNCHANGED <<next, jend, t0, njobs, starts, room>> /\ MStay
First ==
  /\ mpc = "first" /\ mpc' = "wait" /\ next' = now + PERIOD /\ t0' = now
  /\ UNCHANGED <<st, jend, njobs, starts, room>> /\ MStay
TimedOut ==
  /\ mpc = "wait" /\ now >= next /\ mpc' = "check"
  /\ UNCHANGED <<st, next, jend, t0, njobs, starts, room>> /\ MStay
Spurious ==
  /\ mpc = "wait" /\ now < next /\ spur > 0 /\ spur' = (IF ENDLESS THEN spur ELSE spur - 1)
  /\ mpc' = IF FIXED THEN "wait" ELSE "done"
  /\ UNCHANGED <<st, next, jend, t0, njobs, starts, room, cst, now, cpc, creg, left, lastop, clean, late, forgave>>
CheckAbort ==
  /\ mpc = "check"
  /\ mpc' = IF st = "ABORT" THEN "aborting" ELSE IF FIXED THEN "react" ELSE "start"
  /\ UNCHANGED <<st, next, jend, t0, njobs, starts, room>> /\ MStay
Aborting ==
  /\ mpc = "aborting" /\ st' = "ABORTED" /\ mpc' = "done"
  /\ UNCHANGED <<next, jend, t0, njobs, starts, room>> /\ MStay
React == \* activated again while running
  /\ mpc = "react" /\ mpc' = "start"
  /\ st' = IF st = "ACTIVATE" THEN "RUNNING" ELSE st
  /\ UNCHANGED <<next, jend, t0, njobs, starts, room>> /\ MStay
Start ==
  /\ mpc = "start" /\ mpc' = "job"
  \* a monitor that is too far behind already is spared longer jobs
  /\ \E d \in DUR : (ENDLESS => d = 0 \/ next > -2 * PERIOD) /\ jend' = now + d
  /\ starts' = (IF ENDLESS THEN 1 ELSE starts + 1) /\ room' = (IF room < 0 THEN room ELSE room - 1)
  /\ UNCHANGED <<st, next, t0, njobs>> /\ MStay
Finish ==
  /\ mpc = "job" /\ now >= jend /\ mpc' = "wait" /\ njobs' = njobs + 1 /\ next' = next + PERIOD
  /\ UNCHANGED <<st, jend, t0, starts, room>> /\ MStay
MonitorStep == Trap1 \/ Trap2 \/ TrapWr \/ First \/ TimedOut \/ CheckAbort \/ Aborting \/ React \/ Start \/ Finish

\* -- the controlling threads ---------------------------------------------------
CStay == UNCHANGED <<cst, mpc, next, jend, now, t0, njobs, starts, spur, late, forgave>>
CallEnable(c) ==
  /\ cst = "made" /\ cpc[c] = "idle" /\ "enable" \in left[c]
  /\ left' = (IF ENDLESS THEN left ELSE [left EXCEPT ![c] = @ \ {"enable"}]) /\ cpc' = [cpc EXCEPT ![c] = "en1"]
  /\ lastop' = IF lastop = "none" THEN "enabling" ELSE IF lastop \in {"enabling", "enabled"} THEN lastop ELSE "mixed"
  /\ room' = 9 /\ clean' = {}
  /\ UNCHANGED <<st, creg>> /\ CStay
En1(c) ==
  /\ cpc[c] = "en1" /\ creg' = [creg EXCEPT ![c] = st]
  /\ cpc' = [cpc EXCEPT ![c] = IF FIXED THEN IF st \in {"ACTIVATE", "RUNNING"} THEN "enret" ELSE "en2"
                               ELSE IF st = "ACTIVATE" THEN "enret" ELSE "en2"]
  /\ UNCHANGED <<st, left, lastop, clean, room>> /\ CStay
En2(c) ==
  /\ cpc[c] = "en2"
  /\ IF ~FIXED \/ st = creg[c] THEN st' = "ACTIVATE" /\ cpc' = [cpc EXCEPT ![c] = "enret"]
                               ELSE cpc' = [cpc EXCEPT ![c] = "en1"] /\ UNCHANGED st
  /\ UNCHANGED <<creg, left, lastop, clean, room>> /\ CStay
EnRet(c) ==
  /\ cpc[c] = "enret" /\ cpc' = [cpc EXCEPT ![c] = "idle"]
  /\ lastop' = IF lastop = "enabling" THEN "enabled" ELSE lastop
  /\ UNCHANGED <<st, creg, left, clean, room>> /\ CStay
Enabling == \E c \in CTRL : cpc[c] \in {"en1", "en2", "enret"}
CallDisable(c) ==
  /\ cst = "made" /\ cpc[c] = "idle" /\ "disable" \in left[c]
  /\ left' = (IF ENDLESS THEN left ELSE [left EXCEPT ![c] = @ \ {"disable"}]) /\ cpc' = [cpc EXCEPT ![c] = "dis1"]
  /\ lastop' = IF lastop = "disabled" THEN lastop ELSE IF Enabling THEN "mixed" ELSE "disabling"
  /\ clean' = IF Enabling THEN clean ELSE clean \cup {c}
  /\ UNCHANGED <<st, creg, room>> /\ CStay
Dis1(c) ==
  /\ cpc[c] = "dis1"
  /\ cpc' = [cpc EXCEPT ![c] = IF st = "ABORT" THEN "disret" ELSE "dis2"]
  /\ UNCHANGED <<st, creg, left, lastop, clean, room>> /\ CStay
Dis2(c) ==
  /\ cpc[c] = "dis2" /\ st' = "ABORT" /\ cpc' = [cpc EXCEPT ![c] = "disret"]
  /\ UNCHANGED <<creg, left, lastop, clean, room>> /\ CStay
DisRet(c) ==
  /\ cpc[c] = "disret" /\ cpc' = [cpc EXCEPT ![c] = "idle"]
  /\ IF c \notin clean \/ lastop = "disabled" THEN UNCHANGED <<lastop, room>>
     ELSE lastop' = "disabled" /\ room' = IF mpc = "job" THEN 0 ELSE IF mpc \in {"check", "react", "start"} \/ (mpc = "wait" /\ now >= next) THEN 1 ELSE 0
  /\ UNCHANGED <<st, creg, left, clean>> /\ CStay
ControlStep == \E c \in CTRL : CallEnable(c) \/ En1(c) \/ En2(c) \/ EnRet(c) \/ CallDisable(c) \/ Dis1(c) \/ Dis2(c) \/ DisRet(c)

\* -- time ---------------------------------------------------------------------------
\* Steps take no time; the clock advances only when the monitor's thread waits for
\* it (trap polls, timed wait, job).  A late wake-up lets it jump past a release.
Waiting == \/ mpc \in {"none", "done", "trap"}
           \/ mpc = "wait" /\ now < next
           \/ mpc = "job" /\ now < jend
Pass(k) == \* k units of time
  IF ~ENDLESS THEN now' = now + k /\ UNCHANGED <<next, jend, t0, njobs>>
  ELSE IF mpc \in {"none", "trap", "done"} THEN next' = 0 /\ jend' = 0 /\ t0' = 0 /\ njobs' = 0 /\ UNCHANGED now
  ELSE LET d == (k - t0) \div PERIOD IN
       /\ next' = next - k /\ jend' = (IF mpc = "job" THEN jend - k ELSE 0) /\ t0' = t0 - k + d * PERIOD /\ njobs' = njobs - d
       /\ UNCHANGED now
Tick == /\ cst = "made" /\ (ENDLESS \/ now < MAXT) /\ Waiting /\ (mpc = "trap" => st # "ACTIVATE")
        /\ (ENDLESS \/ \A c \in CTRL : cpc[c] = "idle")
        /\ \/ Pass(1) /\ UNCHANGED <<late, forgave>>
           \/ mpc = "wait" /\ now + 1 = next /\ late > 0
              /\ Pass(1 + PERIOD) \* woken one period late
              /\ IF ENDLESS THEN UNCHANGED <<late, forgave>> ELSE late' = late - 1 /\ forgave' = forgave + 1
        /\ UNCHANGED <<st, cst, mpc, starts, cpc, creg, left, lastop, clean, room, spur>>
Next == Construct1 \/ Construct2 \/ MonitorStep \/ Spurious \/ ControlStep \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Construct1) /\ WF_vars(Construct2) /\ WF_vars(MonitorStep)
             /\ WF_vars(\E c \in CTRL : En1(c) \/ En2(c) \/ EnRet(c) \/ Dis1(c) \/ Dis2(c) \/ DisRet(c)) /\ IF ENDLESS THEN SF_vars(Tick) ELSE WF_vars(Tick)

\* -- properties --------------------------------------------------------------------
TypeOK == st \in Status
\* M01: no job before enable
NotEarly == starts > 0 => lastop # "none"
\* M02: the release of job k+1 is k+1 periods after the start of the loop
Grid == mpc \in {"wait", "check", "react", "start", "job"} =>
          next = t0 + (njobs + 1) * PERIOD
NeverBefore == mpc \in {"check", "react", "start", "job"} => now >= next
\* M05: only disable ends it
StillThere == lastop = "enabled" => mpc # "done"
\* M03: at most the job in progress or about to start follows a disable
Stops == lastop = "disabled" => room >= 0
Terminates == (lastop = "disabled") ~> (mpc = "done" \/ lastop # "disabled" \/ (~ENDLESS /\ now >= MAXT))
\* a monitor that is still polling for its activation ends without time passing
TrapEnds == (lastop = "disabled" /\ mpc \in {"trap", "trap2", "trapwr"}) ~> (mpc = "done" \/ lastop # "disabled")
\* M04
ReportsRunning == (lastop = "enabled" /\ starts > 0 /\ mpc # "done") => st = "RUNNING"
ReportsStopped == (lastop = "disabled" \/ lastop = "none") => (cst = "made" => st # "RUNNING")
Begins == (lastop = "enabled") ~> (starts > 0 \/ lastop # "enabled" \/ (~ENDLESS /\ now > MAXT - PERIOD - 1))
=================================================================================
