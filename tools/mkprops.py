#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

CB, AC, WR, RD, EV, TC, PM, TK = ("src/circularbuffer.h", "src/atomic_compat.h", "src/writer.h", "src/reader.h",
    "src/event.h", "src/time_compat.h", "src/periodicmonitor.h", "src/task_compat.h")
RR, FO, TE, R3, PA = ("src/rmtld3/reader.h", "src/rmtld3/formulas.h", "src/rmtld3/terms.h", "src/rmtld3/rmtld3.h", "src/rmtld3/pattern.h")

p("B01", "The circular buffer is a bounded FIFO that keeps the newest events",
  "For every sequence of pushes, pulls and pops, a buffer of capacity N holds exactly the newest not-yet-removed events in push order, never more than N: pull removes and returns the oldest, pop removes and returns the newest, and a push onto a full buffer discards exactly the oldest. The reported length is the number of stored events. The status is EMPTY exactly when nothing is stored (and then neither the buffer nor the caller's event changes), BUFFER_OVERFLOW exactly when a push discarded an event, UNSAFE on any other successful operation once more than one writer is attached, and OK otherwise.",
  ["histories", "inputs", "configurations"], "every operation sequence, every capacity, every event value and every number of attached writers up to 255",
  "The two buffer tests run one fixed script on one capacity (100); order after arbitrary mixes, repeated wrap-around, other capacities and the UNSAFE status are never looked at.",
  [CB, AC], [("index increment/decrement with wrap", CB), ("push/pull/pop", CB), ("page/state indirection", AC)],
  ["return value and out-parameter of push/pull/pop", "length()"],
  [("top", "slot the next push fills", AC), ("bottom", "slot of the oldest event", AC)])

p("B02", "Indexed access and state queries are exact, bounds-checked and passive",
  "Reading slot i returns the event last stored in that slot and writing slot i replaces that slot and no other; both report OUT_OF_BOUND, change nothing and leave the caller's event untouched for every index beyond the capacity. The state query returns the positions (and, on request, the timestamps found at those positions) of the oldest event and of the next free slot, so that walking from one to the other enumerates the stored events in order. Reading, querying the state and querying the length never change what any later operation returns.",
  ["histories", "inputs", "configurations"], "every operation sequence, every index, every capacity",
  "Tests read two or three fixed indices of one buffer and never pass an index at or beyond the limit or check that queries are passive.",
  [CB, AC], [("read/write bounds checks", CB), ("state snapshots", CB)], ["read/write/state/length return values and out-parameters"])

p("B03", "Assigning a buffer yields an equal and independent snapshot",
  "After one buffer is assigned to another of the same type, the target has the same stored events, positions and length as the source had at that moment. From then on any sequence of operations on either of them, including destroying the source, leaves the other one's contents, length and statuses exactly as if the assignment had been a deep copy.",
  ["histories"], "every history before the assignment and every interleaving of operations on both buffers after it, including self-assignment and re-assignment",
  "The only test that assigns a buffer compares one length right after the assignment, which an alias satisfies as well as a copy.",
  [CB, AC], [("operator= relocates the state page", CB)], ["all public operations on both buffers"])

p("E01", "Event comparison is a consistent time order",
  "Comparing two events, or an event with a time in either order, orders them by timestamp only: <, <=, > and >= agree with the integer order of the full-width timestamps. Two events are equal exactly when both timestamp and data agree, and 'not equal' is always the negation of 'equal'. Setting the time or the data of an event changes only that part, and copying an event preserves both.",
  ["inputs"], "all pairs of events and times, including 64-bit timestamps that differ only in the upper half",
  "No test compares events; they are only compared implicitly inside the writer's completion check.",
  [EV], [("relational operators and setters", EV)], ["operator results"])

p("E02", "Time arithmetic is exact",
  "Adding and subtracting two times given in seconds and nanoseconds yields exactly their sum and difference, written with a number of nanoseconds from 0 to 999999999, also when a second's boundary is crossed, when the difference is negative and when the result replaces an operand; comparing two times agrees with the order of the instants they denote, and a time is 'set' exactly when it is not zero. Converting a number of microseconds gives exactly that time for every value of its type. The system clock is read as the exact number of nanoseconds it shows, at full width.",
  ["inputs"], "all pairs of canonical times, all 32-bit numbers of microseconds, all clock values up to year 2242",
  "No test computes with times; errors show only at carries, at second boundaries and for values that no longer fit a narrower type.",
  [TC], [("timespecadd/timespecsub/timespeccmp/timespecisset", TC), ("useconds_t2timespec", TC), ("clockgettime", TC)], ["results of the time macros"])

p("W01", "A writer stamps every pushed event and stores it in stamp order",
  "Every event pushed by a writer is stored with a timestamp taken from the system clock between the start and the end of that push, the same timestamp is handed back in the caller's event, and an event pushed with an explicit time is stored with that time. When every event is stamped by writers, timestamps never decrease from the oldest to the newest stored event, whichever writers pushed them and however their pushes interleave. The push returns BUFFER_OVERFLOW exactly when the buffer already held N events and OK otherwise, and discards exactly the oldest event in the former case.",
  ["histories", "schedules", "configurations"], "every history of pushes by any number of writers, taking turns or interleaved arbitrarily, and every capacity",
  "Tests push through one writer, one time, to one capacity, and check only the status; stamps and their order are never compared with the clock.",
  [WR, AC], [("clock read inside the reservation loop", WR), ("overflow bottom increment", WR)], ["writer push return value and argument", "buffer contents"])

p("W02", "Concurrent pushes are atomic: nothing lost, duplicated or torn",
  "However the pushes of several writers on one buffer interleave, each completed push takes effect exactly once, at one instant between its start and its end: the final contents are the last N events of one common order that respects every writer's own order and every real-time order between non-overlapping pushes. No stored event is lost (unless overwritten by N later ones), duplicated, moved or mixed from two events, and each push's status is the one that order implies.",
  ["schedules", "histories", "configurations"], "every interleaving of the memory accesses of up to three writers with several pushes each, on small capacities",
  "The existing concurrency test runs one writer; no test runs two, and no test controls the interleaving.",
  [WR, AC], [("compare-exchange of the state page", AC), ("completion check before reserving the next slot", AC)], ["push invocations and returns", "final buffer contents"],
  [("page", "pointer to the current top/bottom record plus a version counter", AC)])

p("W03", "Writers always make progress",
  "Under every schedule that keeps running every writer, every push on a buffer that is used through writers finishes: no interleaving leads to a deadlock, a livelock or a push that waits for something that can no longer happen. This holds for any number of writers, for any capacity and however often the buffer wraps around while a writer is suspended in the middle of a push.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of up to three writers with a writer suspended at any point for as long as the others run",
  "A hang needs several writers and a suspension at a particular instruction; no test has either.",
  [WR, AC], [("completion wait loop", AC), ("retry loop", AC)], ["termination of push under a fair scheduler"])

p("W04", "A buffer outlives its writers",
  "Destroying a writer never changes a buffer: its contents, order, length and positions stay as they were and remain valid after the memory of every writer that ever pushed to it has been reused, and later writers and readers continue from there. This holds at whatever point of a history writers are created and destroyed.",
  ["histories"], "every history of creating writers, pushing, destroying writers (with their memory overwritten) and reading",
  "No test destroys a writer before the last use of its buffer under observation.",
  [WR, AC], [("state page ownership", AC)], ["buffer contents after writer destruction"])

p("R01", "A reader that keeps up receives every event once and in order",
  "As long as no event is overwritten before the reader takes it, the events pulled by a reader that synchronizes between pushes are exactly the pushed events, each once and in push order, with data and timestamp unchanged. After a synchronization everything stored except the single newest event can be pulled, after which pull reports UNAVAILABLE and changes nothing; length reports how many synchronized events are not yet pulled.",
  ["histories", "configurations"], "every interleaving of pushes, synchronizations and pulls, every capacity, across any number of wrap-arounds",
  "The reader test pulls only from an unsynchronized reader; order and exactly-once delivery across wrap-around are never checked.",
  [RD], [("synchronize", RD), ("pull", RD)], ["pull status and event", "synchronize result", "length()"],
  [("bottom/top/timestamp", "local window and stamp of the next event to take", RD)])

p("R02", "Lost events are always reported as a gap, and only then",
  "If an event is discarded from the buffer before a reader took it, then before that reader can take any later event it is told: by GAP from the next synchronization, or by READER_OVERFLOW from a pull or by GAP from a gap query once the slot it would take has been overwritten. Synchronizing after a loss resumes at the oldest event still stored, and a reader that lost nothing since its first non-empty synchronization is never told GAP or READER_OVERFLOW.",
  ["histories", "configurations"], "every interleaving of pushes (with strictly increasing stamps), synchronizations and pulls in which the reader falls behind by any amount, every capacity",
  "One test overflows a buffer once with a reader that never read; falling behind by exactly one slot, one lap or several laps, with or without a synchronization in between, is not tested.",
  [RD, CB], [("timestamp comparison in synchronize/gap/pull", RD)], ["synchronize/pull/gap results and delivered events"])

p("R03", "Readers are passive and independent of each other",
  "Nothing a reader does (synchronizing, pulling, popping, querying) changes the buffer, what writers observe, or what any other reader of the same buffer receives. A reader's pop returns the newest not yet popped event of its synchronized window and moves backwards one event at a time, and pulls and pops of one reader never return the same event twice between two synchronizations.",
  ["histories", "configurations"], "every interleaving of operations of several readers and a writer, every capacity",
  "Tests use one reader at a time sequentially and never pop a synchronized reader.",
  [RD], [("local top/bottom", RD), ("pop", RD)], ["buffer contents before/after reader operations", "pop status and event"])

p("R04", "A reader running concurrently with writers sees only whole events in order",
  "While writers push concurrently, everything a reader pulls successfully is a whole event that some push stored, never an empty slot, a half-written event or an event that was not completely stored. The pulled events follow the common push order without repetition, an event is skipped only if a GAP or READER_OVERFLOW was reported in between, and READER_OVERFLOW or a GAP after the first one is reported only when an event was really discarded unread.",
  ["schedules", "histories", "configurations"], "every interleaving of the memory accesses of one reader with one or two writers, including a reader suspended while the buffer wraps",
  "The existing concurrency test samples one timing, is excluded as flaky (it fails about one run in five), and never suspends the reader inside an operation.",
  [RD, CB, AC], [("state snapshot", AC), ("one-event safety margin of pull", RD), ("overwrite check", RD)], ["pull/synchronize calls and returns against push calls and returns"])

p("T01", "Trace cursor navigation stays exact inside the reader's window",
  "For a trace reader whose cursor lies inside its synchronized window, moving the cursor forward and backward are inverse single steps that stop with UNAVAILABLE (and no movement) at the ends of the window, and reading the current, next and previous event returns exactly the event at that place of the window or UNAVAILABLE where there is none. The remaining and consumed counts always add up to the window length, reset returns to the oldest event, pull walks the window forward, and none of this depends on where the window lies in the circular storage.",
  ["histories", "inputs", "configurations"], "every window position and length (including windows that wrap around), every cursor position and every sequence of cursor operations",
  "Every trace in the tests starts at slot 0 of a buffer that never wraps, so wrap-around of the cursor is never executed (listed as open in TODO.md).",
  [RR], [("increment/decrement/read_previous/read_next wrap handling", RR)], ["status, event, length() and consumed() of every cursor operation"],
  [("cursor", "current position in the reader's window", RR)])

p("T02", "Seeking positions the cursor on the event in force at that time",
  "Seeking a time t succeeds exactly when the window holds two consecutive events with the first not after t and the second after t, and then the cursor is on the first of them, whatever the cursor position was before and whether the search ran forwards or backwards or across the wrap-around of the storage. A failed seek reports UNAVAILABLE and leaves the cursor inside the window.",
  ["histories", "inputs", "configurations"], "every strictly increasing trace, every time, every previous cursor position, every placement of the window in the storage",
  "Tests seek forward from the first event in two fixed traces; backward seeks and wrapped windows are never executed.",
  [RR, FO], [("set: backward then forward search", RR)], ["set() status, event under the cursor"])

p("L01", "Three-valued connectives follow strong Kleene logic",
  "Conjunction, disjunction, negation and comparison of verdicts and durations follow the strong Kleene tables: a result is conclusive exactly when the conclusive operands force it, and a comparison with a duration that is not fully known is UNKNOWN. Conversion between three-valued verdicts and the evaluator's internal values loses nothing, a verdict is printed by its own name, and duration sums and products combine values exactly and are unknown when an operand is.",
  ["inputs"], "all combinations of truth values and durations, including compositions of connectives",
  "Tests evaluate a handful of combinations that occur in fixed formulas.",
  [R3], [("b3_* macros and duration helpers", R3)], ["value of the connectives"])

p("L02", "A proposition is decided exactly by the event in force",
  "With the cursor on event e, a proposition at time t is TRUE or FALSE only if e is followed by another event of the trace and t lies from e's time up to but not including the next event's time, and then it is TRUE exactly when e carries that proposition. In every other case (last event of the trace, time before or after e's interval, empty trace) it is UNKNOWN.",
  ["inputs", "histories"], "every trace, cursor position, proposition and time, including 64-bit times",
  "Formula tests evaluate propositions at a few aligned times of fixed traces.",
  [FO], [("prop", FO)], ["return value of the proposition evaluator"])

p("L03", "Bounded until computes its pointwise three-valued semantics",
  "Bounded until with bound b evaluated at time t with the cursor on the event in force scans the events from there on with times before t+b: the first one where the second operand is not FALSE, or the first operand is not TRUE, decides, with the second operand's value if that is not FALSE and otherwise the first operand's value. If none decides, the verdict is FALSE when the trace has an event at or after t+b and UNKNOWN otherwise. The in-between variant may additionally decide at times strictly inside the window, never outside it.",
  ["inputs", "programs", "histories"], "every trace, evaluation point, bound and nesting of operands",
  "Tests evaluate until on four fixed traces with one expected verdict each, far from the window boundary.",
  [FO], [("until_less fold", FO)], ["verdict"])

p("L04", "Eventually and always compute their pointwise semantics",
  "Always within b is FALSE at the first event before t+b whose operand is FALSE, UNKNOWN if an UNKNOWN operand comes first, TRUE only once an event at or after t+b was seen, and UNKNOWN otherwise; eventually/always at exactly b yields the operand's value at the last event not after t+b, and a conclusive verdict only once the trace has reached t+b. Unbounded eventually yields the first operand value that is not FALSE and is never FALSE on a finite trace. Always is the dual of eventually for every operand.",
  ["inputs", "programs", "histories"], "every trace, evaluation point, bound and operand",
  "Each operator has one test on one trace, expecting one verdict.",
  [FO], [("eventually_equal, eventually_less_unbounded, always_equal, always_less", FO)], ["verdict"])

p("L05", "Past operators compute their pointwise semantics",
  "Bounded since evaluated at t scans the events strictly before t and strictly after t-b backwards: the first one where the second operand is not FALSE or the first is not TRUE decides as for until; if none decides, the verdict is FALSE when the trace reaches back to t-b and UNKNOWN otherwise, and historically is its dual. Past-eventually/historically at exactly b yields the operand's value at the event in force at t-b, or at the oldest event of the trace when the trace does not reach back that far, and UNKNOWN if there is no event strictly before t.",
  ["inputs", "programs", "histories"], "every trace, evaluation point, bound and operand",
  "One test per operator, both with a window that reaches past the start of the trace and ends in TRUE; the window's older end and the FALSE/UNKNOWN outcomes are never reached.",
  [FO], [("since_less, pasteventually_equal, historically_*", FO)], ["verdict"])

p("L06", "The duration term measures exactly the time its formula holds",
  "For an evaluation time t not before the current event, the duration of a formula over the window from t to t+b is exactly the total time within the window during which events at which the formula is TRUE are in force; it never exceeds b. It is marked unknown exactly when the formula is UNKNOWN at an event in force inside the window or the trace has no event after t+b.",
  ["inputs", "histories"], "every trace, evaluation time, window length and operand formula, including windows that start and end inside one event",
  "One test with one window aligned to the first event and one expected number.",
  [TE], [("duration_term accumulation and clipping", TE)], ["returned duration and unknown flag"])

p("L07", "A conclusive verdict is never revoked by later events",
  "For every formula built from the operators, if a monitor's verdict at a time t that the trace has reached is TRUE or FALSE, then appending any further events to the trace leaves that verdict unchanged, as long as the events it was computed from are still stored. A duration that is marked known likewise never changes.",
  ["inputs", "programs", "histories"], "every formula, every trace and every extension of it",
  "Tests evaluate each formula once on one complete trace and never extend it.",
  [FO, TE], [("UNKNOWN for the last event and for windows not yet passed", FO)], ["verdicts on growing traces"])

p("L08", "Evaluating a formula is pure and independent of storage and time origin",
  "Evaluating any formula or term leaves the trace cursor, the reader's window and the buffer exactly as they were, so evaluating twice gives the same verdict. The verdict depends only on the sequence of events relative to the evaluation time: not on where the window lies in the circular storage, not on the buffer capacity, and not on the absolute time origin or unit.",
  ["inputs", "programs", "configurations"], "every formula and trace, every placement in storage, every capacity that holds the trace, every time offset and scale",
  "All test traces start at slot 0 and near time 0, and the cursor after an evaluation is never compared.",
  [FO, TE, RR], [("cursor save/restore around every sub-evaluation", FO), ("cursor wrap handling", RR)], ["cursor, window and buffer before/after", "verdicts across placements"])

p("M01", "A monitor runs only after it is enabled, one job at a time",
  "No job of a periodic monitor or task starts before it is enabled, whatever memory it is constructed in and however its thread is scheduled during construction. Once enabled it starts executing, its jobs run one after the other and never overlap, each executes the user's body exactly once with the payload it was created with, and enabling it again while it runs changes nothing.",
  ["schedules", "histories", "inputs"], "every interleaving of construction, enabling and the monitor thread, every content of the memory it is constructed in",
  "The monitor tests construct on one machine with one timing and sleep for seconds between steps.",
  [TK, PM], [("activation trap", TK), ("job loop", TK)], ["job start/end events against enable() calls"],
  [("st", "lifecycle state of the task", TK)])

p("M02", "Jobs are released exactly one period apart",
  "The k-th job of an enabled monitor is released exactly k periods after the start of its thread's periodic loop: it never starts before that time, it starts as soon as that time has come (or, with a late wake-up, as soon as the monitor is woken) and the previous job is finished, and no release is skipped or duplicated, also when jobs overrun their period and the monitor has to catch up. A period that is changed at run time applies from the next release computed after the change.",
  ["histories", "inputs", "fault_sequences"], "every period, every start time (including second boundaries), every sequence of job durations, period changes and late wake-ups",
  "Real-time tests use one period, jobs that take no time, and a machine clock that cannot be positioned on a boundary.",
  [TK, TC], [("timespec arithmetic", TC), ("absolute-deadline wait", TK)], ["virtual time of each job start"])

p("M03", "Disabling a monitor always stops it and lets it be joined",
  "After disable returns, and as long as the monitor is not enabled again, no further release is executed (only the job already in progress, or the one whose release had already come, may still run) and then the monitor's thread terminates, so that join returns success. This holds whether the monitor was never enabled, was enabled just before, is waiting for its next release or is executing a job, and in every interleaving of the disabling thread with the monitor thread.",
  ["schedules", "histories"], "every interleaving of enable, disable and join with the monitor's own steps, at every point of its life",
  "Tests disable once, seconds after the monitor started.",
  [TK, PM], [("abort check", TK), ("activation trap", TK)], ["termination of join()", "jobs after disable()"])

p("M04", "Monitor status and settings are truthful",
  "A monitor reports that it is running from its first release until it has been disabled, and not before it is enabled nor after it stopped; enabling a running monitor does not change that. The period reported is the one given at construction until another one is set, and then that one; the identifier is the one it was declared with.",
  ["histories", "schedules"], "every sequence of enable, disable, set-period and queries, interleaved with the monitor thread",
  "No test calls any of the queries.",
  [PM, TK], [("status transitions", TK), ("enable/disable/isRunning/getPeriod/setPeriod", PM)], ["isRunning(), getPeriod()"])

p("M05", "A monitor survives spurious and late wake-ups",
  "A wake-up of the monitor's timed wait without its release time having come, which the platform may deliver at any time, never ends the monitor, never releases a job early and never skips or repeats a release. The same holds for wake-ups that arrive arbitrarily late.",
  ["fault_sequences", "schedules", "histories"], "every placement of spurious and late wake-ups in the life of a monitor",
  "The platform's waits practically never wake up spuriously during a test.",
  [TK], [("timed wait handling", TK)], ["job starts under injected wake-ups"])

p("M06", "A monitor's thread is made as it was declared",
  "Constructing a monitor or task creates exactly one thread, which can be joined, and asks for the scheduling policy and priority the monitor was declared with, for every policy and every priority that policy has; the thread then runs with that policy and priority.",
  ["inputs", "configurations"], "every policy, priority and construction",
  "The tests declare a few combinations and observe none of them.",
  [TK, PM], [("create_task and the two constructors", TK)], ["attributes at thread creation"])

p("X01", "End to end, a monitor's verdict is the formula's value on the recorded history",
  "For a monitor built the way the generated monitors are (writers push, a periodic job synchronizes, seeks its start time and evaluates its formula), every verdict it publishes equals the formula's semantics on the events pushed so far, as long as the events from its start time on are still stored; before the start time is covered the verdict stays UNKNOWN. In particular published verdicts go from UNKNOWN to at most one conclusive value and stay there, as long as no event the formula looks back to has been discarded.",
  ["histories", "schedules", "programs", "configurations"], "every history of pushes and monitor jobs in any interleaving, several formulas, several monitors on one buffer",
  "Three tests run two formulas on three hand-timed histories and look at the last verdict.",
  [PM, WR, RD, RR, FO], [("composition of writer, buffer, reader, seek and evaluation", "tests/custom-rtm-monitor")], ["verdict after each job against the pushed history"])

p("D01", "Diagnosis is passive",
  "Compiling with any combination of the library's diagnosis switches (RTMLIB_DEBUG at any level, RTMLIB_ENABLE_DEBUGV_RMTLD3, RTMLIB_ENABLE_DEBUG_RMTLD3), and asking any event, buffer, reader or trace at any moment to print itself with debug(), changes nothing that can be observed otherwise: every later operation on buffers, writers, readers and traces returns the same as without diagnosis, formulas have the same verdicts, and concurrent pushes, reads and monitors keep the guarantees they have without it. Printing a buffer or a trace shows only events that exist in it (elements of its storage), never memory outside of it, and nothing is printed or evaluated when the switches are off.",
  ["configurations", "histories", "schedules"], "every level and combination of the switches, every history with debug() calls anywhere in it",
  "The tests are built with one setting of the switches and never compare two; output that reads or changes too much does not fail a test.",
  ["src/debug_compat.h", CB, RD, RR, R3, FO, TK], [("DEBUGV/DEBUGV3/DEBUGV_RMTLD3 macros and their arguments", "src/debug_compat.h"), ("debug() of buffer, event, reader, trace", CB)],
  ["everything the public operations return, with and without diagnosis"])

p("P01", "Buffers, writers, readers, traces, events and times behave the same on every target",
  "The code selected for RISC-V (NuttX, RTEMS, FreeRTOS, without an operating system), for 32-bit ARM (NuttX, FreeRTOS) and for hardware synthesis compiles when it is used with the operations it implements, and used by one thread gives the same results as the x86_64 code for every sequence of operations on buffers, writers, readers and traces: the same statuses, events, lengths, positions, gaps and cursor movements. Comparing and changing events, arithmetic on times, and the connectives and duration operators give the same results for every value the target's types can hold. A writer's stamps come from the target's system clock where the target has one. On hardware synthesis, where writers are not lock-free and have no clock, only push_all is available and it behaves as the buffer's own push.",
  ["configurations", "histories"], "every supported target and every operation sequence on it, for times within the target's range (32 bits of ns on ARM)",
  "The tests are only ever built for the machine they run on; the code of the other targets is not even compiled.",
  [AC, TC, WR, CB, RD], [("per-target sections for the state page, the time types and the clock", AC), ("clockgettime per target", TC)],
  ["return values and out-parameters of all public operations"])

p("P02", "Formulas and monitors behave the same on every target",
  "On every target (RISC-V, 32-bit ARM, hardware synthesis for formulas; RISC-V and ARM with an operating system for monitors), whose times may be unsigned and narrower, formulas and duration terms have the values their semantics gives, in particular close to time 0 where a bound reaches further back than the clock, and tasks and monitors start, keep their release times, report their state, survive spurious wake-ups and end as on x86_64, with the target's defaults for stack, policy and priority.",
  ["configurations", "inputs", "histories", "schedules"], "every target, formula, trace and time within the target's range; every history of monitor calls",
  "The tests never evaluate with unsigned times nor build the tasks of another operating system.",
  [TC, FO, TE, TK, PM], [("signedness and width of timespan/timeabs", TC), ("comparisons with t - b", FO), ("per-target task settings", TK)],
  ["verdicts and duration values", "job starts, states and ends of monitors"])

p("P03", "Concurrent use is safe in every interleaving on every target",
  "With the code selected for RISC-V (NuttX, RTEMS, FreeRTOS) and for 32-bit ARM, in every interleaving of the memory accesses of any number of writers and readers: concurrent pushes are atomic (nothing is lost, duplicated or mixed, statuses and positions are those of the pushes in some order), every push completes, destroying a writer changes nothing, the buffer's positions and length are always those of one moment, and readers receive whole events in order and are told what they lost, exactly as W02, W03, W04 and R04 say for x86_64.",
  ["schedules", "configurations"], "every interleaving of every program of writers and readers on these targets, each access taking effect at once",
  "The tests are only built for the machine they run on, and sample few schedules.",
  [AC, WR, CB, RD], [("page_t, update, YIELD of each target", AC), ("ATOMIC_PUSH, ATOMIC_TRIPLE, ATOMIC_PAGE_RELEASE", AC)], ["return values and out-parameters of all operations, the final contents"])

p("Z01", "Concurrent use is safe under the memory models of weakly ordered targets",
  "On weakly ordered targets (ARM, RISC-V) concurrent pushes, pulls and synchronizations have the same guarantees as on x86_64, whatever reorderings the memory model allows.",
  ["schedules", "configurations"], "every interleaving and every reordering the target's memory model allows",
  "Only x86_64 can be executed here, and the code says that these targets are not supported under concurrency yet.",
  [AC, TC, TK], [("per-platform macro sections", AC)], ["all public operations"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
