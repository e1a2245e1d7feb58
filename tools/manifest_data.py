SEQ = ('TLA+ specification, checked with TLC; recorded executions of the real code (exhaustive to a depth, plus random walks) '
       'replayed against the specification by TLC')
SEQ_NOTE = ('Every operation sequence of the stated alphabets up to the stated depth, on capacities 1-5, plus long random walks up to '
            'capacity 300 and selected histories up to capacity 70000, executed on the real code and accepted step by step by the specification; the specification itself is '
            'model-checked on small capacities in histories of any length. Assumes the sampled capacities and payload types represent the others (the code is a '
            'template) and trusts TLC and the driver.')
CONC = ('TLA+ specification, checked with TLC; histories of the real code under systematically explored schedules '
        'checked for linearizability against the specification by TLC')
CONC_NOTE = ('Small concurrent programs run on the real code under a deterministic scheduler (all schedules up to two preemptions '
             'within a budget, single and paired suspensions at every point, plus random and priority schedules); every distinct history is accepted by the specification. '
             'Interleavings are sequentially consistent; programs, capacities (1-7) and budgets are bounded.')
TAB = 'TLA+ specification; tables of applications of the real code evaluated against it by TLC'
TAB_NOTE = ('All combinations of verdicts, boundary values of times and durations, nested connectives and random histories of event '
            'objects; each recorded result is compared by TLC with the specification. Assumes the sampled 64-bit values represent the others.')
CLAIMED = {}
for p in 'B01 B02 B03 W01 W04 R01 R02 R03 T01 T02'.split():
    CLAIMED[p] = (SEQ, SEQ_NOTE)
for p in 'W02 W03 R04'.split():
    CLAIMED[p] = (CONC, CONC_NOTE)
for p in 'E01 E02 L01'.split():
    CLAIMED[p] = (TAB, TAB_NOTE)
FORM = ('TLA+ specification of the operators, checked with TLC; recorded evaluations of the real operators compared with it by TLC')
FORM_NOTE = ('Windows of up to 5 events from small alphabets (exhaustive, sampled in the quick tier) and random longer ones, fixed and '
             'random operator nestings, in several capacities, rotations, payload types, time scales and origins, evaluated by the real '
             'templates; TLC compares every result with the specification, which is itself model-checked. Assumes strictly '
             'increasing event times and that the sampled nestings and windows represent the others.')
for p in 'L02 L03 L04 L05 L06 L07 L08'.split():
    CLAIMED[p] = (FORM, FORM_NOTE)
MON = ('TLA+ specification of the task life cycle, checked with TLC (safety and liveness); histories of the real monitor thread under '
       'virtual time, explored schedules and injected wake-ups accepted by the specification with TLC')
MON_NOTE = ('Scripts of controller calls (periods from 20 us to 1000 s, start times around second boundaries, job durations with '
            'overruns, period changes, up to three monitors) run on the real classes under a deterministic scheduler and a virtual clock; '
            'schedules up to two preemptions within a budget plus random ones. Computation takes no virtual time; a thread may take 10 ms to '
            'notice that it is enabled.')
for p in 'M01 M02 M03 M04 M05 M06'.split():
    CLAIMED[p] = (MON, MON_NOTE)
E2E = ('TLA+ specification of writers, buffer, reader, formula and monitor together, checked with TLC; recorded end-to-end '
       'runs of the real monitor thread over a real buffer accepted by the specification with TLC')
CLAIMED['X01'] = (E2E, 'Runs of a periodic monitor evaluating real formulas over a real buffer that a real writer fills, under the '
                  'deterministic scheduler and virtual clock; every verdict must be the one the specification gives for a prefix of the '
                  'trace the writer had pushed. Bounded scripts; the in-between until is left out (known finding of L07).')
CLAIMED['D01'] = (SEQ, 'Histories with diagnosis calls anywhere, executed on builds with several settings of the switches (under address checking) '
                  'and accepted by the specification; also formulas, concurrent programs and monitors under those settings. Selected '
                  'combinations of the switches; level 3 needs payloads that can be printed.')
CLAIMED['P01'] = (SEQ, 'The code of the other targets is selected by their macros, compiled for this machine against stand-ins for their '
                  'headers, and executed; every history is accepted by the same specification as for x86_64. Code generated by the '
                  'targets\' compilers and their memory models are not exercised.')
CLAIMED['P02'] = (FORM + '; ' + MON, 'The code of the other targets, compiled for this machine against stand-ins for their headers: formulas on '
                  'random windows, monitors under the deterministic scheduler. Code generated by the targets\' compilers is not exercised.')
CLAIMED['P03'] = (CONC, 'The code of RISC-V and ARM, compiled for this machine against stand-ins for their headers, under the deterministic scheduler: '
                  'every history is accepted by the same specification as for x86_64, except that where an operation overlaps more than one '
                  'push the page may return to an earlier value (known finding: it has no counter there), which is not judged outside of '
                  'programs that cannot do that. Interleavings are sequentially consistent; programs and budgets are bounded.')
NOT_APPLICABLE = {
    'Z01': 'needs the memory models of ARM and RISC-V: no execution of theirs can be recorded here and bound to the specification '
           '(their interleavings are P03; the protocol alone is studied in spec/WeakMemory.tla, see DESIGN.md)',
}
NOTES = 'TLA+/TLC. See DESIGN.md.'
