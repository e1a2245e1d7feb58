------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* How the thread of a task is made (task::create_task of task_compat.h):  *)
(* a sequence of settings of a thread attribute object, then the creation. *)
(* A setting can be refused: a policy that does not exist, a priority that *)
(* the policy set so far does not have.  A thread takes its scheduling from *)
(* the attributes only if they say so, else from its creator (POSIX; glibc *)
(* and the code leave that to the default, which is to inherit).           *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS DESIGN   \* "code"; "paramfirst": priority before policy; "detached"; "explicit": scheduling not inherited

Policies == {"OTHER", "FIFO", "RR"}
Prios(p) == IF p = "OTHER" THEN {0} ELSE {1, 2, 50, 99}
Decls == {<<p, x>> : p \in Policies, x \in {0, 1, 2, 50, 99}}
Valid == {d \in Decls : d[2] \in Prios(d[1])}
Steps == CASE DESIGN = "code"       -> <<"policy", "stack", "param", "create">>
           [] DESIGN = "paramfirst" -> <<"param", "policy", "stack", "create">>
           [] DESIGN = "detached"   -> <<"policy", "stack", "param", "detach", "create">>
           [] DESIGN = "explicit"   -> <<"policy", "stack", "param", "explicit", "create">>

VARIABLES decl, parent, i, attr, failed, thread
vars == <<decl, parent, i, attr, failed, thread>>
None == [made |-> FALSE]
TypeOK == decl \in Valid /\ parent \in Valid /\ i \in 1..Len(Steps) + 1 /\ attr.policy \in Policies
Init == /\ decl \in Valid /\ parent \in Valid /\ i = 1 /\ failed = FALSE /\ thread = None
        /\ attr = [policy |-> "OTHER", prio |-> 0, inherit |-> TRUE, joinable |-> TRUE]
Next == /\ i <= Len(Steps) /\ ~failed
        /\ i' = i + 1 /\ UNCHANGED <<decl, parent>>
        /\ LET s == Steps[i] IN
           CASE s = "policy"   -> attr' = [attr EXCEPT !.policy = decl[1]] /\ UNCHANGED <<failed, thread>>
             [] s = "param"    -> IF decl[2] \in Prios(attr.policy)
                                  THEN attr' = [attr EXCEPT !.prio = decl[2]] /\ UNCHANGED <<failed, thread>>
                                  ELSE failed' = TRUE /\ UNCHANGED <<attr, thread>>
             [] s = "stack"    -> UNCHANGED <<attr, failed, thread>>
             [] s = "detach"   -> attr' = [attr EXCEPT !.joinable = FALSE] /\ UNCHANGED <<failed, thread>>
             [] s = "explicit" -> attr' = [attr EXCEPT !.inherit = FALSE] /\ UNCHANGED <<failed, thread>>
             [] s = "create"   -> /\ thread' = [made |-> TRUE, asked |-> <<attr.policy, attr.prio>>, joinable |-> attr.joinable,
                                                runs |-> IF attr.inherit THEN parent ELSE <<attr.policy, attr.prio>>]
                                  /\ UNCHANGED <<attr, failed>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AsDeclared == thread.made => thread.asked = decl
Joinable == thread.made => thread.joinable
NeverRefused == ~failed
Made == <>(thread.made)
Effective == thread.made => thread.runs = decl      \* violated by "code": the known finding of M06
===============================================================================
