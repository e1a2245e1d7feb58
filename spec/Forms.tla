---- MODULE Forms ----
(* The formulas a check uses; every check generates its own module (this one is a stand-in). *)
FORMS == << <<"p1">> >>
====
