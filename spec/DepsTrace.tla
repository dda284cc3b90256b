------------------------------- MODULE DepsTrace --------------------------------
(* Judges recorded calls in a partial installation, each with what it came to       *)
(* (got), against what the full installation came to when given only the calls that *)
(* the specification says work (ref).                                               *)
EXTENDS Deps, TraceBase
One(cl, b) == IF b THEN {cl} ELSE {}
DInit(tr) == World({tr.inst[i] : i \in DOMAIN tr.inst})
DStep(tr, w, ev) ==
  LET o == Outcome(w, ev.op)
      named == {ev.extras[i] : i \in DOMAIN ev.extras}
  IN [st |-> Call(w, ev.op), go |-> (ev.out = "works") = o.works,
      bad |-> IF o.works THEN One("fails:" \o ev.op \o ":" \o ev.out, ev.out # "works")
                              \cup One("differs:" \o ev.op, ev.out = "works" /\ ev.got # ev.ref)
              ELSE One("silent:" \o ev.op, ev.out = "works")
                   \cup One("error:" \o ev.op \o ":" \o ev.out, ev.out \notin {"works", "ImportError", "ModuleNotFoundError"})
                   \cup One("unnamed:" \o ev.op, ev.out = "ImportError" /\ ~(o.extras \subseteq named))]
=================================================================================
