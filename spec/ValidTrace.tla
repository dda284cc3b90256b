------------------------------- MODULE ValidTrace --------------------------------
(* Judges recorded constructions and updates.                                           *)
EXTENDS Validate, TraceBase
One(cl, b) == IF b THEN {cl} ELSE {}
QInit(tr) == 0
Outcome(what, ok, ev) == One(what \o ":accepted", ev.exc = "" /\ ~ok) \cup One(what \o ":rejected", ev.exc # "" /\ ok)
                         \cup One(what \o ":error", ev.exc # "" /\ ~ok /\ ev.exc # "ValueError")
QStep(tr, st, ev) ==
  LET bad ==
    CASE ev.op = "cfg" -> Outcome("tracker", CfgValid(ev.c), ev)
                          \cup One("delay", ev.exc = "" /\ CfgValid(ev.c) /\ ev.first # FirstReport(ev.c))
      [] ev.op = "pts" -> One("points:accepted", ev.exc = "" /\ ~PtsValid(ev.shape)) \cup One("points:rejected", ev.exc # "" /\ PtsValid(ev.shape))
                          \cup One("points:shape", ev.exc = "" /\ PtsValid(ev.shape) /\ ev.got # PtsShape(ev.shape))
      [] ev.op = "upd" -> Outcome("update", UpdValid(ev), ev)
  IN [st |-> 0, bad |-> bad, go |-> TRUE]
==================================================================================
