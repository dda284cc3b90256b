-------------------------------- MODULE HelpTrace --------------------------------
(* Judges recorded tables and cut-outs.                                                  *)
EXTENDS Helpers, TraceBase
One(cl, b) == IF b THEN {cl} ELSE {}
HInit(tr) == 0
HStep(tr, st, ev) ==
  LET bad == IF ev.exc # "" THEN {ev.op \o ":exc:" \o ev.exc}
    ELSE One(ev.op \o ":mut", ~ev.same) \cup
      (CASE ev.op = "table" -> One("table:rows", Len(ev.got) # Len(ev.objs))
                            \cup (IF Len(ev.got) # Len(ev.objs) THEN {}
                                  ELSE One("table:cells", \E i \in DOMAIN ev.objs : ev.got[i] # TableRow(ev.objs[i])))
                            \cup One("repr", \E i \in DOMAIN ev.objs : ev.reprs[i] # Repr(ev.objs[i]))
        [] ev.op = "cut" -> One("cut:content", ev.got # Cutout(ev.img, ev.pts)))
  IN [st |-> 0, bad |-> bad, go |-> TRUE]
==================================================================================
