------------------------------ MODULE FilterTrace -------------------------------
(* Judges the estimates and velocities of the objects of a real tracker, and of  *)
(* filters driven directly, against Filter.tla.  A trace carries the parameters  *)
(* f and d (coordinates per point); an event lists the objects:                  *)
(*   k key, born, z <<>> or << flat measurement >>, tr trusted flag per point,   *)
(*   src key of the object whose filter it carries from now on,                  *)
(*   x, v observed position and velocity (absolute, fixed point)                 *)
EXTENDS Filter, TraceBase
LOCAL INSTANCE FiniteSets

AbsF(a) == IF a < 0 THEN -a ELSE a
Near(a, b, tol) == AbsF(a - b) <= tol

FInit(tr) == [k \in {} |-> 0]

One(cl, b) == IF b THEN {cl} ELSE {}

\* measurement noise given with this update instead of the factory's
Noise(f, o) == IF "r" \in DOMAIN o /\ o.r # <<>> THEN [f EXCEPT !.r = o.r[1]] ELSE f

\* rounding of the specification adds up over long lives
Slack(f) == IF "slack" \in DOMAIN f THEN f.slack ELSE 1

FStep(tr, st, ev) ==
  LET f == tr.f
      O == TLCEval([k \in {ev.obs[i].k : i \in 1..Len(ev.obs)} |->
             ev.obs[CHOOSE i \in 1..Len(ev.obs) : ev.obs[i].k = k]])
      n(o) == Len(o.x)
      pt(i) == ((i - 1) \div tr.d) + 1
      E == TLCEval([k \in DOMAIN O |->
            LET o == O[k] IN
            IF o.born
            THEN [q |-> [i \in 1..n(o) |-> Start(f, o.z[1][i])],
                  seen |-> o.tr,
                  pre |-> o.z[1], err |-> [i \in 1..n(o) |-> 0], m |-> [i \in 1..n(o) |-> FALSE],
                  was |-> [i \in 1..n(o) |-> FALSE]]
            ELSE LET s == st[o.src]
                     pr == TLCEval([i \in 1..n(o) |-> IF ev.pred /\ ~o.idle THEN Predict(f, s.q[i]) ELSE s.q[i]])
                 IN IF o.z = <<>>
                    THEN [q |-> pr, seen |-> s.seen, pre |-> [i \in 1..n(o) |-> pr[i].x],
                          err |-> [i \in 1..n(o) |-> 0], m |-> [i \in 1..n(o) |-> FALSE],
                          was |-> [i \in 1..n(o) |-> TRUE]]
                    ELSE [q |-> TLCEval([i \in 1..n(o) |->
                                  Hit(Noise(f, o), pr[i], o.z[1][i], o.tr[pt(i)], s.seen[pt(i)])]),
                          seen |-> [j \in DOMAIN s.seen |-> s.seen[j] \/ o.tr[j]],
                          pre |-> [i \in 1..n(o) |-> pr[i].x],
                          err |-> [i \in 1..n(o) |-> IF o.tr[pt(i)] THEN o.z[1][i] - pr[i].x ELSE 0],
                          m |-> [i \in 1..n(o) |-> o.tr[pt(i)]],
                          was |-> [i \in 1..n(o) |-> s.seen[pt(i)]]]])
      ctx(o, i) == IF o.born THEN "start"
                   ELSE IF o.z = <<>> THEN "predict"
                   ELSE IF ~O[o.k].tr[pt(i)]
                        THEN (IF E[o.k].was[i] THEN "untrusted" ELSE "unseen")
                   ELSE IF ~E[o.k].was[i] THEN "first"
                   ELSE "correct"
      tol(o, i) == IF ctx(o, i) # "correct" THEN 3 ELSE Slack(f) * (16 + AbsF(E[o.k].err[i]) \div 200)
      Bad(o) == UNION { LET e == E[o.k].q[i]  pre == E[o.k].pre[i]  z == o.z[1][i] IN
           One("pos:" \o ctx(o, i), ~Near(o.x[i], e.x, tol(o, i)))
           \cup One("vel:" \o ctx(o, i), ~Near(o.v[i], e.v, tol(o, i)))
           \cup (IF ctx(o, i) = "correct"
                 THEN One("between", ~(\/ (pre - 3 <= o.x[i] /\ o.x[i] <= z + 3)
                                       \/ (z - 3 <= o.x[i] /\ o.x[i] <= pre + 3)))
                      \cup One("still", Near(z, pre, 0) /\ ~Near(o.x[i], pre, 3))
                 ELSE {})
           : i \in 1..n(o) }
      \* continue from what was observed, the covariances follow the specification
      st2 == [k \in DOMAIN O |->
                [q |-> [i \in 1..n(O[k]) |->
                          [E[k].q[i] EXCEPT !.x = O[k].x[i], !.v = O[k].v[i]]],
                 seen |-> E[k].seen]]
  IN IF ev.exc # "" THEN [st |-> st, bad |-> {"exc:" \o ev.exc}, go |-> FALSE]
     ELSE IF \E k \in DOMAIN O : ~O[k].born /\ O[k].src \notin DOMAIN st
     THEN [st |-> st, bad |-> {"unknown"}, go |-> FALSE]
     ELSE IF \E k \in DOMAIN O : ~O[k].born /\ Len(O[k].x) # Len(st[O[k].src].q)
     THEN [st |-> st, bad |-> {"shape"}, go |-> FALSE]
     ELSE [st |-> TLCEval(st2), bad |-> TLCEval(UNION {Bad(O[k]) : k \in DOMAIN O}), go |-> TRUE]
=================================================================================
