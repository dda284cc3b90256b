------------------------------- MODULE DistTrace --------------------------------
(* Judges recorded distance computations.                                        *)
(*  op "matrix": c candidates, o objects (lab, p points, sc scores), m metric,    *)
(*    rows, cols shape of the result, out the entries (BIG is infinite)           *)
(*  op "call": one call of a distance function                                    *)
(*  op "name": lookup of a distance name, ok whether it is known                  *)
EXTENDS Distances, TraceBase
DInit(tr) == 0
One(cl, b) == IF b THEN {cl} ELSE {}
Par(ev, a, b) == [ca |-> a.sc, cb |-> b.sc] @@ ev.par
Pair(ev, a, b, v) ==
  LET q == Par(ev, a, b)  e == Value(ev.m, a.p, b.p, q)
  IN One("value:" \o ev.m, ~Near(v, e, Tol(ev.m, a.p, b.p, q)))
     \cup (IF ev.m \in {"iou", "iou_opt"} /\ e # UNDEF
           THEN One("iou:range", v < 0 \/ v > U) \cup One("iou:disjoint", Inter(a.p, b.p) = 0 /\ v # U)
           ELSE {})
     \cup One("zero:" \o ev.m, a.p = b.p /\ e # UNDEF /\ ev.m \in
           {"frobenius", "mean_euclidean", "mean_manhattan", "iou", "normalized"} /\ v # 0)
DStep(tr, st, ev) ==
  LET bad ==
    IF ev.exc # "" THEN {"exc:" \o ev.exc}
    ELSE IF ev.op = "matrix" THEN
      IF ev.rows # Len(ev.c) \/ ev.cols # Len(ev.o) THEN {"shape"}
      ELSE UNION {UNION {
        LET a == ev.c[i] b == ev.o[j] v == ev.out[i][j] IN
        IF a.lab # b.lab THEN One("label:mixed", v # BIG)
        ELSE One("label:same", v = BIG /\ Value(ev.m, a.p, b.p, Par(ev, a, b)) # UNDEF)
             \cup (IF v = BIG THEN {} ELSE Pair(ev, a, b, v))
        : j \in DOMAIN ev.o} : i \in DOMAIN ev.c}
    ELSE IF ev.op = "call" THEN Pair(ev, ev.a, ev.b, ev.out)
    ELSE One("name:" \o ev.m, ev.got # ev.want)
  IN [st |-> 0, bad |-> TLCEval(bad), go |-> TRUE]
=================================================================================
