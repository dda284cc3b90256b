------------------------------ MODULE TwinTrace ------------------------------
(* Self-composition: two executions of the real tracker that the specification *)
(* requires to be indistinguishable (same inputs in different surroundings,    *)
(* different untrusted coordinates, moving and static camera) are recorded side*)
(* by side; every observation of one must equal that of the other.             *)
(* Numbers called est, abs are in 1/1000 and compared with tolerance tr.tol;   *)
(* cam (events of moving cameras): the displacement of the second camera.      *)
(* exact (only if tr.exact) is the full text of the estimate and velocity.     *)
EXTENDS TraceBase, FiniteSets

TwinInit(tr) == 0
Or(c, s) == IF c THEN {s} ELSE {}
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
NearSeq(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Near(x[i], y[i], tol)

(* where a camera displaced by cam sees the coordinates e *)
Seen(e, cam) == [i \in 1..Len(e) |-> e[i] + cam[((i - 1) % Len(cam)) + 1]]

TwinStep(tr, st, ev) ==
  LET A == ev.a  B == ev.b
      bad == IF ev.exc # "" THEN {"exc:" \o ev.exc}
             ELSE IF Len(A) # Len(B) THEN {"twin:count"}
             ELSE UNION { LET x == A[i] y == B[i] IN
                    Or(x.iid # y.iid, "twin:iid") \cup Or(x.id # y.id, "twin:id")
                    \cup Or(x.lab # y.lab, "twin:lab")
                    \cup Or(x.ini # y.ini, "twin:ini") \cup Or(x.hit # y.hit, "twin:hit")
                    \cup Or(x.reid # y.reid, "twin:reid") \cup Or(x.age # y.age, "twin:age")
                    \cup Or(x.live # y.live, "twin:live") \cup Or(x.last # y.last, "twin:last")
                    \cup Or(x.past # y.past, "twin:past")
                    \cup Or(Len(x.ld) # Len(y.ld) \/ ~NearSeq(x.ld, y.ld, tr.tol), "twin:ld")
                    \cup Or(tr.cmpest /\ ~NearSeq(x.est, y.est, tr.tol), "twin:est")
                    \cup Or("cam" \in DOMAIN ev /\ ~NearSeq(Seen(x.est, ev.cam), y.est, tr.tol), "twin:seen")
                    \cup Or(~NearSeq(x.abs, y.abs, tr.tol), "twin:abs")
                    \cup Or(~NearSeq(x.vel, y.vel, tr.tol), "twin:vel")
                    \cup Or(tr.exact /\ x.exact # y.exact, "twin:exact")
                  : i \in 1..Len(A)}
             \cup Or(ev.ra # ev.rb, "twin:ret")
  IN [st |-> 0, bad |-> bad, go |-> bad = {}]
=============================================================================
