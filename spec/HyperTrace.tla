----------------------------- MODULE HyperTrace ------------------------------
(* Hyperproperties of the tracker, judged on two executions side by side:      *)
(*  - one tracker for everything, and one tracker per group of things that     *)
(*    cannot be matched with each other;                                       *)
(*  - the detections of every frame listed in another order;                   *)
(*  - labels renamed; idle updates before the first detection;                 *)
(*  - coordinates moved, scaled by a power of two, axes exchanged.             *)
(* Objects correspond when the same detection started them (field k). Their    *)
(* identities and labels may differ, but only by renaming: the relation seen   *)
(* so far (the state) must be one-to-one, and, where tr.mono, ids of one group *)
(* keep their order. Side a maps to side b by est -> tr.s * est + tr.sh, with  *)
(* the first two axes exchanged if tr.swap; numbers in 1/1000.                 *)
EXTENDS TraceBase, FiniteSets
None == [id |-> {}, gid |-> {}, iid |-> {}, lab |-> {}]
HyperInit(tr) == None
Or(c, s) == IF c THEN {s} ELSE {}
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
OneToOne(m) == \A p \in m : \A q \in m : (p[1] = q[1]) <=> (p[2] = q[2])
Ordered(m) == \A p \in m : \A q \in m : (p[1][1] = q[1][1] /\ p[1][2] < q[1][2]) => p[2] < q[2]
Src(tr, i) == LET j == ((i - 1) % tr.dim) + 1  b == i - j
              IN IF tr.swap /\ j <= 2 THEN b + (3 - j) ELSE i
Mapped(tr, x, y, sh, tol) ==
  Len(x) = Len(y) /\ \A i \in 1..Len(x) :
     Near(tr.s * x[Src(tr, i)] + (IF sh THEN tr.sh[((i - 1) % tr.dim) + 1] ELSE 0), y[i], tol * tr.s)
Pairs(f(_), x, y) == IF f(x) = <<>> \/ f(y) = <<>> THEN {} ELSE {<<<<x.g, f(x)[1]>>, f(y)[1]>>}

HyperStep(tr, st, ev) ==
  LET A == ev.a  B == ev.b
      KA == {A[i].k : i \in 1..Len(A)}  KB == {B[i].k : i \in 1..Len(B)}
      sound == Cardinality(KA) = Len(A) /\ Cardinality(KB) = Len(B)
      at(S, k) == S[CHOOSE i \in 1..Len(S) : S[i].k = k]
      both == {<<at(A, k), at(B, k)>> : k \in KA \cap KB}
      new == TLCEval([id  |-> st.id \cup UNION {Pairs(LAMBDA o : o.id, p[1], p[2]) : p \in both},
              gid |-> st.gid \cup UNION {Pairs(LAMBDA o : o.gid, p[1], p[2]) : p \in both},
              iid |-> st.iid \cup UNION {Pairs(LAMBDA o : o.iid, p[1], p[2]) : p \in both},
              lab |-> st.lab \cup {<<p[1].lab, p[2].lab>> : p \in both}])
      cmp(p) == LET x == p[1] y == p[2] IN
         Or(Len(x.id) # Len(y.id), "hyper:confirmed") \cup Or(x.ini # y.ini, "hyper:ini")
         \cup Or(x.hit # y.hit, "hyper:hit") \cup Or(x.reid # y.reid, "hyper:reid")
         \cup Or(x.age # y.age, "hyper:age") \cup Or(x.live # y.live, "hyper:live")
         \cup Or(x.last # y.last, "hyper:last") \cup Or(x.past # y.past, "hyper:past")
         \cup Or(Len(x.ld) # Len(y.ld) \/ \E i \in 1..Len(x.ld) : ~Near(tr.ls * x.ld[i], y.ld[i], tr.tol * tr.ls), "hyper:distance")
         \cup Or(~Mapped(tr, x.est, y.est, TRUE, tr.tol), "hyper:est")
         \cup Or(~Mapped(tr, x.abs, y.abs, TRUE, tr.tol), "hyper:abs")
         \cup Or(~Mapped(tr, x.vel, y.vel, FALSE, tr.tol), "hyper:vel")
      bad == IF ev.exc # "" THEN {"exc:" \o ev.exc}
             ELSE IF ~sound THEN {"hyper:twice"}
             ELSE IF KA # KB THEN {"hyper:objects"}
             ELSE UNION {cmp(p) : p \in both}
                  \cup Or({ev.ra[i] : i \in DOMAIN ev.ra} # {ev.rb[i] : i \in DOMAIN ev.rb} \/ Len(ev.ra) # Len(ev.rb), "hyper:returned")
                  \cup Or(~OneToOne(new.id), "hyper:id") \cup Or(~OneToOne(new.gid), "hyper:gid")
                  \cup Or(~OneToOne(new.iid), "hyper:iid") \cup Or(~OneToOne(new.lab), "hyper:label")
                  \cup Or(tr.mono /\ ~(Ordered(new.id) /\ Ordered(new.iid)), "hyper:order")
                  \cup Or(ev.na # ev.nb, "hyper:total")
  IN [st |-> new, bad |-> bad, go |-> bad = {}]
=============================================================================
