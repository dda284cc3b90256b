------------------------------- MODULE MCHyper --------------------------------
(* Self-composition of Tracker.tla: two populations that cannot be matched with *)
(* each other (too far apart, or of different labels) evolve in one tracker as  *)
(* each of them would alone; renaming the labels or the objects renames the     *)
(* result; idle updates before the first detection change nothing. After is set *)
(* valued (every tie is resolved in every way), and the sets are equal.         *)
EXTENDS Tracker
CONSTANTS Hmax, Delay, Rmax, Reid, Pers, Vals, Far, MaxDet, MaxObj, MaxFrame, ByLabel
VARIABLES s1, s2, frame, ok
vars == <<s1, s2, frame, ok>>
Rmax_1 == <<1>>
Rmax_None == <<>>
cfg == [hmax |-> Hmax, delay |-> Delay, pmax |-> 2, npast |-> 1, rmax |-> Rmax, reid |-> Reid, T |-> 5, RT |-> 5, dthr |-> 0, gain |-> 0]
Init == s1 = [x \in {} |-> 0] /\ s2 = [x \in {} |-> 0] /\ frame = 0 /\ ok = TRUE

Join(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
Lab(g) == IF ByLabel THEN g ELSE 1
Dets(g, n) == [u \in {10 * frame + 5 * (g - 1) + i : i \in 1..n} |->
                 [u |-> u, lab |-> Lab(g), sc |-> <<>>, abs |-> <<<<u>>>>]]
Live1(S) == {k \in DOMAIN S : Keep(cfg, S[k]) /\ Alive(S[k])}
Kept1(S) == KeptKeys(cfg, S)
InitsOf(S) == InitKeys(cfg, S)
OldsOf(S) == Kept1(S) \ InitsOf(S)
(* between the populations: anything if the labels differ, else too far        *)
Cross(A, B, v) == [p \in A \X B |-> v]
Swap(o) == [o EXCEPT !.lab = 3 - @]
Rename(S) == [k \in DOMAIN S |-> Swap(S[k])]
Up(S) == [k \in {x + 1000 : x \in DOMAIN S} |-> S[k - 1000]]
UpD(D) == [p \in {<<q[1] + 1000, q[2] + 1000>> : q \in DOMAIN D} |-> D[<<p[1] - 1000, p[2] - 1000>>]]

Next ==
  /\ frame < MaxFrame
  /\ \E n1 \in 0..MaxDet, n2 \in 0..MaxDet, per \in Pers, far \in Far :
     \E d1 \in {Dets(1, n1)}, d2 \in {Dets(2, n2)} :
     \E D1 \in [(DOMAIN d1) \X Live1(s1) -> Vals], D2 \in [(DOMAIN d2) \X Live1(s2) -> Vals] :
     \E R1 \in (IF Reid THEN [InitsOf(s1) \X OldsOf(s1) -> Vals] ELSE {[x \in {} |-> 0]}),
        R2 \in (IF Reid THEN [InitsOf(s2) \X OldsOf(s2) -> Vals] ELSE {[x \in {} |-> 0]}) :
     LET D == Join(Join(D1, D2), Join(Cross(DOMAIN d1, Live1(s2), far), Cross(DOMAIN d2, Live1(s1), far)))
         R == Join(Join(R1, R2), Join(Cross(InitsOf(s1), OldsOf(s2), far), Cross(InitsOf(s2), OldsOf(s1), far)))
         A1 == TLCEval(After(cfg, s1, d1, per, NONE, D1, R1))
         A2 == TLCEval(After(cfg, s2, d2, per, NONE, D2, R2))
         mixed == TLCEval(After(cfg, Join(s1, s2), Join(d1, d2), per, NONE, D, R))
     IN /\ ok' = /\ mixed = {Join(a, b) : a \in A1, b \in A2}
                 /\ After(cfg, Rename(s1), Rename(d1), per, NONE, D1, R1) = {Rename(a) : a \in A1}
                 /\ {DOMAIN a : a \in After(cfg, Up(s1), Up(d1), per, NONE, UpD(D1), UpD(R1))} = {DOMAIN Up(a) : a \in A1}
                 /\ (frame = 0 /\ n1 = 0 => A1 = {s1})
        /\ \E a \in A1, b \in A2 : s1' = a /\ s2' = b
        /\ Cardinality(DOMAIN s1') <= MaxObj /\ Cardinality(DOMAIN s2') <= MaxObj
        /\ frame' = frame + 1
Spec == Init /\ [][Next]_vars
Independent == ok
(* the same bound as in the separate models: nothing is ever reported twice    *)
Disjoint == DOMAIN s1 \cap DOMAIN s2 = {}
===============================================================================
