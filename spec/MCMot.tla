---------------------------------- MODULE MCMot -----------------------------------
(* Every small history of predictions against ground truth on three places, and what  *)
(* is written to files on the way.                                                    *)
EXTENDS Mot
CONSTANTS Frames, Truths, Ids
VARIABLES gss, pss, p
vars == <<gss, pss, p>>
Box(id, c) == [id |-> id, l |-> 100 * c, t |-> 0, w |-> 40, h |-> 40]
Objs(m) == LET D == {c \in DOMAIN m : m[c] # 0}  k == Cardinality(D)
           IN [i \in 1..k |-> LET c == CHOOSE c \in D : Cardinality({d \in D : d < c}) = i - 1 IN Box(m[c], c)]
Init == gss = <<>> /\ pss = <<>> /\ p = PNew
\* truths stand in their own place; a prediction may be anywhere, ids once per frame
Next == /\ Len(gss) < Frames
        /\ \E t \in [1..Truths -> BOOLEAN] : gss' = Append(gss, Objs([c \in 1..Truths |-> IF t[c] THEN c ELSE 0]))
        /\ \E m \in [1..Truths+1 -> 0..Ids] :
             /\ \A a, b \in 1..Truths+1 : (m[a] = m[b] /\ m[a] # 0) => a = b
             /\ pss' = Append(pss, Objs(m))
             /\ p' = PUpdate(p, <<>>, [i \in DOMAIN Objs(m) |-> <<Objs(m)[i].id, Objs(m)[i].l, 0, Objs(m)[i].l + 40, 40>>], Frames)
Spec == Init /\ [][Next]_vars
E == Evaluate(ENew, gss, pss, 1)
Bounded == /\ E.miss <= E.truths /\ E.false <= E.preds /\ E.switch <= E.truths - E.miss
           /\ E.truths - E.miss = E.preds - E.false
Perfect == Evaluate(ENew, gss, gss, 1) = [E EXCEPT !.last = Evaluate(ENew, gss, gss, 1).last, !.cov = Evaluate(ENew, gss, gss, 1).cov, !.preds = E.truths,
                                             !.miss = 0, !.false = 0, !.switch = 0]
Renamed == [f \in DOMAIN pss |-> [i \in DOMAIN pss[f] |-> [pss[f][i] EXCEPT !.id = 100 - 7 * @]]]
NamesDoNotMatter == LET a == E  b == Evaluate(ENew, gss, Renamed, 1) IN [a EXCEPT !.last = 0] = [b EXCEPT !.last = 0]
FatesAddUp == LET f == Fates(E) IN
  /\ f[2] + f[3] + f[4] = f[1] /\ f[5] <= E.miss
  /\ (Fates(Evaluate(ENew, gss, gss, 1)) = <<f[1], f[1], 0, 0, 0>>)
  /\ (E.miss = E.truths => f[4] = f[1]) /\ (f[4] = f[1] => E.truths >= 5 * (E.truths - E.miss))
  /\ Total([g \in DOMAIN E.cov |-> Covered(E.cov[g])], DOMAIN E.cov) = E.truths - E.miss
  /\ Total([g \in DOMAIN E.cov |-> Len(E.cov[g])], DOMAIN E.cov) = E.truths
Closed == p.closed <=> Len(gss) >= Frames
RoundTrip == \A f \in DOMAIN pss :
  LET rows == [i \in DOMAIN p.rows |-> <<p.rows[i][1], p.rows[i][3], p.rows[i][4], p.rows[i][5], p.rows[i][6], -1>>]
  IN SameBag([i \in DOMAIN DetectionsOf(rows, f) |-> SubSeq(DetectionsOf(rows, f)[i], 1, 4)],
             [i \in DOMAIN pss[f] |-> <<pss[f][i].l, 0, pss[f][i].l + 40, 40>>])
=================================================================================
