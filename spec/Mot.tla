---------------------------------- MODULE Mot -----------------------------------
(* MOTChallenge files and the CLEAR MOT errors of tracks.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

(* detection files: rows <<frame, left, top, width, height, confidence>> *)
AsDetection(row) == <<row[2], row[3], row[2] + row[4], row[3] + row[5], row[6], row[6]>>
DetectionsOf(rows, f) == Concat([i \in DOMAIN rows |-> IF rows[i][1] = f THEN <<AsDetection(rows[i])>> ELSE <<>>])

(* prediction files: a call updates with objects <<id, x0, y0, x1, y1>> *)
PNew == [frame |-> 1, rows |-> <<>>, closed |-> FALSE]
AsRow(f, o) == <<f, o[1], o[2], o[3], o[4] - o[2], o[5] - o[3]>>
PUpdate(p, given, objs, n) ==
  LET f == IF given = <<>> THEN p.frame ELSE given[1]
  IN [frame |-> p.frame + 1, rows |-> p.rows \o [i \in DOMAIN objs |-> AsRow(f, objs[i])],
      closed |-> p.frame + 1 > n]

(* information files: lines <<name, value>>, values numbers or text *)
InfoOf(lines, name) ==
  LET s == {i \in DOMAIN lines : lines[i].name = name}
  IN IF s = {} THEN <<>> ELSE <<lines[CHOOSE i \in s : \A j \in s : i <= j].value>>

---------------------------------------------------------------------------------
(* evaluation: boxes [id, l, t, w, h] of a frame; truths are too far apart to share a prediction *)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Overlap(a, b) ==
  LET x == Min2(a.l + a.w, b.l + b.w) - Max2(a.l, b.l)  y == Min2(a.t + a.h, b.t + b.h) - Max2(a.t, b.t)
  IN IF x > 0 /\ y > 0 THEN x * y ELSE 0
\* intersection over union of at least one half
Hit(a, b) == LET o == Overlap(a, b) IN 3 * o >= a.w * a.h + b.w * b.h
\* errors so far, and for every truth whether it was covered in each of its frames
ENew == [last |-> <<>>, cov |-> <<>>, truths |-> 0, preds |-> 0, miss |-> 0, false |-> 0, switch |-> 0]
\* p covers g better than q does
Better(g, p, q) == LET o == Overlap(g, p)  u == Overlap(g, q)
                   IN o * (g.w * g.h + q.w * q.h - u) > u * (g.w * g.h + p.w * p.h - o)
\* which prediction (0 none) a truth has in a frame: the one it had last, if that still covers it, else the best
PredOf(g, ps, last) ==
  LET s == {i \in DOMAIN ps : Hit(g, ps[i])}
      same == {i \in s : g.id \in DOMAIN last /\ last[g.id] = ps[i].id}
  IN IF s = {} THEN 0 ELSE IF same # {} THEN CHOOSE i \in same : TRUE
     ELSE CHOOSE i \in s : \A j \in s : ~Better(g, ps[j], ps[i])
\* two predictions of the frame cover a truth equally well
Unclear(gs, ps) == \E g \in Range(gs) : LET s == {i \in DOMAIN ps : Hit(g, ps[i])}
                                        IN \E i, j \in s : i # j /\ ~Better(g, ps[i], ps[j]) /\ ~Better(g, ps[j], ps[i])
EFrame(e, gs, ps) ==
  LET m == TLCEval([i \in DOMAIN gs |-> PredOf(gs[i], ps, e.last)])
      hit == {i \in DOMAIN gs : m[i] # 0}
      sw == {i \in hit : gs[i].id \in DOMAIN e.last /\ e.last[gs[i].id] # ps[m[i]].id}
      now == [g \in {gs[i].id : i \in hit} |-> ps[m[CHOOSE i \in hit : gs[i].id = g]].id]
      was(g) == IF g \in DOMAIN e.cov THEN e.cov[g] ELSE <<>>
      seen == [g \in {gs[i].id : i \in DOMAIN gs} |-> Append(was(g), g \in DOMAIN now)]
  IN [last |-> now @@ e.last, cov |-> seen @@ e.cov, truths |-> e.truths + Len(gs), preds |-> e.preds + Len(ps),
      miss |-> e.miss + Len(gs) - Cardinality(hit),
      false |-> e.false + Len(ps) - Cardinality({m[i] : i \in hit}), switch |-> e.switch + Cardinality(sw)]
RECURSIVE Evaluate(_, _, _, _)
Evaluate(e, gss, pss, f) ==
  IF f > Len(gss) THEN e ELSE Evaluate(TLCEval(EFrame(e, gss[f], pss[f])), gss, pss, f + 1)
Errors(e) == e.miss + e.false + e.switch
\* accuracy, in millionths, times the number of truths
Millions(e) == (e.truths - Errors(e)) * 1000000
Sum(es) == LET RECURSIVE S(_, _)
               S(k, i) == IF i > Len(es) THEN 0 ELSE (CASE k = 1 -> es[i].truths [] k = 2 -> es[i].miss [] k = 3 -> es[i].false
                                                       [] k = 4 -> es[i].switch [] k = 5 -> es[i].preds) + S(k, i + 1)
           IN [last |-> <<>>, cov |-> <<>>, truths |-> S(1, 1), miss |-> S(2, 1), false |-> S(3, 1), switch |-> S(4, 1), preds |-> S(5, 1)]
One(cl, b) == IF b THEN {cl} ELSE {}
(* how the truths fared: followed through at least 4/5 of their frames, less than 1/5, or between; interruptions *)
Covered(c) == Cardinality({i \in DOMAIN c : c[i]})
Breaks(c) == Cardinality({i \in DOMAIN c : i > 1 /\ ~c[i] /\ c[i - 1] /\ \E j \in DOMAIN c : j > i /\ c[j]})
RECURSIVE Total(_, _)
Total(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + Total(f, D \ {x})
Fates(e) ==
  LET c == e.cov  D == DOMAIN c
      well == {g \in D : 5 * Covered(c[g]) >= 4 * Len(c[g])}
      lost == {g \in D : 5 * Covered(c[g]) < Len(c[g])}
  IN << Cardinality(D), Cardinality(well), Cardinality(D) - Cardinality(well) - Cardinality(lost), Cardinality(lost),
        Total([g \in D |-> Breaks(c[g])], D) >>
Fate(es) == [k \in 1..5 |-> Total([i \in DOMAIN es |-> Fates(es[i])[k]], DOMAIN es)]
FateBad(es, s) == LET f == Fate(es) IN
  UNION {One("score:" \o <<"unique", "tracked", "partly", "lost", "fragments">>[k], s.fates # <<>> /\ s.fates[k] # f[k]) : k \in 1..5}
\* the table that is printed and saved: false positives, misses, switches and fates
TextBad(es, s) == LET e == Sum(es) IN One("score:text", s.text # <<>> /\ s.text # << e.false, e.miss, e.switch >> \o Fate(es))
(* what is wrong with the scores s, given the errors e *)
ScoreBad(name, e, s) ==
  One("score:misses", s.miss # e.miss) \cup One("score:false", s.false # e.false)
  \cup One("score:switches", s.switch # e.switch) \cup One("score:truths", s.truths # e.truths)
  \cup (IF e.truths = 0 THEN {} ELSE
        LET d == s.mota * e.truths - Millions(e) IN One("score:accuracy", d > e.truths \/ d < 0 - e.truths))
  \cup One("score:perfect", e.truths > 0 /\ Errors(e) = 0 /\ (s.mota # 1000000 \/ s.idf1 # 1000000))
=================================================================================
