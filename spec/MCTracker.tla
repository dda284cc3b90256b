------------------------------ MODULE MCTracker ------------------------------
(* Bounded, exhaustive design check of Tracker.tla and source of stimuli.     *)
(* One action per call of Tracker.update on one of NT trackers; everything a  *)
(* user or the detector chooses (detections, labels, scores, period, camera,  *)
(* distances) and every tie of the matching is a nondeterministic choice.     *)
(* Properties are written over ghost variables, not with the operators that   *)
(* define the transitions.                                                    *)
EXTENDS Tracker, TLC, Json
CONSTANTS NT,        \* number of trackers
          Hmaxs, Delays, Pmaxs, Npasts, Rmaxs, Reids, \* configurations explored
          Pers, Labels, ScorePats, DV, RV, T, RT,
          MaxDet, MaxObj, MaxFrame, NP, \* bounds
          Cams,      \* camera transformations ({} = none ever)
          EmitH      \* print every transition as a history
R_B == {<<>>, <<0>>, <<2>>}
R_None == {<<>>}
R_Reid == {<<>>, <<1>>}
S_None == {<<>>}
S_Two == {<<>>, <<0, 5>>, <<5, 0>>, <<0, 0>>}
Cam_Two == {<<1, <<2, 3>>>>}
Cam_Three == {<<1, <<2, 3>>>>, <<1, <<0, -5>>>>}
VARIABLES cfg, trk, gcnt, ids, gone, act, hist

vars == <<cfg, trk, gcnt, ids, gone, act, hist>>
EmptyF == [x \in {} |-> 0]
Undef == 99
CamSet == IF Cams = {} THEN {NONE} ELSE Cams \cup {NONE}

Cfgs == {c \in [hmax : Hmaxs, delay : Delays, pmax : Pmaxs, npast : Npasts, rmax : Rmaxs,
                reid : Reids, T : {T}, RT : {RT}, dthr : {0}, gain : {0}] : c.delay < c.hmax}

Init == /\ cfg \in Cfgs
        /\ trk = [t \in 1..NT |-> [objs |-> EmptyF, cnt |-> 0, frame |-> 0]]
        /\ gcnt = 0 /\ ids = {} /\ gone = {}
        /\ act = [t |-> 0] /\ hist = <<>>

(* ghosts of an object: hit counter when it was last touched (created,        *)
(* matched, merged), updates since, updates since each point was trusted      *)
Ghost(o) == [lh |-> o.hit, ms |-> 0, age |-> 0, tr |-> [i \in 1..NP |-> IF o.pc[i] > 0 THEN 0 ELSE 50]]

DetSeqs == UNION {[1..n -> [lab : Labels, sc : ScorePats]] : n \in 0..MaxDet}

(* The choices of one update, group by group.                                 *)
DChoice(t, ds) ==
  [(1..Len(ds)) \X (ConfKeys(cfg, trk[t].objs) \cup InitKeys(cfg, trk[t].objs)) -> DV]
M1Choice(t, ds, D) ==
  LET S == trk[t].objs
  IN GreedyAll(Eligible(1..Len(ds), ConfKeys(cfg, S), LAMBDA i, k : D[<<i, k>>], T,
                        LAMBDA i, k : ds[i].lab = S[k].lab), D)
M2Choice(t, ds, D, M1) ==
  LET S == trk[t].objs
  IN GreedyAll(Eligible((1..Len(ds)) \ {p[1] : p \in M1}, InitKeys(cfg, S),
                        LAMBDA i, k : D[<<i, k>>], T,
                        LAMBDA i, k : ds[i].lab = S[k].lab), D)
C3(M2) == {p[2] : p \in M2}
O3(t, M1) == (ConfKeys(cfg, trk[t].objs) \ {p[2] : p \in M1}) \cup DeadKeys(cfg, trk[t].objs)
RChoice(t, M1, M2) == IF cfg.reid THEN [C3(M2) \X O3(t, M1) -> RV] ELSE {EmptyF}
M3Choice(t, M1, M2, R) ==
  LET S == trk[t].objs
  IN IF cfg.reid
     THEN GreedyAll(Eligible(C3(M2), O3(t, M1), LAMBDA a, b : R[<<a, b>>], RT,
                             LAMBDA a, b : S[a].lab = S[b].lab), R)
     ELSE {{}}

Result(t, ds, per, cam, D, M1, M2, M3) ==
  LET me == trk[t]
      fr == me.frame + 1
      S == me.objs
      kept == KeptKeys(cfg, S)
      nd == Len(ds)
      dets == [i \in 1..nd |-> [u |-> (fr - 1) * 16 + i, lab |-> ds[i].lab, sc |-> ds[i].sc,
                                abs |-> [j \in 1..NP |-> <<fr, i>>]]]
      stepped == TLCEval([k \in kept |-> Step(cfg, S[k], cam)])
      rest2 == ((1..nd) \ {p[1] : p \in M1}) \ {p[1] : p \in M2}
      M12 == M1 \cup M2
      hit(k) == \E p \in M12 : p[2] = k
      det(k) == (CHOOSE p \in M12 : p[2] = k)[1]
      h == TLCEval([k \in kept |-> IF hit(k) THEN Hit(cfg, stepped[k], dets[det(k)], per, D[<<det(k), k>>])
                           ELSE stepped[k]])
      absd == {p[1] : p \in M3}
      into(k) == \E p \in M3 : p[2] = k
      src(k) == (CHOOSE p \in M3 : p[2] = k)[1]
      a == TLCEval([k \in kept \ absd |-> IF into(k) THEN Absorb(cfg, stepped[k], h[src(k)]) ELSE h[k]])
      bk == {dets[i].u : i \in rest2}
      bdet(k) == dets[CHOOSE i \in 1..nd : dets[i].u = k]
      b == TLCEval([k \in bk |-> Born(cfg, bdet(k), per, cam)])
      \* objects confirmed by this update, in the order the ids are handed out
      nc2 == {k \in kept : stepped[k].ini /\ ~h[k].ini}
      nc == TLCEval(SetToSeq(nc2) \o SetToSeq({k \in bk : ~b[k].ini}))
      num(k) == CHOOSE i \in 1..Len(nc) : nc[i] = k
      new(k) == \E i \in 1..Len(nc) : nc[i] = k
      withid(k, o) == IF new(k) THEN [o EXCEPT !.id = <<me.cnt + num(k)>>, !.gid = <<gcnt + num(k)>>] ELSE o
      gh(k, o) == IF k \in bk THEN Ghost(o)
                  ELSE LET g == S[k].gh
                           w == IF hit(k) \/ into(k) THEN [g EXCEPT !.lh = o.hit, !.ms = 0]
                                ELSE [g EXCEPT !.ms = @ + 1]
                           dd == IF hit(k) THEN dets[det(k)] ELSE IF into(k) THEN dets[det(src(k))] ELSE [sc |-> <<>>]
                       IN [w EXCEPT !.age = @ + 1,
                            !.tr = [i \in 1..NP |->
                               IF (hit(k) \/ into(k)) /\ (dd.sc = <<>> \/ dd.sc[i] > 0) THEN 0
                               ELSE IF into(k) THEN MinI(S[src(k)].gh.tr[i] + 1, 50)
                               ELSE MinI(@[i] + 1, 50)]]
      objs2 == TLCEval([k \in (kept \ absd) \cup bk |->
                  LET o == withid(k, IF k \in bk THEN b[k] ELSE a[k])
                  IN [o EXCEPT !.gh = gh(k, o)]])
  IN [objs |-> objs2, fr |-> fr, nc |-> nc, dets |-> dets,
      act |-> [t |-> t, nd |-> nd, per |-> per, M1 |-> M1, M2 |-> M2, M3 |-> M3, births |-> bk,
               us |-> {dets[i].u : i \in 1..nd}, cam |-> cam,
               lost |-> (DOMAIN S) \ kept,
               ret |-> {k \in DOMAIN objs2 : Reported(objs2[k])}]]

Update(t) ==
  \E ds \in DetSeqs, per \in Pers, cam \in CamSet :
  \E D \in DChoice(t, ds) :
  \E M1 \in M1Choice(t, ds, D) :
  \E M2 \in M2Choice(t, ds, D, M1) :
  \E R \in RChoice(t, M1, M2) :
  \E M3 \in M3Choice(t, M1, M2, R) :
  \E r \in {Result(t, ds, per, cam, D, M1, M2, M3)} :
     /\ Cardinality(DOMAIN r.objs) <= MaxObj
     /\ trk' = [trk EXCEPT ![t] = [objs |-> r.objs, cnt |-> @.cnt + Len(r.nc), frame |-> r.fr]]
     /\ gcnt' = gcnt + Len(r.nc)
     /\ ids' = ids \cup {<<t, r.nc[i], trk[t].cnt + i, gcnt + i>> : i \in 1..Len(r.nc)}
     /\ gone' = gone \cup {<<t, k>> : k \in DOMAIN trk[t].objs \ DOMAIN r.objs}
     /\ act' = r.act
     /\ hist' = IF EmitH THEN
                  Append(hist, [t |-> t - 1, per |-> per, mot |-> cam,
                    dets |-> r.dets,
                    D |-> SetToSeq({<<r.dets[p[1]].u, p[2], D[p]>> : p \in DOMAIN D}),
                    RD |-> IF cfg.reid THEN SetToSeq({<<p[1], p[2], R[p]>> : p \in DOMAIN R}) ELSE <<>>])
                ELSE hist
     /\ UNCHANGED cfg

Next == \E t \in 1..NT : trk[t].frame < MaxFrame /\ Update(t)
Spec == Init /\ [][Next]_vars

Emit == IF EmitH THEN PrintT("H|" \o ToJson([cfg |-> cfg, h |-> hist'])) ELSE TRUE
View == <<cfg, trk, gcnt, ids, gone, act>>

-----------------------------------------------------------------------------
Objs(t) == trk[t].objs
AllO == UNION {{<<t, k>> : k \in DOMAIN Objs(t)} : t \in 1..NT}
Obj(x) == Objs(x[1])[x[2]]

(* C01 *)
IdsUnique == /\ \A x, y \in ids : x # y => (x[4] # y[4] /\ (x[1] = y[1] => x[3] # y[3]))
             /\ \A x \in AllO : Obj(x).id # NONE =>
                  \E y \in ids : <<y[1], y[2]>> = x /\ Obj(x).id = <<y[3]>> /\ Obj(x).gid = <<y[4]>>
IdIffConfirmed == \A x \in AllO : (Obj(x).ini <=> Obj(x).id = NONE) /\ (Obj(x).id = NONE <=> Obj(x).gid = NONE)
CountIsIds == \A t \in 1..NT : {y[3] : y \in {z \in ids : z[1] = t}} = 1..trk[t].cnt
IdPermanent == [][\A x \in AllO : x[2] \in DOMAIN trk'[x[1]].objs =>
                    LET o == Obj(x) o2 == trk'[x[1]].objs[x[2]]
                    IN o.id # NONE => o2.id = o.id /\ o2.gid = o.gid]_vars
(* C02 *)
CounterLaw == \A x \in AllO : LET o == Obj(x) IN
    /\ o.hit = o.gh.lh - o.gh.ms
    /\ o.gh.lh <= Max({cfg.hmax, 2 * o.per0})
    /\ o.age = o.gh.age
ReportLaw == act.t # 0 => act.ret = {k \in DOMAIN Objs(act.t) : Objs(act.t)[k].id # NONE /\ Objs(act.t)[k].hit >= 0}
ConfirmLaw == [][\A x \in AllO : x[2] \in DOMAIN trk'[x[1]].objs =>
                   LET o == Obj(x) o2 == trk'[x[1]].objs[x[2]]
                   IN /\ (o.ini /\ ~o2.ini) => (o2.hit > cfg.delay \/ cfg.reid)
                      /\ ~o.ini => ~o2.ini
                      /\ (o2.ini => o2.hit <= cfg.delay)]_vars
(* C04 *)
OnePlace == act.t # 0 =>
    /\ act.M1 \cap act.M2 = {}
    /\ Cardinality(act.M1) + Cardinality(act.M2) + Cardinality(act.births) = act.nd
    /\ \A u \in act.us : Cardinality({k \in DOMAIN Objs(act.t) : Objs(act.t)[k].last = u}) = 1
(* C05 *)
LifeLaw == \A x \in AllO : LET o == Obj(x) IN
    IF cfg.rmax = NONE THEN o.gh.ms <= o.gh.lh + 1
    ELSE /\ (o.gh.ms <= MaxI(o.gh.lh, 0)) <=> o.reid = NONE
         /\ o.reid # NONE => o.reid[1] = cfg.rmax[1] - (o.gh.ms - MaxI(o.gh.lh, 0) - 1)
         /\ o.gh.ms <= MaxI(o.gh.lh, 0) + cfg.rmax[1] + 2
MatchedStay == [][act'.t # 0 =>
                   LET S2 == trk'[act'.t].objs
                   IN /\ \A p \in act'.M1 : p[2] \in DOMAIN S2 /\ S2[p[2]].hit >= 0
                      /\ \A p \in act'.M2 : p[2] \in DOMAIN S2 \/ \E q \in act'.M3 : q[1] = p[2]
                      /\ \A k \in DOMAIN Objs(act'.t) \ DOMAIN S2 :
                            k \in act'.lost \/ \E q \in act'.M3 : q[1] = k]_vars
GoneForever == \A x \in AllO : x \notin gone
(* C06 *)
MergeLaw == [][act'.t # 0 => \A q \in act'.M3 :
     LET S1 == Objs(act'.t) S2 == trk'[act'.t].objs
         old == S1[q[2]] res == S2[q[2]]
     IN /\ q[1] \notin DOMAIN S2 /\ q[1] \in DOMAIN S1 /\ S1[q[1]].ini
        /\ ~old.ini /\ res.id = old.id /\ res.lab = old.lab /\ res.age = old.age + 1
        /\ res.hit = 2 * old.per0 /\ res.reid = NONE
        /\ res.last \in act'.us /\ Reported(res)
        /\ ~\E p \in act'.M1 : p[2] = q[2]]_vars
(* C07 *)
LiveLaw == \A x \in AllO : LET o == Obj(x) IN
    /\ \A i \in 1..NP : o.pc[i] <= MaxI(cfg.pmax, o.per0)
    /\ \A i \in 1..NP : o.gh.tr[i] = 0 => o.pc[i] > 0
    /\ \A i \in 1..NP : o.gh.tr[i] >= MaxI(cfg.pmax, Max(Pers)) => o.pc[i] <= 0
(* C08 (position part): never moved by an untrusted point; cf. Filter.tla     *)
SeenLaw == \A x \in AllO : \A i \in 1..NP : Obj(x).pc[i] > 0 => Obj(x).seen[i]
(* C09 *)
PastLaw == \A x \in AllO : LET o == Obj(x) p == o.past IN
    /\ Len(p) <= cfg.npast
    /\ \A i \in 1..Len(p) : p[i][2] <= o.age
    /\ \A i \in 1..(Len(p) - 1) : p[i][2] <= p[i + 1][2]
    /\ \A i, j \in 1..Len(p) : i # j => p[i][1] # p[j][1]
(* C10 *)
CamLaw == \A x \in AllO : Obj(x).mot # NONE => Obj(x).mot \in CamSet
=============================================================================
