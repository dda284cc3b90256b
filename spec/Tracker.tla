------------------------------ MODULE Tracker ------------------------------
(* State and transitions of norfair.Tracker / TrackedObject.                 *)
(*                                                                           *)
(* A tracked object is a record                                              *)
(*   lab    label                       id, gid, iid  optional identities    *)
(*   ini    still initializing          hit   hit counter                    *)
(*   reid   optional ReID counter       age   updates since creation         *)
(*   per0   period it was created with  pc    per point counters             *)
(*   seen   points trusted at least once                                     *)
(*   last   uid of the last matched detection, ld optional last distance     *)
(*   past   sequence of <<uid, age>>                                         *)
(*   pos    absolute position, vel velocity per frame (only meaningful with a  *)
(*          filter the specification knows, see gain)                          *)
(*   mot    optional latest camera transformation <<s, <<tx, ty, ..>>>>      *)
(*   gh     ghost variables of the design model (unused otherwise)           *)
(* A configuration is a record                                               *)
(*   hmax, delay, pmax, npast, dthr integers; rmax optional integer;         *)
(*   reid BOOLEAN; T, RT thresholds (BIG is infinity);                       *)
(*   gain  0: no predictive filter, the velocity is always 0;                *)
(*         1: a dead-beat predictor: a trusted point jumps to its measurement  *)
(*            and the innovation is added to its velocity.                     *)
(* A detection is [u uid, lab, sc (sequence of scores or <<>>), abs points]. *)
EXTENDS Integers, Sequences, TLC, FiniteSets, SequencesExt, FiniteSetsExt, Functions

NONE == <<>>
BIG == 1073741824

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a

-----------------------------------------------------------------------------
(* Single object transitions.                                                *)

Alive(o) == o.hit >= 0

(* prune: what stays in the tracker at the beginning of an update            *)
Keep(cfg, o) == IF cfg.rmax = NONE THEN Alive(o)
                ELSE o.reid = NONE \/ o.reid[1] >= 0

(* one frame passes                                                          *)
Step(cfg, o, mot) ==
  [o EXCEPT !.reid = IF o.reid = NONE
                     THEN (IF o.hit <= 0 THEN cfg.rmax ELSE NONE)
                     ELSE << o.reid[1] - 1 >>,
            !.hit = @ - 1,
            !.pc  = [i \in DOMAIN @ |-> @[i] - 1],
            !.age = @ + 1,
            !.pos = [i \in DOMAIN @ |-> [j \in DOMAIN @[i] |-> @[i][j] + o.vel[i][j]]],
            !.mot = IF mot = NONE THEN @ ELSE mot]

Trusted(cfg, det, n) == [i \in 1..n |-> det.sc = <<>> \/ det.sc[i] > cfg.dthr]

(* the age is kept with the detection: the same detection kept once more has *)
(* one age, the new one                                                      *)
Dated(past, age, u) == [i \in DOMAIN past |-> IF past[i][1] = u THEN << u, age >> ELSE past[i]]

AddPast(cfg, past, age, u) ==
  IF cfg.npast = 0 THEN past
  ELSE IF Len(past) < cfg.npast THEN Append(Dated(past, age, u), << u, age >>)
  ELSE IF age >= past[1][2] * cfg.npast THEN Append(Dated(Tail(past), age, u), << u, age >>)
  ELSE past

Still(ps) == [i \in DOMAIN ps |-> [j \in DOMAIN ps[i] |-> 0]]

Born(cfg, det, per, mot) ==
  LET n == Len(det.abs)  tr == Trusted(cfg, det, n)
  IN [lab |-> det.lab, id |-> NONE, gid |-> NONE, iid |-> NONE,
      ini |-> per <= cfg.delay, hit |-> per, reid |-> NONE, age |-> 0,
      per0 |-> per,
      pc |-> [i \in 1..n |-> IF tr[i] THEN 1 ELSE 0], seen |-> tr,
      last |-> det.u, ld |-> NONE,
      past |-> IF cfg.npast > 0 THEN << << det.u, 0 >> >> ELSE << >>,
      pos |-> det.abs, vel |-> Still(det.abs), mot |-> mot, gh |-> 0]

Cap(cfg, o) == MaxI(cfg.pmax, o.per0)

Hit(cfg, o, det, per, d) ==
  LET n == Len(o.pc)  tr == Trusted(cfg, det, n)
      h == MinI(o.hit + 2 * per, cfg.hmax)
  IN [o EXCEPT !.past = AddPast(cfg, @, o.age, det.u),
               !.last = det.u, !.ld = << d >>,
               !.hit = h, !.reid = NONE,
               !.ini = @ /\ h <= cfg.delay,
               !.pc = [i \in 1..n |->
                         LET c == MaxI(@[i], 0)
                         IN MinI(IF tr[i] THEN c + 2 * per ELSE c, Cap(cfg, o))],
               !.seen = [i \in 1..n |-> @[i] \/ tr[i]],
               !.pos = [i \in 1..n |-> IF tr[i] THEN det.abs[i] ELSE @[i]],
               \* a point that is trusted for the first time starts at rest
               !.vel = [i \in 1..n |->
                          IF ~o.seen[i] THEN [j \in DOMAIN @[i] |-> 0]
                          ELSE IF tr[i] THEN [j \in DOMAIN @[i] |-> @[i][j] + cfg.gain * (det.abs[i][j] - o.pos[i][j])]
                          ELSE @[i]]]

(* o continues the track of the newcomer n, which disappears                 *)
Absorb(cfg, o, n) ==
  [o EXCEPT !.reid = NONE, !.hit = 2 * o.per0,
            !.pc = n.pc, !.seen = n.seen, !.ld = n.ld, !.last = n.last,
            !.pos = n.pos, !.vel = n.vel,
            !.past = FoldLeft(LAMBDA acc, e : AddPast(cfg, acc, o.age, e[1]),
                              @, n.past)]

Live(o) == [i \in DOMAIN o.pc |-> o.pc[i] > 0]
Reported(o) == ~o.ini /\ o.hit >= 0

(* The candidate groups of one update, before anything is matched.           *)
KeptKeys(cfg, S) == {k \in DOMAIN S : Keep(cfg, S[k])}
AliveKeys(cfg, S) == {k \in KeptKeys(cfg, S) : Alive(S[k])}
ConfKeys(cfg, S) == {k \in AliveKeys(cfg, S) : ~S[k].ini}
InitKeys(cfg, S) == {k \in AliveKeys(cfg, S) : S[k].ini}
DeadKeys(cfg, S) == {k \in KeptKeys(cfg, S) : ~Alive(S[k]) /\ ~S[k].ini}

-----------------------------------------------------------------------------
(* Closest-first matching.                                                   *)
(* M, a one-to-one set of pairs <<c, o>>, is a result of repeatedly taking a *)
(* closest remaining pair below T iff every eligible pair outside of M is    *)
(* adjacent to a pair of M that is at least as close.                        *)
Touching(p, q) == p[1] = q[1] \/ p[2] = q[2]
Eligible(C, O, d(_,_), T, same(_,_)) ==
  {p \in C \X O : same(p[1], p[2]) /\ d(p[1], p[2]) < T}

MatchBad(tag, M, C, O, d(_,_), T, same(_,_)) ==
  LET E == Eligible(C, O, d, T, same)
  IN {tag \o ":thr" : m \in {q \in M : ~(d(q[1], q[2]) < T)}}
     \cup {tag \o ":lab" : m \in {q \in M : ~same(q[1], q[2])}}
     \cup {tag \o ":pool" : m \in {q \in M : q \notin C \X O}}
     \cup {tag \o ":missed" : p \in {q \in E \ M : \A m \in M : ~Touching(m, q)}}
     \cup {tag \o ":order" : p \in {q \in E \ M :
              /\ \E m \in M : Touching(m, q)
              /\ \A m \in M : Touching(m, q) => d(m[1], m[2]) > d(q[1], q[2])}}

(* All results of the greedy procedure on the eligible pairs E with distances *)
(* D (a function on pairs), ties resolved in every way.                      *)
RECURSIVE GreedyAll(_, _)
GreedyAll(E, D) ==
  IF E = {} THEN {{}}
  ELSE LET m == Min({D[p] : p \in E})
           B == {p \in E : D[p] = m}
       IN UNION { { M \cup {p} : M \in GreedyAll({q \in E : ~Touching(p, q)}, D) }
                  : p \in B }

-----------------------------------------------------------------------------
(* Distances between points, for updates in which the tracker itself         *)
(* computes them (integer coordinates).                                      *)
FlatPts(ps) == FlattenSeq(ps)
GeoDist(metric, a, b) ==
  LET x == FlatPts(a)  y == FlatPts(b)  n == Len(x)
  IN CASE metric = "L1"  -> FoldFunction(LAMBDA s, t : s + t, 0,
                                         [i \in 1..n |-> AbsI(x[i] - y[i])])
       [] metric = "Linf" -> FoldFunction(MaxI, 0, [i \in 1..n |-> AbsI(x[i] - y[i])])
       [] metric = "L2sq" -> FoldFunction(LAMBDA s, t : s + t, 0,
                                 [i \in 1..n |-> (x[i] - y[i]) * (x[i] - y[i])])

(* camera: relative = s * absolute + t                                       *)
ToRel(mot, ps) == [i \in 1..Len(ps) |->
                    [j \in 1..Len(ps[i]) |-> mot[1] * ps[i][j] + mot[2][j]]]

-----------------------------------------------------------------------------
(* One whole update as a function of the state to the set of possible states: *)
(* S maps keys to objects, dets maps uids to detections (the uid becomes the  *)
(* key of an object that starts from it), D and R give the distances between  *)
(* detections and objects and between objects. Identities are left out.       *)
Match1(cfg, S, dets, D) ==
  GreedyAll(Eligible(DOMAIN dets, ConfKeys(cfg, S), LAMBDA u, k : D[<<u, k>>], cfg.T,
                     LAMBDA u, k : dets[u].lab = S[k].lab), D)
Match2(cfg, S, dets, D, M1) ==
  GreedyAll(Eligible(DOMAIN dets \ {p[1] : p \in M1}, InitKeys(cfg, S), LAMBDA u, k : D[<<u, k>>], cfg.T,
                     LAMBDA u, k : dets[u].lab = S[k].lab), D)
Match3(cfg, S, M1, M2, R) ==
  IF ~cfg.reid THEN {{}}
  ELSE GreedyAll(Eligible({p[2] : p \in M2},
                          (ConfKeys(cfg, S) \ {p[2] : p \in M1}) \cup DeadKeys(cfg, S),
                          LAMBDA a, b : R[<<a, b>>], cfg.RT, LAMBDA a, b : S[a].lab = S[b].lab), R)
Apply(cfg, S, dets, per, cam, D, M1, M2, M3) ==
  LET kept == KeptKeys(cfg, S)
      M == M1 \cup M2
      of(k) == CHOOSE p \in M : p[2] = k
      hit(k) == \E p \in M : p[2] = k
      stepped == TLCEval([k \in kept |-> Step(cfg, S[k], cam)])
      h == TLCEval([k \in kept |-> IF hit(k) THEN Hit(cfg, stepped[k], dets[of(k)[1]], per, D[of(k)]) ELSE stepped[k]])
      gone == {p[1] : p \in M3}
      new == DOMAIN dets \ {p[1] : p \in M}
  IN TLCEval([k \in (kept \ gone) \cup new |->
       IF k \in new THEN Born(cfg, dets[k], per, cam)
       ELSE IF \E p \in M3 : p[2] = k THEN Absorb(cfg, stepped[k], h[(CHOOSE p \in M3 : p[2] = k)[1]])
       ELSE h[k]])
After(cfg, S, dets, per, cam, D, R) ==
  UNION { UNION { { Apply(cfg, S, dets, per, cam, D, M1, M2, M3) : M3 \in Match3(cfg, S, M1, M2, R) }
                  : M2 \in Match2(cfg, S, dets, D, M1) }
          : M1 \in Match1(cfg, S, dets, D) }
=============================================================================
