---------------------------------- MODULE Pipe ----------------------------------
(* The MOT pipeline as a whole: the detections of a file go through a tracker, what    *)
(* it reports is written to a prediction file and evaluated against the truth.        *)
(* A state is                                                                        *)
(*   S     the tracker's objects (keys are the detections they started from)          *)
(*   names which id the user sees for which key                                       *)
(*   file  the prediction file          pss   what was reported, frame by frame        *)
EXTENDS Tracker
M == INSTANCE Mot

IouUnit == 50000
IouD(a, b) ==
  LET w == MinI(a[2][1], b[2][1]) - MaxI(a[1][1], b[1][1])
      h == MinI(a[2][2], b[2][2]) - MaxI(a[1][2], b[1][2])
      area(q) == (q[2][1] - q[1][1]) * (q[2][2] - q[1][2])
      o == IF w > 0 /\ h > 0 THEN w * h ELSE 0
      u == area(a) + area(b) - o
  IN ((u - o) * IouUnit) \div u
PDist(metric, a, b) == IF metric = "iou" THEN IouD(a, b) ELSE GeoDist(metric, a, b)

(* every state of the tracker one update may lead to; the tracker computes all distances itself, those of *)
(* the ReID phase between the places of the newcomer and of the old object (city block)                   *)
Updates(cfg, S, dets, per) ==
  LET kept == TLCEval(KeptKeys(cfg, S))
      stepped == TLCEval([k \in kept |-> Step(cfg, S[k], NONE)])
      D == TLCEval([p \in (DOMAIN dets) \X kept |-> PDist(cfg.metric, dets[p[1]].abs, stepped[p[2]].pos)])
      RD(M2) == TLCEval([p \in {q[2] : q \in M2} \X kept |->
                  LET m == CHOOSE q \in M2 : q[2] = p[1]
                  IN GeoDist("L1", Hit(cfg, stepped[p[1]], dets[m[1]], per, D[m]).pos, stepped[p[2]].pos)])
  IN UNION { UNION { LET R == RD(M2) IN
                     { Apply(cfg, S, dets, per, NONE, D, M1, M2, M3) : M3 \in Match3(cfg, S, M1, M2, R) }
                     : M2 \in Match2(cfg, S, dets, D, M1) }
             : M1 \in Match1(cfg, S, dets, D) }

Shown(S) == {k \in DOMAIN S : Reported(S[k])}
BoxOf(o) == << o.pos[1][1], o.pos[1][2], o.pos[2][1], o.pos[2][2] >>

PipeNew == [S |-> [k \in {} |-> 0], names |-> [k \in {} |-> 0], file |-> M!PNew, pss |-> <<>>]
(* the report of a frame: objects <<id, x0, y0, x1, y1>> *)
Report(S, names) == LET ks == SetToSeq(Shown(S)) IN [i \in DOMAIN ks |-> << names[ks[i]] >> \o BoxOf(S[ks[i]])]
AsBox(o) == [id |-> o[1], l |-> o[2], t |-> o[3], w |-> o[4] - o[2], h |-> o[5] - o[3]]
PipeStep(st, S, names, n) ==
  LET rep == TLCEval(Report(S, names))
  IN [S |-> S, names |-> names, file |-> M!PUpdate(st.file, <<>>, rep, n),
      pss |-> Append(st.pss, [i \in DOMAIN rep |-> AsBox(rep[i])])]
(* the evaluation, unless two predictions are equally good for one truth *)
Clear(gss, pss) == \A f \in DOMAIN gss : ~M!Unclear(gss[f], pss[f])
Scores(gss, pss) == M!Evaluate(M!ENew, gss, pss, 1)
=================================================================================
