--------------------------------- MODULE MCPipe ---------------------------------
(* Every small history of truths standing in their places, seen or overlooked by the  *)
(* detector: what the whole pipeline makes of it, in closed form.                     *)
EXTENDS Pipe
CONSTANTS Lanes, Frames, Hmaxs, Delays, Rmaxs
R_None == {<<>>}
R_Some == {<<>>, <<1>>, <<9>>}
VARIABLES cfg, st, gss, hist
vars == <<cfg, st, gss, hist>>
Place(l) == << <<200 * l, 0>>, <<200 * l + 40, 40>> >>
Cfgs == {c \in [hmax : Hmaxs, delay : Delays, pmax : {4}, npast : {0}, rmax : Rmaxs, reid : {FALSE, TRUE}, T : {500}, RT : {100},
                dthr : {0}, gain : {0}, metric : {"L2sq"}] : c.delay < c.hmax /\ c.reid = (c.rmax # NONE)}
Init == cfg \in Cfgs /\ st = PipeNew /\ gss = <<>> /\ hist = [l \in 1..Lanes |-> <<>>]
\* a lane in a frame: 0 nothing there, 1 overlooked, 2 detected
Next == /\ Len(gss) < Frames
        /\ \E c \in [1..Lanes -> 0..2] :
             LET f == Len(gss) + 1
                 dets == [u \in {f * 10 + l : l \in {l \in 1..Lanes : c[l] = 2}} |->
                            [u |-> u, lab |-> 0, sc |-> <<>>, abs |-> Place(u % 10)]]
                 there == SetToSeq({l \in 1..Lanes : c[l] # 0})
             IN /\ \E S \in Updates(cfg, st.S, dets, 1) :
                     LET new == SetToSeq(Shown(S) \ DOMAIN st.names)
                         names == [k \in {new[i] : i \in DOMAIN new} |->
                                     Cardinality(DOMAIN st.names) + CHOOSE i \in DOMAIN new : new[i] = k] @@ st.names
                     IN st' = PipeStep(st, S, names, Frames)
                /\ gss' = Append(gss, [i \in DOMAIN there |->
                             [id |-> there[i], l |-> 200 * there[i], t |-> 0, w |-> 40, h |-> 40]])
                /\ hist' = [l \in 1..Lanes |-> Append(hist[l], c[l])]
                /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars
E == TLCEval(Scores(gss, st.pss))
Total(f(_)) == LET RECURSIVE A(_)
                 A(l) == IF l = 0 THEN 0 ELSE f(l) + A(l - 1)
             IN A(Lanes)
N == Len(gss)
SeenAt(l) == {f \in 1..N : hist[l][f] = 2}
Gaps(l) == {<<a, b>> \in SeenAt(l) \X SeenAt(l) : a < b /\ \A f \in (a + 1)..(b - 1) : hist[l][f] # 2}
\* detected from its first to its last detection
Unbroken(l) == \A g \in Gaps(l) : g[2] = g[1] + 1
FirstAt(l) == Min(SeenAt(l))
LastAt(l) == Max(SeenAt(l))
\* the frames in which a lane that is detected without interruption is reported
Due(l) == IF SeenAt(l) = {} THEN {}
          ELSE LET m == LastAt(l) - FirstAt(l) + 1
               IN IF m <= cfg.delay THEN {}
                  ELSE {f \in 1..N : f >= FirstAt(l) + cfg.delay /\ f <= LastAt(l) + MinI(m, cfg.hmax)}
ClosedForm ==
  (\A l \in 1..Lanes : Unbroken(l)) =>
    /\ E.miss = Total(LAMBDA l : Cardinality({f \in 1..N : hist[l][f] # 0 /\ f \notin Due(l)}))
    /\ E.false = Total(LAMBDA l : Cardinality({f \in Due(l) : hist[l][f] = 0}))
    /\ E.switch = 0
    /\ Cardinality(DOMAIN st.names) = Cardinality({l \in 1..Lanes : Due(l) # {}})
\* a detector that overlooks a truth for a single frame now and then never costs an identity
ShortGaps == (\A l \in 1..Lanes : \A g \in Gaps(l) : g[2] <= g[1] + 2) => E.switch = 0
\* without ReID every interruption longer than any counter costs one
LongGaps == (cfg.reid = FALSE /\ \A l \in 1..Lanes : \A g \in Gaps(l) : g[2] = g[1] + 1 \/ g[2] > g[1] + cfg.hmax + 1) =>
  E.switch = Total(LAMBDA l : LET cs == {g \in Gaps(l) : g[2] > g[1] + 1}
                                runs == {<<a, b>> \in (1..N) \X (1..N) :
                                           /\ a + cfg.delay <= b /\ \A f \in a..b : hist[l][f] = 2
                                           /\ (a = 1 \/ hist[l][a - 1] # 2) /\ (b = N \/ hist[l][b + 1] # 2)}
                            IN MaxI(Cardinality(runs) - 1, 0))
\* with ReID and a long memory the track is found again, whatever the interruption, by a newcomer that is
\* not confirmed at once
Again == (cfg.reid /\ cfg.delay > 0 /\ cfg.rmax[1] >= N) => E.switch = 0
Books == /\ Len(st.file.rows) = E.preds /\ E.truths - E.miss = E.preds - E.false
         /\ st.file.closed <=> N >= Frames
\* whatever is reported stands where something was detected at most a counter ago
Honest == \A f \in 1..N : \A i \in DOMAIN st.pss[f] :
            \E l \in 1..Lanes : /\ st.pss[f][i].l = 200 * l
                                /\ \E g \in SeenAt(l) : g <= f /\ f <= g + MaxI(cfg.hmax, 2)
=================================================================================
