------------------------------- MODULE PipeTrace --------------------------------
(* Judges recorded runs of the whole MOT pipeline against Pipe.tla: the detections of  *)
(* a file, frame by frame through a tracker, into a prediction file and the scores.    *)
EXTENDS Pipe, TraceBase
PInit(tr) == [p |-> PipeNew, f |-> 0, done |-> <<>>]
One(cl, b) == IF b THEN {cl} ELSE {}
AsDet(u, row) == [u |-> u, lab |-> 0, sc |-> << row[5], row[6] >>, abs |-> << << row[1], row[2] >>, << row[3], row[4] >> >>]
Tail5(o) == SubSeq(o, 2, 5)
IdOf(o) == o[1]
\* does the report rep fit the objects S, and under which names
Known(S, names) == {k \in Shown(S) : k \in DOMAIN names}
FitBad(S, names, rep) ==
  LET old == Known(S, names)  new == Shown(S) \ old
      rest == {i \in DOMAIN rep : \A k \in old : rep[i][1] # names[k]}
  IN One("report:number", Len(rep) # Cardinality(Shown(S)))
     \cup One("report:ids", \E i, j \in DOMAIN rep : i # j /\ rep[i][1] = rep[j][1])
     \cup One("report:lost", \E k \in old : \A i \in DOMAIN rep : rep[i][1] # names[k])
     \cup One("report:place", \E k \in old : \E i \in DOMAIN rep : rep[i][1] = names[k] /\ Tail5(rep[i]) # BoxOf(S[k]))
     \cup One("report:newplace", \E k \in new : \A i \in rest : Tail5(rep[i]) # BoxOf(S[k]))
     \cup One("report:newid", \E i \in rest : rep[i][1] \in {names[k] : k \in DOMAIN names})
Twins(S) == \E a, b \in Shown(S) : a # b /\ BoxOf(S[a]) = BoxOf(S[b])
Names(S, names, rep) ==
  LET new == Shown(S) \ DOMAIN names
      old == {names[k] : k \in Known(S, names)}
  IN [k \in new |-> rep[CHOOSE i \in DOMAIN rep : rep[i][1] \notin old /\ Tail5(rep[i]) = BoxOf(S[k])][1]] @@ names
PStep(tr, st, ev) ==
  IF ev.exc # "" THEN [st |-> st, bad |-> {"exc:" \o ev.exc}, go |-> FALSE]
  ELSE
  CASE ev.op = "frame" ->
         LET cfg == tr.cfg
             f == st.f + 1
             fed == (f - 1) % cfg.per = 0
             want == TLCEval(M!DetectionsOf(ev.rows, f))
             dets == TLCEval(IF fed THEN [u \in {1000 * f + i : i \in DOMAIN ev.dets} |-> AsDet(u, ev.dets[u - 1000 * f])] ELSE [u \in {} |-> 0])
             next == TLCEval(Updates(cfg, st.p.S, dets, IF fed THEN cfg.per ELSE 1))
             S == CHOOSE S \in next : TRUE
             bad == TLCEval(FitBad(S, st.p.names, ev.rep))
         IN IF ~M!SameBag(ev.dets, want) THEN [st |-> st, bad |-> {"dets"}, go |-> FALSE]
            ELSE IF Cardinality(next) # 1 THEN [st |-> st, bad |-> {}, go |-> FALSE]
            ELSE IF bad # {} THEN [st |-> st, bad |-> bad, go |-> FALSE]
            ELSE IF Twins(S) THEN [st |-> st, bad |-> {}, go |-> FALSE]
            ELSE [st |-> [st EXCEPT !.f = f,
                            !.p = [S |-> S, names |-> Names(S, @.names, ev.rep),
                                   file |-> M!PUpdate(@.file, <<>>, ev.rep, ev.n),
                                   pss |-> Append(@.pss, [i \in DOMAIN ev.rep |-> AsBox(ev.rep[i])])]],
                  bad |-> {}, go |-> TRUE]
    [] ev.op = "end" ->   \* of a sequence: what the file says
         [st |-> [p |-> PipeNew, f |-> 0, done |-> Append(st.done, [gss |-> ev.gss, pss |-> st.p.pss])],
          bad |-> One("frames", st.f # Len(ev.gss)) \cup One("file:rows", ev.rows # st.p.file.rows), go |-> TRUE]
    [] ev.op = "scores" ->
         LET es == TLCEval([q \in DOMAIN st.done |-> Scores(st.done[q].gss, st.done[q].pss)])
         IN [st |-> st, go |-> TRUE,
             bad |-> IF \E q \in DOMAIN st.done : ~Clear(st.done[q].gss, st.done[q].pss) THEN {}
                     ELSE UNION {M!ScoreBad("", es[q], ev.scores[q]) : q \in DOMAIN es} \cup M!ScoreBad("", M!Sum(es), ev.overall)]
=================================================================================
