-------------------------------- MODULE MotTrace ---------------------------------
(* Judges recorded use of the MOT files and of the evaluation.                        *)
EXTENDS Mot, TraceBase
OInit(tr) == PNew
OStep(tr, st, ev) ==
  IF ev.exc # "" /\ ev.op # "info" THEN [st |-> st, bad |-> {"exc:" \o ev.exc}, go |-> FALSE]
  ELSE
  LET r(b) == [st |-> st, bad |-> b, go |-> TRUE] IN
  CASE ev.op = "dets" ->
         r(IF Len(ev.got) # ev.n THEN {"dets:frames"}
           ELSE One("dets:rows", \E f \in 1..ev.n : ~SameBag(ev.got[f], DetectionsOf(ev.rows, f))))
    [] ev.op = "update" -> [st |-> PUpdate(st, ev.frame, ev.objs, ev.n), bad |-> One("pred:mut", ~ev.same), go |-> TRUE]
    [] ev.op = "predfile" ->
         r(IF ~st.closed THEN {}
           ELSE One("pred:rows", ev.rows # st.rows) \cup One("pred:tail", \E i \in DOMAIN ev.tails : ev.tails[i] # <<-1, -1, -1, -1>>))
    [] ev.op = "info" ->
         r(LET w == InfoOf(ev.lines, ev.name)
           IN IF ev.exc # "" THEN One("info:rejected", w # <<>>) \cup One("info:error", ev.exc # "ValueError")
              ELSE IF w = <<>> THEN {"info:accepted"} ELSE One("info:value", ev.got # w[1]))
    [] ev.op = "frames" -> r(One("frames:order", ev.got # ev.want) \cup One("frames:video", ev.video # ev.wantvideo))
    [] ev.op = "eval" ->
         r(LET es == TLCEval([q \in DOMAIN ev.seqs |-> Evaluate(ENew, ev.seqs[q].gt, ev.seqs[q].pr, 1)])
           IN UNION {ScoreBad(ev.seqs[q].name, es[q], ev.scores[q]) \cup FateBad(<<es[q]>>, ev.scores[q])
                       \cup TextBad(<<es[q]>>, ev.scores[q]) : q \in DOMAIN es}
              \cup (IF ev.overall = <<>> THEN {} ELSE ScoreBad("OVERALL", Sum(es), ev.overall[1]) \cup FateBad(es, ev.overall[1])
                                                       \cup TextBad(es, ev.overall[1]))
              \cup One("score:saved", ~ev.saved) \cup One("score:mut", ~ev.same) \cup One("score:names", ~ev.names))
=================================================================================
