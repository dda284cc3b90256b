------------------------------- MODULE MotionTrace --------------------------------
(* Judges transformation getters and transformations fed with known points.        *)
(*  op "trans": translation getter; flow (1/64 px), upd returned flag, mv result   *)
(*     in bins (per axis), probe results rel, back (1/1024 px) of points pr (px)    *)
(*  op "homog": homography getter; m homography of the pair, inl/tot agreeing       *)
(*     points, few TRUE when there are too few points                              *)
(*  op "plain": a transformation made from a vector or matrix                      *)
EXTENDS Motion, TraceBase
MInit(tr) == [data |-> <<>>]
One(cl, b) == IF b THEN {cl} ELSE {}
Near2(a, b, tol) == \A i \in DOMAIN b : AbsI(a[i] - b[i]) <= tol
Sc(p) == [i \in DOMAIN p |-> p[i] * SC]
Probes(ev, F(_), tol) ==
  One("rel", ~(Len(ev.rel) = Len(ev.pr) /\ \A i \in DOMAIN ev.pr : Near2(ev.rel[i], F(ev.pr[i]), tol)))
  \cup One("back", ~(Len(ev.back) = Len(ev.pr) /\ \A i \in DOMAIN ev.pr : Near2(ev.back[i], Sc(ev.pr[i]), tol)))

MStep(tr, st, ev) ==
  LET mut == {ev.mut[i] : i \in DOMAIN ev.mut}
      none == [st |-> st, bad |-> {"exc:" \o ev.exc}, go |-> FALSE]
  IN
  IF ev.exc # "" THEN none
  ELSE IF ev.op = "plain" THEN
    LET F(p) == IF ev.mat = <<>> THEN [i \in DOMAIN p |-> p[i] * SC + ev.vec[i]] ELSE ImgS(ev.mat, p)
        G(p) == IF ev.mat = <<>> THEN [i \in DOMAIN p |-> p[i] * SC - ev.vec[i]] ELSE ImgS(Adj(ev.mat), p)
        tol == IF ev.mat = <<>> THEN 0 ELSE 2
    IN [st |-> st, go |-> TRUE, bad |-> TLCEval(mut \cup Probes(ev, F, tol)
          \cup One("abs", ~(\A i \in DOMAIN ev.pr : Near2(ev.abs[i], G(ev.pr[i]), tol)))
          \cup One("forth", ~(\A i \in DOMAIN ev.pr : Near2(ev.forth[i], Sc(ev.pr[i]), tol))))]
  ELSE IF ev.op = "trans" THEN
    LET bins == TLCEval(FlowBins(ev.flow, tr.bn, tr.bd))
        modes == TLCEval(Modes(bins))
        base == IF st.data = <<>> THEN <<0, 0>> ELSE st.data
        okm == {b \in modes : VAdd(b, base) = ev.mv}
        b0 == CHOOSE b \in modes : TRUE
        want == Renew(Votes(bins, b0), Len(ev.flow), tr.thr)
        F(p) == [i \in DOMAIN p |-> p[i] * SC + Rat(ev.mv[i] * tr.bn, tr.bd)]
        odd == \E i \in DOMAIN ev.mv : AbsI(ev.mv[i]) > 100000
    IN IF odd THEN [st |-> st, bad |-> {"mode"}, go |-> FALSE] ELSE
       [go |-> ev.got,
        st |-> IF ev.upd THEN [st EXCEPT !.data = ev.mv] ELSE st,
        bad |-> TLCEval(mut \cup One("nothing", ~ev.got)
          \cup (IF ~ev.got THEN {} ELSE
               One("mode", okm = {})
               \cup One("renew", want # ev.upd)
               \cup Probes(ev, F, 1)))]
  ELSE \* homography
    LET base == IF st.data = <<>> THEN Ident ELSE st.data
        res == TLCEval(IF ev.few THEN st.data ELSE MMul(ev.m, base))
        want == ev.few \/ Renew(ev.inl, ev.tot, tr.thr)
        F(p) == ImgS(res, p)
    IN [go |-> ev.got = (res # <<>>),
        st |-> IF ev.upd /\ ~ev.few THEN [st EXCEPT !.data = res] ELSE st,
        bad |-> TLCEval(mut
          \cup One("known", ev.got # (res # <<>>))
          \cup One("renew", want # ev.upd)
          \cup (IF ev.got /\ res # <<>> THEN Probes(ev, F, ev.tol) ELSE {}))]
=================================================================================
