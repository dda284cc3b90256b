-------------------------------- MODULE AbsTrace ---------------------------------
(* Judges recorded calls of AbsolutePaths.draw and draw_absolute_grid.              *)
EXTENDS Absolute, TraceBase
One(cl, b) == IF b THEN {cl} ELSE {}
AInit(tr) == [x \in {} |-> 0]
Objs(tr, ev) == [i \in DOMAIN ev.objs |->
   [id |-> ev.objs[i].id, live |-> ev.objs[i].live, pts |-> Interest(tr.poi, ev.objs[i].pts), c |-> ev.objs[i].c]]
Wrong(ls, b, a) ==
  LET h == Len(b)  w == Len(b[1])
  IN UNION {UNION {
       LET v == Through(ls, 1, x - 1, y - 1, w, h, <<b[y][x], b[y][x]>>)
       IN IF a[y][x] >= v[1] /\ a[y][x] <= v[2] THEN {}
          ELSE IF v = <<b[y][x], b[y][x]>> THEN {"outside"} ELSE {"painted"}
       : x \in 1..w} : y \in 1..h}
AStep(tr, st, ev) ==
  IF ev.exc # "" THEN [st |-> st, bad |-> {"exc:" \o ev.exc}, go |-> FALSE]
  ELSE LET h == Len(ev.b)  w == Len(ev.b[1]) IN
  CASE ev.op = "trail" ->
    LET r == IF tr.r # <<>> THEN tr.r[1] ELSE Max2((h * 7) \div 1000, 1)
        t == IF tr.t # <<>> THEN tr.t[1] ELSE Max2(h \div 700, 1)
        T == TLCEval(Trails(ev.cam, Objs(tr, ev), st, tr.hist, r, t))
        bad == TLCEval(One("mut", ~ev.same) \cup {"trail:" \o x : x \in Wrong(T.ls, ev.b, ev.a)})
    IN [st |-> T.past, bad |-> bad, go |-> bad = {}]
  [] ev.op = "grid" ->
    LET ls == TLCEval(Grid(ev.size, ev.polar, ev.cam, w, h, ev.c, ev.r, ev.t))
        bad == TLCEval(UNION {UNION {
          IF GridMust(ls, x - 1, y - 1) THEN One("grid:painted", ev.a[y][x] # ev.c)
          ELSE IF GridMay(ls, x - 1, y - 1) THEN One("grid:painted", ev.a[y][x] \notin {ev.c, ev.b[y][x]})
          ELSE One("grid:outside", ev.a[y][x] # ev.b[y][x]) : x \in 1..w} : y \in 1..h})
    IN [st |-> st, bad |-> bad, go |-> TRUE]
  [] ev.op = "prim" ->
    LET bad == TLCEval({"prim:" \o x : x \in Wrong(<<Primitive(ev.p, Max2(Max2(h, w), 3))>>, ev.b, ev.a)}
                       \cup One("prim:ret", ~ev.same))
    IN [st |-> st, bad |-> bad, go |-> TRUE]
  [] ev.op = "blend" ->
    LET bad == One("prim:mut", ~ev.same)
               \cup One("prim:blend", \E y \in 1..h : \E x \in 1..w : ev.a[y][x] \notin
                          Weighted(ev.b[y][x], ev.b2[y][x], ev.alpha, IF ev.beta = <<>> THEN 8 - ev.alpha ELSE ev.beta[1], ev.gamma))
    IN [st |-> st, bad |-> bad, go |-> TRUE]
  [] ev.op = "text" ->
    LET size == IF ev.sz # <<>> THEN ev.sz[1] ELSE Min2(Max2(Max2(Max2(h, w), 3) \div 4, 500), 1500)
        th == IF ev.th # <<>> THEN ev.th[1] ELSE ((size + 499) \div 1000) + 1
        ax == ev.x + (th \div 2)  ay == ev.y - (th \div 2)
        T(x, y, c) == [s |-> ev.s, x |-> x, y |-> y, c |-> c, sz |-> size, th |-> th]
        want == (IF ev.shadow THEN <<T(ax + ev.off, ay + ev.off, ev.sc)>> ELSE <<>>) \o <<T(ax, ay, ev.c)>>
    IN [st |-> st, bad |-> One("prim:text", ev.texts # want), go |-> TRUE]
=================================================================================
