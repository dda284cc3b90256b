-------------------------------- MODULE Absolute ---------------------------------
(* Drawing in absolute coordinates: trails of AbsolutePaths and the grid of         *)
(* draw_absolute_grid, seen through the camera rel = s * abs + t. One channel of a   *)
(* picture; what a pixel may be is an interval <<lo, hi>> of gray levels.           *)
(* Places are in 1/16 px until they are truncated to pixels; when rounding errors     *)
(* decide the pixel (whole coordinates that went through a homography or the sphere) *)
(* both neighbours are allowed.                                                     *)
EXTENDS Draw

Trunc(v, u) == IF v >= 0 THEN v \div u ELSE 0 - ((0 - v) \div u)
\* how one coordinate is seen; a place on the border between pixels is decided by rounding
\* unless the arithmetic is exact
See(cam, v, j) == LET r == cam.s * v + 16 * cam.t[j] IN [p |-> Trunc(r, 16), amb |-> ~cam.exact /\ r % 16 = 0]
Spot(cam, p) == LET x == See(cam, p[1], 1)  y == See(cam, p[2], 2)
                IN [x |-> x.p, y |-> y.p, amb |-> x.amb \/ y.amb]

\* points of interest of an object with points ps
RECURSIVE Total(_, _)
Total(ps, j) == IF ps = <<>> THEN 0 ELSE Head(ps)[j] + Total(Tail(ps), j)
Interest(mode, ps) ==
  CASE mode = "mean" -> << <<Total(ps, 1) \div Len(ps), Total(ps, 2) \div Len(ps)>> >>
    [] mode = "all" -> ps
    [] mode = "ends" -> <<ps[1], ps[Len(ps)]>>

-----------------------------------------------------------------------------------
(* trails *)
\* weight of the i-th oldest segment group, in 1/(100 * (H - 1)): 0.99 down to 0.01
Weight(H, i) == IF H = 1 THEN <<99, 100>> ELSE <<99 * (H - 1) - 98 * (i - 1), 100 * (H - 1)>>
\* past: from id to the places drawn so far, the latest first
PastOf(past, id) == IF id \in DOMAIN past THEN past[id] ELSE <<>>
Push(past, id, pts, H) ==
  LET n == <<pts>> \o PastOf(past, id)
  IN (id :> (IF Len(n) > H THEN SubSeq(n, 1, H) ELSE n)) @@ past
SegOf(cam, p, q) == [a |-> Spot(cam, p), b |-> Spot(cam, q)]
\* what drawing one object adds: discs at its points, then one blended group per remembered place
Trail(cam, pts, past, H, c, r, t) ==
  [j \in DOMAIN pts |-> [k |-> "disc", cs |-> c, s |-> [x |-> Spot(cam, pts[j]).x, y |-> Spot(cam, pts[j]).y, r |-> r, t |-> t,
                                                         amb |-> Spot(cam, pts[j]).amb]]]
  \o [i \in DOMAIN past |-> [k |-> "segs", cs |-> c, t |-> t, w |-> Weight(H, i),
        segs |-> [j \in DOMAIN pts |-> SegOf(cam, IF i = 1 THEN pts[j] ELSE past[i - 1][j], past[i][j])]]]
\* objs: [id, live, pts (points of interest), c]
RECURSIVE Trails(_, _, _, _, _, _)
Trails(cam, objs, past, H, r, t) ==
  IF objs = <<>> THEN [ls |-> <<>>, past |-> past]
  ELSE LET o == Head(objs) IN
    IF ~o.live THEN Trails(cam, Tail(objs), past, H, r, t)
    ELSE LET rest == Trails(cam, Tail(objs), Push(past, o.id, o.pts, H), H, r, t)
         IN [ls |-> Trail(cam, o.pts, PastOf(past, o.id), H, o.c, r, t) \o rest.ls, past |-> rest.past]

In(v, a, b) == v >= Min2(a, b) /\ v <= Max2(a, b)
SegMust(s, x, y, w, h) ==
  LET inside(p) == p.x >= 0 /\ p.x < w /\ p.y >= 0 /\ p.y < h
  IN /\ ~s.a.amb /\ ~s.b.amb
     /\ \/ s.a.x = s.b.x /\ x = s.a.x /\ In(y, s.a.y, s.b.y)
        \/ s.a.y = s.b.y /\ y = s.a.y /\ In(x, s.a.x, s.b.x)
        \/ inside(s.a) /\ inside(s.b) /\ (<<x, y>> = <<s.a.x, s.a.y>> \/ <<x, y>> = <<s.b.x, s.b.y>>)
\* (a slanted line that leaves the picture is cut at its border first, which may turn it by a pixel)
SegMay(s, t, x, y, w, h) ==
  LET e == (IF t > 1 THEN t ELSE 0) + (IF s.a.amb \/ s.b.amb THEN 2 ELSE 0)
      dx == s.b.x - s.a.x  dy == s.b.y - s.a.y  m == Max2(Abs(dx), Abs(dy))
      straight == dx = 0 \/ dy = 0
      inside(p) == p.x >= 0 /\ p.x < w /\ p.y >= 0 /\ p.y < h
      box == /\ x >= Min2(s.a.x, s.b.x) - e /\ x <= Max2(s.a.x, s.b.x) + e
             /\ y >= Min2(s.a.y, s.b.y) - e /\ y <= Max2(s.a.y, s.b.y) + e
  IN box /\ (straight \/ Abs((x - s.a.x) * dy - (y - s.a.y) * dx) <= (e + 1) * m + (IF e > 0 \/ ~inside(s.a) \/ ~inside(s.b) THEN m ELSE 0))

Blend(v, w, c) == << (w[1] * c + (w[2] - w[1]) * v[1]) \div w[2], (w[1] * c + (w[2] - w[1]) * v[2] + w[2] - 1) \div w[2] >>
Hull(a, b) == <<Min2(a[1], b[1]), Max2(a[2], b[2])>>
CrossMust(s, x, y) == ~s.amb /\ ((x = s.x /\ Abs(y - s.y) <= s.r) \/ (y = s.y /\ Abs(x - s.x) <= s.r))
CrossMay(s, x, y) ==
  LET e == (IF s.t > 1 THEN s.t ELSE 0) + (IF s.amb THEN 1 ELSE 0)
  IN (Abs(x - s.x) <= e /\ Abs(y - s.y) <= s.r + e) \/ (Abs(y - s.y) <= e /\ Abs(x - s.x) <= s.r + e)
\* interval of pixel (x, y) after layer l, given the one before; w, h the size of the picture
After(l, x, y, w, h, v) ==
  CASE l.k = "disc" -> IF DiscMust(l.s, x, y) THEN <<l.cs, l.cs>> ELSE IF DiscMay(l.s, x, y) THEN Hull(v, <<l.cs, l.cs>>) ELSE v
    [] l.k = "cross" -> IF CrossMust(l.s, x, y) THEN <<l.cs, l.cs>> ELSE IF CrossMay(l.s, x, y) THEN Hull(v, <<l.cs, l.cs>>) ELSE v
    [] l.k = "rect" -> IF RectMust(l.s, x, y) THEN <<l.cs, l.cs>> ELSE IF RectMay(l.s, x, y) THEN Hull(v, <<l.cs, l.cs>>) ELSE v
    [] l.k = "segs" -> IF \E j \in DOMAIN l.segs : SegMust(l.segs[j], x, y, w, h) THEN Blend(v, l.w, l.cs)
                       ELSE IF \E j \in DOMAIN l.segs : SegMay(l.segs[j], l.t, x, y, w, h) THEN Hull(v, Blend(v, l.w, l.cs)) ELSE v
RECURSIVE Through(_, _, _, _, _, _, _)
Through(ls, i, x, y, w, h, v) == IF i > Len(ls) THEN v ELSE Through(ls, i + 1, x, y, w, h, After(ls[i], x, y, w, h, v))

-----------------------------------------------------------------------------------
(* the primitives everything is drawn with; optional sizes as <<>> or <<v>>           *)
Primitive(p, side) ==
  CASE p.k = "circle" ->
         LET r == IF p.r # <<>> THEN p.r[1] ELSE Max2((side * 5) \div 1000, 1)
         IN [k |-> "disc", cs |-> p.c, s |-> [x |-> p.x, y |-> p.y, r |-> r, amb |-> FALSE, t |-> IF p.t # <<>> THEN p.t[1] ELSE r - 1]]
    [] p.k = "rect" -> [k |-> "rect", cs |-> p.c, s |-> [x |-> p.x, y |-> p.y, x2 |-> p.x2, y2 |-> p.y2, t |-> IF p.t = <<>> THEN 1 ELSE p.t[1]]]
    [] p.k = "cross" -> [k |-> "cross", cs |-> p.c, s |-> [x |-> p.x, y |-> p.y, r |-> p.r[1], t |-> p.t[1], amb |-> FALSE]]
    [] p.k = "line" -> [k |-> "segs", cs |-> p.c, t |-> IF p.t = <<>> THEN 1 ELSE p.t[1], w |-> <<1, 1>>,
                        segs |-> <<[a |-> [x |-> p.x, y |-> p.y, amb |-> FALSE], b |-> [x |-> p.x2, y |-> p.y2, amb |-> FALSE]]>>]
\* weighted sum (weights in 1/8) of two gray levels plus gamma, cut to a byte; halves may be rounded either way
Weighted(u, v, a, b, g) ==
  LET n == a * u + b * v + 8 * g
      cut(x) == IF x < 0 THEN 0 ELSE IF x > 255 THEN 255 ELSE x
      near == IF n % 8 = 4 THEN {n \div 8, n \div 8 + 1} ELSE {(n + 4) \div 8}
  IN {cut(x) : x \in near}

-----------------------------------------------------------------------------------
(* grid: intersections of meridians and parallels of a sphere of radius max(w, h)    *)
(* around the camera, projected on the plane of the first frame. Numbers in 1e-5.    *)
(* [tan, sec, sin, cos] of the non-negative angles of each grid size, and 1e-5 deg.  *)
Trig == [a0 |-> <<0, 100000, 0, 100000>>, a15 |-> <<26795, 103528, 25882, 96593>>, a22 |-> <<41421, 108239, 38268, 92388>>,
         a36 |-> <<72654, 123607, 58779, 80902>>, a45 |-> <<100000, 141421, 70711, 70711>>, a60 |-> <<173205, 200000, 86603, 50000>>,
         a67 |-> <<241421, 261313, 92388, 38268>>, a72 |-> <<307768, 323607, 95106, 30902>>, a75 |-> <<373205, 386370, 96593, 25882>>]
Angles(n) == CASE n = 1 -> {"a0"} [] n = 2 -> {"a45"} [] n = 3 -> {"a0", "a60"} [] n = 4 -> {"a22", "a67"}
               [] n = 5 -> {"a0", "a36", "a72"} [] n = 6 -> {"a15", "a45", "a75"}
Mul(a, b) == ((a * (b \div 1000)) \div 100) + ((a * (b % 1000)) \div 100000)
\* the picture of the unit sphere's grid
Meet(n, polar) ==
  UNION {UNION {
    {[x |-> sx * (IF polar THEN Mul(Trig[th][1], Trig[fi][4]) ELSE Trig[fi][1]),
      y |-> sy * (IF polar THEN Mul(Trig[th][1], Trig[fi][3]) ELSE Mul(Trig[th][1], Trig[fi][2]))]
     : sx \in {-1, 1}, sy \in {-1, 1}} : th \in Angles(n)} : fi \in Angles(n)}
Slack == 2000
GridSpot(s, t, m, c, lim) == \* one coordinate: seen place, whether it is visible for sure / perhaps
  LET r == s * (m + c * 100000) + t * 100000
      f == r % 100000
      unsure == f < Slack \/ f > 100000 - Slack
  IN [p |-> Trunc(r, 100000), amb |-> unsure, vis |-> r >= 0 /\ r <= lim * 100000,
      perhaps |-> r >= 0 - Slack /\ r <= lim * 100000 + Slack]
Grid(n, polar, cam, w, h, c, r, t) ==
  LET big == Max2(w, h)
      cells == {LET x == GridSpot(cam.s, cam.t[1], q.x * big, w \div 2, w)
                    y == GridSpot(cam.s, cam.t[2], q.y * big, h \div 2, h)
                IN [show |-> x.perhaps /\ y.perhaps,
                    l |-> [k |-> "cross", cs |-> c, s |-> [x |-> x.p, y |-> y.p, r |-> r, t |-> t,
                                                            amb |-> x.amb \/ y.amb \/ ~x.vis \/ ~y.vis]]] : q \in Meet(n, polar)}
  IN {x.l : x \in {y \in cells : y.show}}
GridMust(ls, x, y) == \E l \in ls : CrossMust(l.s, x, y)
GridMay(ls, x, y) == \E l \in ls : CrossMay(l.s, x, y)
=================================================================================
