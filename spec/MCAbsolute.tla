------------------------------- MODULE MCAbsolute --------------------------------
(* Trails: objects come, move, die for a while and are drawn under a moving camera;  *)
(* a log of everything drawn is kept as a ghost.                                     *)
EXTENDS Absolute
CONSTANTS H, Steps, Xs, Moves, N
M1 == {<<0, 0>>, <<1, -2>>}
M2 == {<<0, 0>>, <<1, -2>>, <<-3, 1>>}
VARIABLES past, log, ls, cam, drawn
vars == <<past, log, ls, cam, drawn>>
\* (the camera zooms in and out)
Cam(t, k) == [s |-> 1 + (k % 2), t |-> t, exact |-> TRUE]
Init == /\ past = [x \in {} |-> 0] /\ log = [i \in {1, 2} |-> <<>>] /\ ls = <<>>
        /\ cam = Cam(<<0, 0>>, 0) /\ drawn = 0
States == [pres : BOOLEAN, live : BOOLEAN, x : Xs]
Next == /\ drawn < Steps
        /\ \E a \in States, b \in States, m \in Moves :
           LET want == SelectSeq(<<1, 2>>, LAMBDA i : (IF i = 1 THEN a ELSE b).pres)
               objs == [j \in DOMAIN want |-> LET q == IF want[j] = 1 THEN a ELSE b
                          IN [id |-> want[j], live |-> q.live, pts |-> << <<16 * q.x, 16 * want[j]>> >>, c |-> 100 * want[j]]]
               T == Trails(Cam(m, drawn), objs, past, H, 0, 1)
           IN /\ (a.pres \/ a = [pres |-> FALSE, live |-> FALSE, x |-> 0])
              /\ (b.pres \/ b = [pres |-> FALSE, live |-> FALSE, x |-> 0])
              /\ past' = T.past /\ ls' = T.ls /\ cam' = Cam(m, drawn) /\ drawn' = drawn + 1
              /\ log' = [i \in {1, 2} |-> LET q == IF i = 1 THEN a ELSE b
                           IN IF q.pres /\ q.live THEN Append(log[i], << <<16 * q.x, 16 * i>> >>) ELSE log[i]]
Spec == Init /\ [][Next]_vars
(* what is remembered is the end of what was drawn, the latest first               *)
Memory == \A i \in {1, 2} : LET p == PastOf(past, i)  n == Len(log[i]) IN
  Len(p) = Min2(n, H) /\ \A k \in DOMAIN p : p[k] = log[i][n - k + 1]
(* every trail is a chain that starts at the disc                                  *)
Chain == \A k \in DOMAIN ls : (ls[k].k = "segs" /\ ls[k - 1].k = "disc") =>
  ls[k].segs[1].a.x = ls[k - 1].s.x /\ ls[k].segs[1].a.y = ls[k - 1].s.y
Chained == \A k \in DOMAIN ls : (ls[k].k = "segs" /\ ls[k - 1].k = "segs") => ls[k].segs[1].a = ls[k - 1].segs[1].b /\ ls[k].cs = ls[k - 1].cs
(* the camera moves the picture and nothing else: pixels seen from the moved camera *)
(* are those of the resting one, moved                                             *)
Unmoved(l) == IF l.k = "disc" THEN [l EXCEPT !.s.x = @ - cam.t[1], !.s.y = @ - cam.t[2]]
              ELSE [l EXCEPT !.segs = [j \in DOMAIN @ |-> [a |-> [@[j].a EXCEPT !.x = @ - cam.t[1], !.y = @ - cam.t[2]],
                                                            b |-> [@[j].b EXCEPT !.x = @ - cam.t[1], !.y = @ - cam.t[2]]]]]
Follows == \A x \in 0..N, y \in 0..N :
  Through(ls, 1, x + cam.t[1], y + cam.t[2], N, N, <<7, 7>>) = Through([k \in DOMAIN ls |-> Unmoved(ls[k])], 1, x, y, N, N, <<7, 7>>)
(* an object is shown where it is in the world, seen from the camera               *)
Seen == \A k \in DOMAIN ls : ls[k].k = "disc" =>
  LET w == PastOf(past, ls[k].cs \div 100)[1][1]
  IN ls[k].s.x = cam.s * (w[1] \div 16) + cam.t[1] /\ ls[k].s.y = cam.s * (w[2] \div 16) + cam.t[2]
(* levels stay between the background and the colors, intervals are intervals, and *)
(* what is due is allowed                                                          *)
Sound == \A x \in 0..N, y \in 0..N : LET v == Through(ls, 1, x, y, N, N, <<7, 7>>) IN
  /\ v[1] <= v[2] /\ v[1] >= 7 /\ v[2] <= 200
  /\ (\A k \in DOMAIN ls : ls[k].k = "segs" => \A j \in DOMAIN ls[k].segs :
        SegMust(ls[k].segs[j], x, y, N, N) => SegMay(ls[k].segs[j], ls[k].t, x, y, N, N))
Fading == \A i \in 1..H - 1 : Weight(H, i)[1] * Weight(H, i + 1)[2] > Weight(H, i + 1)[1] * Weight(H, i)[2]
ASSUME FadingAssumed == Fading /\ Weight(H, 1)[1] * 100 = 99 * Weight(H, 1)[2] /\ (H > 1 => Weight(H, H)[1] * 100 = Weight(H, H)[2])
(* the grid is symmetric about the center, and in both ways of looking at it holds  *)
(* a picture of the pole                                                           *)
ASSUME Symmetric == \A n \in 1..6, p \in BOOLEAN : LET M == Meet(n, p) IN
  \A q \in M : [x |-> 0 - q.x, y |-> q.y] \in M /\ [x |-> q.x, y |-> 0 - q.y] \in M
ASSUME Sizes == \A n \in 1..6, p \in BOOLEAN : Cardinality(Meet(n, p)) <= n * n /\ (n % 2 = 1 => [x |-> 0, y |-> 0] \in Meet(n, p))
(* sin and cos of the table are on the circle, tan and sec belong to them           *)
ASSUME Circle == \A a \in DOMAIN Trig : LET v == Trig[a] e == 8 IN
  /\ Abs(Mul(v[3], v[3]) + Mul(v[4], v[4]) - 100000) <= e
  /\ Abs(Mul(v[1], v[4]) - v[3]) <= e /\ Abs(Mul(v[2], v[4]) - 100000) <= e
=================================================================================
