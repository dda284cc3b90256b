--------------------------------- MODULE MCDraw ----------------------------------
(* The picture model itself: on a small picture every place, size and thickness of   *)
(* the shapes, two layers deep, and the fading of a trail until it is gone.           *)
EXTENDS Draw
CONSTANTS N, Steps, An, Ad
VARIABLES ls, mask, k
vars == <<ls, mask, k>>
P == 0..N-1
Shapes(c) ==
  {[k |-> "disc", x |-> x, y |-> y, r |-> r, t |-> t, cs |-> {c}, amb |-> FALSE]
     : x \in {-2, 1, N}, y \in {-1, 2}, r \in 0..2, t \in {-1, 1, 2}}
  \cup {[k |-> "rect", x |-> x, y |-> y, x2 |-> z, y2 |-> y + 1, t |-> t, cs |-> {c}, amb |-> FALSE]
     : x \in {-2, 1}, y \in {0, 3}, z \in {1, N + 1}, t \in {-1, 1, 3}}
Init == ls = <<>> /\ mask = 0 /\ k = 0
Paint == /\ k = 0 /\ Len(ls) < 2 /\ \E s \in Shapes(Len(ls) + 1) : ls' = Append(ls, s)
         /\ UNCHANGED <<mask, k>>
Hit == ls = <<>> /\ k = 0 /\ mask' \in {0, 255, 65536 * 200, 128 * 256} /\ k' = 1 /\ UNCHANGED ls
FadeStep == /\ k > 0 /\ k <= Steps /\ \E m \in FadeSet(mask, An, Ad, FALSE) : mask' = m
            /\ k' = k + 1 /\ UNCHANGED ls
Next == Paint \/ Hit \/ FadeStep
Spec == Init /\ [][Next]_vars
\* what is due is also allowed
DueAllowed == \A i \in DOMAIN ls : \A x \in P, y \in P : Must(ls[i], x, y) => May(ls[i], x, y)
\* colors only come from layers or from the picture; the last due layer decides
Sound == \A x \in P, y \in P : LET v == Painted(ls, 1, x, y, {0}) IN
  /\ v # {} /\ v \subseteq 0..Len(ls)
  /\ (\A i \in DOMAIN ls : ~May(ls[i], x, y)) => v = {0}
  /\ \A i \in DOMAIN ls : (Must(ls[i], x, y) /\ \A j \in i+1..Len(ls) : ~May(ls[j], x, y)) => v = {i}
\* a trail never brightens, and is gone in the end
Fading == [][k > 0 => \A c \in 1..3 : Byte(mask', c) <= Byte(mask, c)]_vars
Gone == k > Steps => mask = 0
Dashes == \A l \in {<<>>, <<"a">>, <<"">>}, i \in {<<>>, <<7>>}, s \in {<<>>, <<9>>} : \A wl \in BOOLEAN, wi \in BOOLEAN, ws \in BOOLEAN :
  LET n == (IF wl /\ l = <<"a">> THEN 1 ELSE 0) + (IF wi /\ i # <<>> THEN 1 ELSE 0) + (IF ws /\ s # <<>> THEN 1 ELSE 0)
      t == Text([lab |-> l, id |-> i, sc |-> s], wl, wi, ws)
  IN t = (CASE n = 0 -> "" [] n = 3 -> "a-7-0.5625"
            [] OTHER -> Dashed((IF wl /\ l = <<"a">> THEN <<"a">> ELSE <<>>) \o (IF wi /\ i # <<>> THEN <<"7">> ELSE <<>>)
                               \o (IF ws /\ s # <<>> THEN <<"0.5625">> ELSE <<>>)))
ASSUME DashesAssumed == Dashes
ASSUME HexColor(<<15, 0, 1>>) = HexColor(<<15, 15, 0, 0, 1, 1>>) /\ Css["red"] = HexColor(<<15, 15, 0, 0, 0, 0>>)
=================================================================================
