------------------------------- MODULE MCCanvas -------------------------------
(* Every sequence of camera movements over a small canvas: what is shown is the *)
(* latest frame at its place and, elsewhere, older frames faded once per step.  *)
EXTENDS Canvas, FiniteSets
CONSTANTS FH, FW, SN, SD, Moves, Depth
VARIABLES canvas, k, hist
vars == <<canvas, k, hist>>
H == Side(FH, SN, SD)
W == Side(FW, SN, SD)
\* step i shows a frame whose pixels tell step and place
Frame(i) == [h |-> FH, w |-> FW, px |-> [y \in 1..FH |-> [x \in 1..FW |-> 64 + 16 * i + 4 * y + x]]]
MovesQuick == <<-24, -8, -6, -2, 0, 1, 3, 4, 10, 40>>
MovesBig == [i \in 1..31 |-> 2 * i - 32]
Init == canvas = Empty(H, W) /\ k = 0 /\ hist = <<>>
Next == /\ k < Depth
        /\ \E mx \in {Moves[i] : i \in DOMAIN Moves}, my \in {Moves[i] : i \in DOMAIN Moves} :
             /\ canvas' = Adjust(canvas, Frame(k + 1), mx, my, 1, 2)
             /\ hist' = Append(hist, <<Origin(W, FW, mx), Origin(H, FH, my)>>)
        /\ k' = k + 1
Spec == Init /\ [][Next]_vars
Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] OTHER -> 16
\* the latest step that covered a place
LastAt(y, x) == LET s == {i \in DOMAIN hist : Covers(hist[i][2], FH, y) /\ Covers(hist[i][1], FW, x)}
                IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i
ShowsLatest ==
  \A y \in 0..H-1, x \in 0..W-1 :
    LET i == LastAt(y, x)
    IN canvas.px[y+1][x+1] = IF i = 0 THEN 0
       ELSE (Frame(i).px[y - hist[i][2] + 1][x - hist[i][1] + 1]) \div Pow2(k - i)
\* cutting rectangles gives the same area, and never reaches outside of either picture
CutsAgree ==
  \A i \in DOMAIN hist : LET o == hist[i][2]  a == CutFrom(o)  b == CutTo(o, FH, H) IN
    /\ a >= 0 /\ b >= a
    /\ {y \in 0..H-1 : Covers(o, FH, y)} = {o + j : j \in a..b-1}
SizeKept == canvas.h = H /\ canvas.w = W /\ DOMAIN canvas.px = 1..H
Centered == \A n \in 1..6 : \A s \in n..12 : LET o == Origin(s, n, 0) IN (s - n) - 2 * o \in {-1, 0, 1}
\* what the camera shows m pixels further keeps its place on the canvas
WorldStays == \A n \in 1..6 : \A s \in n..12 : \A m \in -9..9 :
  /\ Origin(s, n, 4 * m) + m = Origin(s, n, 0)
  /\ Origin(s, n, 4 * m + 1) \in {Origin(s, n, 4 * m), Origin(s, n, 4 * m) - 1}
===============================================================================
