------------------------------- MODULE MCHelpers ---------------------------------
(* Every pair of corners around a small image.                                          *)
EXTENDS Helpers
CONSTANTS H, W, Out
VARIABLES p
Img == [y \in 1..H |-> [x \in 1..W |-> 100 * y + x]]
Init == p = <<>>
Next == \/ p = <<>> /\ \E x \in 0-Out..W+Out, y \in 0-Out..H+Out : p' = <<<<x, y>>>>
        \/ Len(p) = 1 /\ \E x \in 0-Out..W+Out, y \in 0-Out..H+Out : p' = Append(p, <<x, y>>)
Spec == Init /\ [][Next]_<<p>>
\* exactly the pixels inside of the rectangle, in place
Exact == Len(p) = 2 =>
  LET c == Cutout(Img, p)
      in(x, y) == Lowest(p, 1) <= x /\ x < Highest(p, 1) /\ Lowest(p, 2) <= y /\ y < Highest(p, 2)
  IN {c[y][x] : y \in DOMAIN c, x \in IF c = <<>> THEN {} ELSE DOMAIN c[1]}
     = {Img[y][x] : y \in {b \in 1..H : \E a \in 1..W : in(a - 1, b - 1)}, x \in {a \in 1..W : \E b \in 1..H : in(a - 1, b - 1)}}
Ordered == Len(p) = 2 => LET c == Cutout(Img, p) IN
  \A y \in DOMAIN c : \A x \in DOMAIN c[y] : c[y][x] = c[1][1] + 100 * (y - 1) + (x - 1)
Symmetric == Len(p) = 2 => Cutout(Img, p) = Cutout(Img, <<p[2], p[1]>>)
ASSUME Decimal(<<24>>) = "1.5000" /\ Decimal(<<>>) = "None" /\ Decimal(<<-1>>) = "-0.0625"
==================================================================================
