-------------------------------- MODULE Canvas --------------------------------
(* The canvas of FixedCamera: the frame at its absolute place over the faded    *)
(* previous canvas. A canvas or frame is [h, w, px], px rows of pixels, a pixel *)
(* three channels of one byte packed into a number; coordinates start at 0.     *)
EXTENDS Integers, Sequences, TLC
LOCAL Byte == 256

\* numpy's rounding: to the nearest, ties to the even neighbour
RoundHalfEven(n, d) ==
  LET q == n \div d  r == n % d
  IN IF 2 * r < d THEN q ELSE IF 2 * r > d THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1

\* side of the canvas for a frame side n and a scale sn/sd
Side(n, sn, sd) == RoundHalfEven(n * sn, sd)

\* first row (column) of the frame on the canvas; the camera moved by m quarter pixels
Origin(side, n, m) == RoundHalfEven(4 * ((side \div 2) - (n \div 2)) - m, 4)

\* is canvas place p covered by the frame side n that starts at o
Covers(o, n, p) == o <= p /\ p < o + n

Channel(v, k) == IF k = 1 THEN v % Byte ELSE IF k = 2 THEN (v \div Byte) % Byte ELSE (v \div (Byte * Byte)) % Byte

\* new is old faded to the share an/ad: the product truncated; where the product is a whole
\* number its floating point image may lie just below it, unless ad is a power of two
FadedByte(old, new, an, ad, exact) ==
  LET p == old * an
  IN new = p \div ad \/ (~exact /\ p % ad = 0 /\ p > 0 /\ new = (p \div ad) - 1)
\* n channels below b packed into one number
RECURSIVE Faded(_, _, _, _, _, _, _)
Faded(old, new, an, ad, exact, n, b) ==
  IF n = 1 THEN FadedByte(old, new, an, ad, exact)
  ELSE FadedByte(old % b, new % b, an, ad, exact) /\ Faded(old \div b, new \div b, an, ad, exact, n - 1, b)
Fade(old, an, ad) == ((Channel(old, 1) * an) \div ad) + Byte * ((Channel(old, 2) * an) \div ad)
                     + Byte * Byte * ((Channel(old, 3) * an) \div ad)

\* the transition: canvas c after frame f with camera movement (mx, my)
Adjust(c, f, mx, my, an, ad) ==
  LET oy == Origin(c.h, f.h, my)  ox == Origin(c.w, f.w, mx)
  IN [c EXCEPT !.px = [y \in 1..c.h |-> [x \in 1..c.w |->
        IF Covers(oy, f.h, y - 1) /\ Covers(ox, f.w, x - 1) THEN f.px[y - oy][x - ox]
        ELSE Fade(c.px[y][x], an, ad)]]]
Empty(h, w) == [h |-> h, w |-> w, px |-> [y \in 1..h |-> [x \in 1..w |-> 0]]]

\* the same by cutting rectangles out of both pictures: frame side n at o, canvas side s
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
CutFrom(o) == Max2(0 - o, 0)
CutTo(o, n, s) == Max2(Min2(s - o, n), CutFrom(o))
===============================================================================
