--------------------------------- MODULE Helpers ---------------------------------
(* The table of tracked objects and cut-outs of images.                                 *)
EXTENDS Integers, Sequences, TLC
Frac16 == <<"0000", "0625", "1250", "1875", "2500", "3125", "3750", "4375", "5000", "5625", "6250", "6875", "7500", "8125", "8750", "9375">>
\* an optional number in sixteenths with four decimals
Decimal(d) == IF d = <<>> THEN "None" ELSE
              IF d[1] < 0 THEN "-" \o ToString((0 - d[1]) \div 16) \o "." \o Frac16[((0 - d[1]) % 16) + 1]
              ELSE ToString(d[1] \div 16) \o "." \o Frac16[(d[1] % 16) + 1]
Frac2 == <<"00", "06", "12", "19", "25", "31", "38", "44", "50", "56", "62", "69", "75", "81", "88", "94">>
\* the same with two decimals
Short(d) == IF d = <<>> THEN "None" ELSE
            IF d[1] < 0 THEN "-" \o ToString((0 - d[1]) \div 16) \o "." \o Frac2[((0 - d[1]) % 16) + 1]
            ELSE ToString(d[1] \div 16) \o "." \o Frac2[(d[1] % 16) + 1]
Opt(n) == IF n = <<>> THEN "None" ELSE ToString(n[1])
\* the row of an object: id, age, hit counter, last distance, initializing id
TableRow(o) == <<Opt(o.id), ToString(o.age), ToString(o.hit), Decimal(o.dist), Opt(o.init)>>

\* an object as text
Repr(o) == "Object_" \o Opt(o.id) \o "(age: " \o ToString(o.age) \o ", hit_counter: " \o ToString(o.hit)
           \o ", last_distance: " \o Short(o.dist) \o ", init_id: " \o Opt(o.init) \o ")"

Clamp(v, n) == IF v < 0 THEN 0 ELSE IF v > n THEN n ELSE v
RECURSIVE Lowest(_, _), Highest(_, _)
Lowest(p, k) == IF Len(p) = 1 THEN p[1][k] ELSE LET m == Lowest(Tail(p), k) IN IF p[1][k] < m THEN p[1][k] ELSE m
Highest(p, k) == IF Len(p) = 1 THEN p[1][k] ELSE LET m == Highest(Tail(p), k) IN IF p[1][k] > m THEN p[1][k] ELSE m
\* rows of the cut-out of image img (rows of pixels); none if it is empty
Cutout(img, p) ==
  LET h == Len(img)  w == Len(img[1])
      x0 == Clamp(Lowest(p, 1), w)  x1 == Clamp(Highest(p, 1), w)
      y0 == Clamp(Lowest(p, 2), h)  y1 == Clamp(Highest(p, 2), h)
  IN IF x1 <= x0 \/ y1 <= y0 THEN <<>> ELSE [y \in 1..y1-y0 |-> [x \in 1..x1-x0 |-> img[y0 + y][x0 + x]]]
==================================================================================
