-------------------------------- MODULE Filter --------------------------------
(* The predictive filters: one independent constant-velocity Kalman filter per *)
(* coordinate.  All numbers are fixed point with SC units per pixel (or pixel  *)
(* squared).  A coordinate is [x, v, p, c, w]: position, velocity and the      *)
(* covariance matrix <<p, c>>, <<c, w>>.  Parameters are                       *)
(*   kind  "kalman" (covariances grow with every prediction), "opt" (once per  *)
(*         match), "none" (no prediction, the measurement is taken)            *)
(*   r, qp, qv measurement and process noise; p0, c0, w0 initial covariances.  *)
EXTENDS Integers, Sequences

SC == 4096
Mul(a, b) == a * (b \div SC) + (a * (b % SC)) \div SC
RECURSIVE Digits(_, _, _)
Digits(rem, den, k) == IF k = 0 THEN 0
  ELSE LET y == rem * 16 IN (y \div den) * 16^(k-1) + Digits(y % den, den, k - 1)
\* num / den in SC units (den > 0)
Ratio(num, den) == (num \div den) * SC + Digits(num % den, den, 3)

Start(f, z) == [x |-> z, v |-> 0, p |-> f.p0, c |-> f.c0, w |-> f.w0]

Grow(f, s) == [s EXCEPT !.p = @ + 2 * s.c + s.w + f.qp, !.c = @ + s.w, !.w = @ + f.qv]

(* a frame passes                                                              *)
Predict(f, s) ==
  IF f.kind = "none" THEN s
  ELSE LET m == [s EXCEPT !.x = @ + s.v]
       IN IF f.kind = "kalman" THEN Grow(f, m) ELSE m

GainP(f, g) == Ratio(g.p, g.p + f.r)
GainV(f, g) == Ratio(g.c, g.p + f.r)

(* a match; measured tells whether this coordinate was measured                *)
Correct(f, s, z, measured) ==
  IF f.kind = "none" THEN (IF measured THEN [s EXCEPT !.x = z] ELSE s)
  ELSE LET g == IF f.kind = "opt" THEN Grow(f, s) ELSE s
           kp == GainP(f, g)  kv == GainV(f, g)  e == z - s.x
       IN IF ~measured THEN g
          ELSE [x |-> s.x + Mul(kp, e), v |-> s.v + Mul(kv, e),
                p |-> Mul(kp, f.r), c |-> Mul(kv, f.r),   \* (1 - kp) * p = kp * r
                w |-> g.w - Mul(kv, g.c)]

(* what the tracker adds: seen tells whether the point was trusted before      *)
Hit(f, s, z, measured, seen) ==
  LET u == Correct(f, s, z, measured)
  IN IF seen THEN u
     ELSE [u EXCEPT !.v = 0, !.x = IF measured THEN z ELSE @]
===============================================================================
