-------------------------------- MODULE Motion ---------------------------------
(* Camera motion: transformations, the getters that accumulate them over        *)
(* changes of the reference frame, and the estimator that feeds them.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

SC == 1024
BIG == 1073741824
AbsI(a) == IF a < 0 THEN -a ELSE a
MaxI(a, b) == IF a > b THEN a ELSE b
VAdd(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
VSub(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]

-----------------------------------------------------------------------------
(* Homographies: integer 3x3 matrices up to a factor.                          *)
Ident == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN AbsI(a) ELSE Gcd(b, AbsI(a) % AbsI(b))
Norm(m) == LET g == FoldLeft(LAMBDA x, y : Gcd(x, y), 0, FlattenSeq(m))
           IN IF g <= 1 THEN m
              ELSE [i \in 1..3 |-> [j \in 1..3 |->
                      IF m[i][j] < 0 THEN -((-m[i][j]) \div g) ELSE m[i][j] \div g]]
MMul(a, b) == Norm([i \in 1..3 |-> [j \in 1..3 |->
                 a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j]]])
Adj(m) == Norm(<<
  << m[2][2]*m[3][3] - m[2][3]*m[3][2], m[1][3]*m[3][2] - m[1][2]*m[3][3], m[1][2]*m[2][3] - m[1][3]*m[2][2] >>,
  << m[2][3]*m[3][1] - m[2][1]*m[3][3], m[1][1]*m[3][3] - m[1][3]*m[3][1], m[1][3]*m[2][1] - m[1][1]*m[2][3] >>,
  << m[2][1]*m[3][2] - m[2][2]*m[3][1], m[1][2]*m[3][1] - m[1][1]*m[3][2], m[1][1]*m[2][2] - m[1][2]*m[2][1] >> >>)
Row(m, i, p) == m[i][1] * p[1] + m[i][2] * p[2] + m[i][3]
\* image of an integer point as <<numerators, denominator>> with den > 0
Img(m, p) == LET d == Row(m, 3, p) s == IF d < 0 THEN -1 ELSE 1
             IN << << s * Row(m, 1, p), s * Row(m, 2, p) >>, AbsI(d) >>

RECURSIVE Dig(_, _, _)
Dig(rem, den, k) == IF k = 0 THEN 0
  ELSE ((rem * 16) \div den) * 16^(k-1) + Dig((rem * 16) % den, den, k - 1)
\* num/den in units of 1/1024 (16^2 * 4)
Rat(num, den) == IF num < 0 THEN -((AbsI(num) \div den) * SC + Dig(AbsI(num) % den, den, 3) \div 4)
                 ELSE (num \div den) * SC + Dig(num % den, den, 3) \div 4
ImgS(m, p) == LET q == Img(m, p) IN << Rat(q[1][1], q[2]), Rat(q[1][2], q[2]) >>

-----------------------------------------------------------------------------
(* The translation getter: flow in units of 1/64, bins of bn/bd pixels.        *)
FloorDiv(a, b) == a \div b
\* the bins a flow may be rounded to (two at a tie)
Bins(v, bn, bd) == LET t == 2 * v * bd  w == 128 * bn   \* v/64 / (bn/bd) = t/w
                   IN {k \in {FloorDiv(t, w), FloorDiv(t, w) + 1} : AbsI(2 * (t - k * w)) <= w}
Bin(v, bn, bd) == CHOOSE k \in Bins(v, bn, bd) : TRUE
FlowBins(flow, bn, bd) == [i \in DOMAIN flow |-> <<Bin(flow[i][1], bn, bd), Bin(flow[i][2], bn, bd)>>]
Votes(bins, b) == Cardinality({i \in DOMAIN bins : bins[i] = b})
Modes(bins) == LET R == {bins[i] : i \in DOMAIN bins}
                   m == Max({Votes(bins, b) : b \in R})
               IN {b \in R : Votes(bins, b) = m}

(* One call: data is the accumulated motion (of the reference frame).          *)
\* renewed iff the agreeing share is below thr percent
Renew(count, total, thr) == count * 100 < thr * total
===============================================================================
