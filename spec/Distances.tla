------------------------------ MODULE Distances -------------------------------
(* The predefined distances on integer coordinates.  A value is a fixed point  *)
(* number with U units per one; points are sequences of coordinate sequences,  *)
(* a box is two points.  Undefined values (0/0) are UNDEF.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

U == 65536
BIG == 1073741824
UNDEF == -BIG
AbsI(a) == IF a < 0 THEN -a ELSE a
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
SumS(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
MaxS(s) == FoldLeft(MaxI, 0, s)

\* num / den in U units, for 0 <= num (long division in base 16)
RECURSIVE Dig(_, _, _)
Dig(rem, den, k) == IF k = 0 THEN 0
  ELSE ((rem * 16) \div den) * 16^(k-1) + Dig((rem * 16) % den, den, k - 1)
Rat(num, den) == IF den = 0 THEN UNDEF ELSE (num \div den) * U + Dig(num % den, den, 4)

\* floor(sqrt(n))
RECURSIVE Bis(_, _, _)
Bis(n, lo, hi) == IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Bis(n, m, hi) ELSE Bis(n, lo, m)
ISqrt(n) == Bis(n, 0, 46340)
\* sqrt(n) in U units; the more digits the smaller n
Sqrt(n) == IF n < 256 THEN ISqrt(n * 4194304) * 32          \* 2^22 = (2^11)^2
           ELSE IF n < 4096 THEN ISqrt(n * 262144) * 128    \* 2^18 = (2^9)^2
           ELSE ISqrt(n * 4096) * 1024                      \* n < 2^19
\* twice the error bound of Sqrt
SqrtTol(n) == IF n < 256 THEN 64 ELSE IF n < 4096 THEN 256 ELSE 2048

Dim(a) == Len(a[1])
Diff(a, b) == [i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> AbsI(a[i][j] - b[i][j])]]
Sq(v) == [j \in DOMAIN v |-> v[j] * v[j]]
PtSq(a, b) == [i \in DOMAIN a |-> SumS(Sq(Diff(a, b)[i]))]
FlatP(a) == FlattenSeq(a)
FD(a, b) == FlatP(Diff(a, b))

Area(b) == (b[2][1] - b[1][1]) * (b[2][2] - b[1][2])
Inter(a, b) ==
  MaxI(0, MinI(a[2][1], b[2][1]) - MaxI(a[1][1], b[1][1]))
  * MaxI(0, MinI(a[2][2], b[2][2]) - MaxI(a[1][2], b[1][2]))
Union2(a, b) == Area(a) + Area(b) - Inter(a, b)

\* contingency counts of 0/1 vectors
Cnt(x, y, p, q) == Cardinality({i \in DOMAIN x : x[i] = p /\ y[i] = q})
Dot(x, y) == SumS([i \in DOMAIN x |-> x[i] * y[i]])
Centered(x) == LET s == SumS(x) IN [i \in DOMAIN x |-> Len(x) * x[i] - s]
CosDist(x, y) ==
  LET n == Dot(x, x) * Dot(y, y)  s == Dot(x, y)
      k == IF n < 1024 THEN 1024 ELSE IF n < 262144 THEN 64 ELSE 8   \* n < 2^25
      r == ISqrt(n * k * k)
  IN IF n = 0 THEN UNDEF ELSE IF s >= 0 THEN U - Rat(s * k, r) ELSE U + Rat(-s * k, r)

(* The distance with name m between candidate a and object b; q carries the    *)
(* parameters of the parametric ones and the scores.                           *)
Value(m, a, b, q) ==
  LET x == FlatP(a)  y == FlatP(b)  n == Len(x)
      tt == Cnt(x, y, 1, 1)  tf == Cnt(x, y, 1, 0)  ft == Cnt(x, y, 0, 1)  ff == Cnt(x, y, 0, 0)
  IN CASE m \in {"cityblock"} -> Rat(SumS(FD(a, b)), 1)
       [] m = "mean_manhattan" -> Rat(SumS(FD(a, b)), Len(a))
       [] m = "chebyshev" -> Rat(MaxS(FD(a, b)), 1)
       [] m = "sqeuclidean" -> Rat(SumS(Sq(FD(a, b))), 1)
       [] m \in {"euclidean", "frobenius", "minkowski"} -> Sqrt(SumS(Sq(FD(a, b))))
       [] m = "mean_euclidean" ->
            SumS([i \in DOMAIN a |-> Sqrt(PtSq(a, b)[i])]) \div Len(a)
       [] m \in {"iou", "iou_opt"} -> IF Union2(a, b) = 0 THEN UNDEF ELSE U - Rat(Inter(a, b), Union2(a, b))
       [] m = "voting" ->
            Rat(1, 1 + Cardinality({i \in DOMAIN a : PtSq(a, b)[i] < q.kt * q.kt
                                        /\ q.ca[i] > q.st /\ q.cb[i] > q.st}))
       [] m = "normalized" ->
            SumS([i \in DOMAIN a |->
                LET dx == Diff(a, b)[i][1] * q.h  dy == Diff(a, b)[i][2] * q.w
                IN Rat(Sqrt(dx * dx + dy * dy) \div 16, q.w * q.h * (U \div 16))]) \div Len(a)
       [] m = "canberra" -> SumS([i \in DOMAIN x |->
                IF x[i] = 0 /\ y[i] = 0 THEN 0 ELSE Rat(FD(a, b)[i], AbsI(x[i]) + AbsI(y[i]))])
       [] m = "braycurtis" -> Rat(SumS(FD(a, b)), SumS([i \in DOMAIN x |-> AbsI(x[i] + y[i])]))
       [] m \in {"hamming", "matching"} -> Rat(Cardinality({i \in DOMAIN x : x[i] # y[i]}), n)
       [] m = "cosine" -> CosDist(x, y)
       [] m = "correlation" -> CosDist(Centered(x), Centered(y))
       [] m = "dice" -> Rat(tf + ft, 2 * tt + tf + ft)
       [] m = "jaccard" -> Rat(tf + ft, tt + tf + ft)
       [] m = "rogerstanimoto" -> Rat(2 * (tf + ft), tt + ff + 2 * (tf + ft))
       [] m = "russellrao" -> Rat(n - tt, n)
       [] m = "sokalsneath" -> Rat(2 * (tf + ft), tt + 2 * (tf + ft))
       [] m = "yule" -> IF tf * ft = 0 THEN UNDEF ELSE Rat(2 * tf * ft, tt * ff + tf * ft)
       [] m = "asym" -> Rat(x[1] + 50 * y[1] + 7 * y[n], 1)
       [] OTHER -> UNDEF

Tol(m, a, b, q) ==
  CASE m \in {"euclidean", "frobenius", "minkowski"} -> 8 + SqrtTol(SumS(Sq(FD(a, b))))
    [] m = "mean_euclidean" -> 8 + MaxS([i \in DOMAIN a |-> SqrtTol(PtSq(a, b)[i])])
    [] m = "normalized" ->
         64 + MaxS([i \in DOMAIN a |->
                LET dx == Diff(a, b)[i][1] * q.h  dy == Diff(a, b)[i][2] * q.w
                IN SqrtTol(dx * dx + dy * dy) \div (q.w * q.h)])
    [] m \in {"cosine", "correlation"} -> 100
    [] m = "canberra" -> 8 + Len(a) * Len(a[1])
    [] OTHER -> 8

Near(v, e, tol) == IF e = UNDEF THEN TRUE ELSE AbsI(v - e) <= tol
===============================================================================
