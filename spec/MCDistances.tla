------------------------------ MODULE MCDistances --------------------------------
(* Laws of the documented distances on every small pair of inputs (the values     *)
(* the conformance check demands of the code are the values checked here).        *)
EXTENDS Distances, TLC
CONSTANTS G, W
VARIABLES kind, a, b
vars == <<kind, a, b>>
Boxes == {<< <<p, q>>, <<r, s>> >> : p, q, r, s \in G}
Good(x) == x[1][1] < x[2][1] /\ x[1][2] < x[2][2]
Init == /\ kind \in {"box", "pts"}
        /\ a \in Boxes /\ b = a
        /\ kind = "box" => Good(a)
Next == /\ a = b /\ b' \in Boxes /\ b' # a /\ UNCHANGED <<kind, a>>
        /\ kind = "box" => Good(b')
Spec == Init /\ [][Next]_vars
Q == [kt |-> 2, st |-> 3, ca |-> <<5, 5>>, cb |-> <<5, 3>>, w |-> W, h |-> 2 * W]
V(m) == Value(m, a, b, Q)
S(m) == Value(m, b, a, Q)
Sym == \A m \in {"frobenius", "mean_euclidean", "mean_manhattan", "normalized"} : V(m) = S(m)
Iou == kind = "box" => /\ V("iou") >= 0 /\ V("iou") <= U /\ V("iou") = S("iou")
                       /\ ((V("iou") = U) <=> Inter(a, b) = 0) /\ (V("iou") = 0 <=> a = b)
Zero == \A m \in {"frobenius", "mean_euclidean", "mean_manhattan", "normalized"} : V(m) = 0 <=> a = b
Voting == V("voting") \in {U, U \div 2} /\ ((V("voting") = U \div 2) <=> PtSq(a, b)[1] < 4)
Order == /\ V("chebyshev") <= V("frobenius") + SqrtTol(0)
         /\ V("frobenius") <= V("cityblock") + SqrtTol(0)
         /\ V("mean_euclidean") <= V("mean_manhattan") + SqrtTol(0)
         /\ V("mean_manhattan") * 2 = V("cityblock")
Pyth == \A x \in {V("frobenius") \div 32} :
          AbsI((x \div 64) * (x \div 64) - SumS(Sq(FD(a, b))) * 1024) <= 3 * ((x \div 64) + 1)
==================================================================================
