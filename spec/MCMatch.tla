------------------------------- MODULE MCMatch -------------------------------
(* The matching loop as an algorithm (take a closest remaining pair, remove    *)
(* its row and column, until nothing is below the threshold) for every small   *)
(* matrix, against the declarative characterisation used to judge the code.    *)
EXTENDS Tracker, TLC
CONSTANTS MaxM, MaxN, Vals, Ts, Both
VARIABLES m, n, D, T, rem, M, done
vars == <<m, n, D, T, rem, M, done>>

Init == /\ m \in 1..MaxM /\ n \in 1..MaxN
        /\ D \in [(1..m) \X (1..n) -> Vals]
        /\ T \in Ts
        /\ rem = (1..m) \X (1..n) /\ M = {} /\ done = FALSE
Cur == Min({D[p] : p \in rem})
Take == /\ rem # {} /\ Cur < T
        /\ \E p \in {q \in rem : D[q] = Cur} :
             /\ M' = M \cup {p}
             /\ rem' = {q \in rem : ~Touching(p, q)}
        /\ UNCHANGED <<m, n, D, T, done>>
Stop == /\ ~done /\ (IF rem = {} THEN TRUE ELSE Cur >= T)
        /\ done' = TRUE /\ UNCHANGED <<m, n, D, T, rem, M>>
Next == Take \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Dist(a, b) == D[<<a, b>>]
Yes(a, b) == TRUE
Good(X) == MatchBad("m", X, 1..m, 1..n, Dist, T, Yes) = {}
OneToOne == \A p, q \in M : p # q => ~Touching(p, q)
Bounded == Cardinality(M) <= MinI(m, n)
ResultGood == done => Good(M)
(* and nothing else is good: the characterisation is exact                     *)
OnlyResults == (Both /\ done) =>
   \A X \in SUBSET ((1..m) \X (1..n)) :
     (Good(X) /\ \A p, q \in X : p # q => ~Touching(p, q))
       <=> X \in GreedyAll({p \in (1..m) \X (1..n) : D[p] < T}, D)
Terminates == <>done
=============================================================================
