------------------------------ MODULE MatchTrace -----------------------------
(* One event = one update with nd detections on no objects of one pool with    *)
(* the given distance matrix; pairs is what the real tracker matched.          *)
EXTENDS Tracker, TraceBase
MInit(tr) == 0
MStep(tr, st, ev) ==
  LET d(i, o) == ev.D[i][o]
      yes(i, o) == TRUE
      P == ToSet(ev.pairs)
      bad == IF ev.exc # "" THEN {"exc:" \o ev.exc}
             ELSE MatchBad("m1", P, 1..ev.nd, 1..ev.no, d, ev.T, yes)
                  \cup (IF \E p, q \in P : p # q /\ Touching(p, q) THEN {"det:twice"} ELSE {})
                  \cup (IF Cardinality(P) + ev.births # ev.nd THEN {"det:lost"} ELSE {})
  IN [st |-> 0, bad |-> bad, go |-> TRUE]
=============================================================================
