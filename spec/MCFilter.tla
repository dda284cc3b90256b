------------------------------- MODULE MCFilter ---------------------------------
(* One coordinate of one object under every short schedule of frames, matches,  *)
(* partial matches and measurements: the laws a filter has to obey.             *)
EXTENDS Filter, TLC
CONSTANTS Kinds, Rs, Qs, P0s, W0s, Zs, MaxStep
VARIABLES f, s, seen, t, act, pre, zz
vars == <<f, s, seen, t, act, pre, zz>>

Init == /\ \E k \in Kinds, r \in Rs, q \in Qs, p \in P0s, w \in W0s :
             f = [kind |-> k, r |-> r, qp |-> IF k = "kalman" THEN SC ELSE q, qv |-> q,
                  p0 |-> IF k = "kalman" THEN SC ELSE p, c0 |-> 0, w0 |-> w]
        /\ seen \in BOOLEAN
        /\ s = Start(f, 0) /\ t = 0 /\ act = "start" /\ pre = s /\ zz = 0

Next == /\ t < MaxStep /\ t' = t + 1 /\ f' = f
        /\ \E a \in {"predict", "hit", "partial"} :
             /\ act' = a
             /\ IF a = "predict"
                THEN /\ s' = Predict(f, s) /\ pre' = s /\ seen' = seen /\ zz' = 0
                ELSE \E z \in Zs : \E m \in {a = "hit"} : \E p \in {Predict(f, s)} :
                     /\ pre' = p /\ zz' = z * SC
                     /\ s' = Hit(f, p, z * SC, m, seen)
                     /\ seen' = (seen \/ m)
Spec == Init /\ [][Next]_vars

Between(a, x, b) == (a - 2 <= x /\ x <= b + 2) \/ (b - 2 <= x /\ x <= a + 2)
CovPositive == s.p > 0 /\ s.w > 0 /\ (s.p \div 64) * (s.w \div 64) - (s.c \div 64) * (s.c \div 64) >= -2048
BetweenLaw == act = "hit" => Between(pre.x, s.x, zz)
NoMoveLaw == (act = "hit" /\ zz = pre.x) => s.x = pre.x /\ (seen => s.v = pre.v \/ s.v = 0)
UntrustedLaw == act = "partial" => s.x = pre.x
UnseenStill == ~seen => s.v = 0
SharperLaw == act = "hit" => s.p <= (IF f.kind = "opt" THEN Grow(f, pre) ELSE pre).p
GainLaw == LET g == IF f.kind = "opt" THEN Grow(f, s) ELSE s
           IN GainP(f, g) >= 0 /\ GainP(f, g) <= SC /\ GainV(f, g) >= -1
PredictLaw == act = "predict" => s.x = (IF f.kind = "none" THEN pre.x ELSE pre.x + pre.v) /\ s.v = pre.v
=================================================================================
