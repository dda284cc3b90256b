SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Kinds = {"kalman", "opt", "none"}
 Rs = {2048, 16384, 409600}
 Qs = {410, 4096}
 P0s = {4096, 40960}
 W0s = {410, 4096, 40960}
 Zs = {0, 40}
 MaxStep = 6
INVARIANTS CovPositive BetweenLaw NoMoveLaw UntrustedLaw UnseenStill SharperLaw GainLaw PredictLaw
