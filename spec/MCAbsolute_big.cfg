SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Memory Chain Chained Follows Seen Sound
CONSTANTS
 H = 3
 Steps = 4
 Xs = {0, 2, 3}
 Moves <- M2
 N = 3
