SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Memory Chain Chained Follows Seen Sound
CONSTANTS
 H = 2
 Steps = 3
 Xs = {0, 2}
 Moves <- M1
 N = 3
