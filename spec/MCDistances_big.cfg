SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 G = {0, 1, 2, 3, 7}
 W = 5
INVARIANTS Sym Iou Zero Voting Order Pyth
