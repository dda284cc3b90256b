SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 H = 4
 W = 5
 Out = 4
INVARIANTS Exact Ordered Symmetric
