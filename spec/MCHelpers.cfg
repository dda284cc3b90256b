SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 H = 2
 W = 3
 Out = 2
INVARIANTS Exact Ordered Symmetric
