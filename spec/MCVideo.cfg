SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxSrc = 3
 MaxOut = 3
INVARIANTS Ordered Complete
PROPERTIES SizeOfFirst NoLoss
