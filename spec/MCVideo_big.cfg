SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxSrc = 5
 MaxOut = 5
INVARIANTS Ordered Complete
PROPERTIES SizeOfFirst NoLoss
