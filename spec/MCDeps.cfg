SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS Core More Kept NoTrace Mended Apart
CHECK_DEADLOCK FALSE
