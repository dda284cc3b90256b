SPECIFICATION Spec
CONSTANT Depth = 7
INVARIANTS Core More Kept NoTrace Mended Apart
CHECK_DEADLOCK FALSE
