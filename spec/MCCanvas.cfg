SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 FH = 2
 FW = 3
 SN = 2
 SD = 1
 Depth = 2
CONSTANT Moves <- MovesQuick
INVARIANTS ShowsLatest CutsAgree SizeKept Centered WorldStays
