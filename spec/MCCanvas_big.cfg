SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 FH = 3
 FW = 3
 SN = 3
 SD = 2
 Depth = 2
CONSTANT Moves <- MovesBig
INVARIANTS ShowsLatest CutsAgree SizeKept Centered WorldStays
