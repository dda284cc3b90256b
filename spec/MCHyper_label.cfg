SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Independent Disjoint
CONSTANTS
 Hmax = 2
 Delay = 1
 Rmax <- Rmax_None
 Reid = FALSE
 Pers = {1}
 Vals = {1, 9}
 Far = {0, 9}
 MaxDet = 2
 MaxObj = 2
 MaxFrame = 2
 ByLabel = TRUE
