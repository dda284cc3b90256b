SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Independent Disjoint
CONSTANTS
 Hmax = 2
 Delay = 1
 Rmax <- Rmax_1
 Reid = TRUE
 Pers = {1}
 Vals = {1, 9}
 Far = {5, 9}
 MaxDet = 1
 MaxObj = 2
 MaxFrame = 6
 ByLabel = FALSE
