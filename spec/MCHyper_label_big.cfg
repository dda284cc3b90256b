SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Independent Disjoint
CONSTANTS
 Hmax = 2
 Delay = 0
 Rmax <- Rmax_1
 Reid = TRUE
 Pers = {1}
 Vals = {1, 9}
 Far = {0, 9}
 MaxDet = 2
 MaxObj = 2
 MaxFrame = 3
 ByLabel = TRUE
