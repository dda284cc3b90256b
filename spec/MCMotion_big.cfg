SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Moves = {0, 1, 3}
 MaxFrame = 8
 Getters = {"translation", "homography"}
 Garbage = {0, 7}
INVARIANTS Follow RefLaw
PROPERTIES Known Survives KeepData Recovers
