SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS ClosedForm ShortGaps LongGaps Again Books Honest
CONSTANTS
 Lanes = 1
 Frames = 7
 Hmaxs = {1, 2, 3}
 Delays = {0, 1, 2}
 Rmaxs <- R_Some
