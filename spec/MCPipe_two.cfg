SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS ClosedForm ShortGaps LongGaps Again Books Honest
CONSTANTS
 Lanes = 2
 Frames = 3
 Hmaxs = {1, 2}
 Delays = {0, 1}
 Rmaxs <- R_Some
