SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxM = 2  MaxN = 2  Vals = {0, 1, 2, 9}  Ts = {0, 2, 9}  Both = TRUE
INVARIANTS OneToOne Bounded ResultGood OnlyResults
PROPERTY Terminates
