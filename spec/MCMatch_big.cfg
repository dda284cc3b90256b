SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxM = 3  MaxN = 3  Vals = {0, 1, 9}  Ts = {1, 9}  Both = FALSE
INVARIANTS OneToOne Bounded ResultGood
PROPERTY Terminates
