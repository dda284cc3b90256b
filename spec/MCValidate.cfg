SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxHits = 6
INVARIANTS ConfirmedIffValid NeverOtherwise DefaultIsValid
