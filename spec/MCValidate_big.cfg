SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxHits = 20
INVARIANTS ConfirmedIffValid NeverOtherwise DefaultIsValid
