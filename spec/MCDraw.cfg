SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 Steps = 12
 An = 1
 Ad = 2
INVARIANTS DueAllowed Sound Gone
PROPERTY Fading
