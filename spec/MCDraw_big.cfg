SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 6
 Steps = 40
 An = 3
 Ad = 4
INVARIANTS DueAllowed Sound Gone
PROPERTY Fading
