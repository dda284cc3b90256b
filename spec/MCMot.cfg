SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Frames = 2
 Truths = 2
 Ids = 2
INVARIANTS Bounded Perfect NamesDoNotMatter FatesAddUp Closed RoundTrip
