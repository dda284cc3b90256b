SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANT JInit <- WInit
CONSTANT JStep <- WStep
