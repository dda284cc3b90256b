SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANT JInit <- CInit
CONSTANT JStep <- CStep
