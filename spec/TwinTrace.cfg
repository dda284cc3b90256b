SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANT JInit <- TwinInit
CONSTANT JStep <- TwinStep
