SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANT JInit <- AInit
CONSTANT JStep <- AStep
