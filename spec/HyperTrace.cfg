SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANT JInit <- HyperInit
CONSTANT JStep <- HyperStep
