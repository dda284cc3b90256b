SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANT JInit <- EInit
CONSTANT JStep <- EStep
