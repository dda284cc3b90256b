SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANT JInit <- DInit
CONSTANT JStep <- DStep
