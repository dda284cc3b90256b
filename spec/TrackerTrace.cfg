SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANT JInit <- TrkInit
CONSTANT JStep <- TrkStep
