CONSTANT Depth = 5
CONSTANT Gen = FALSE
CONSTANT Own = TRUE
SPECIFICATION Spec
VIEW GView
INVARIANT Correct
CHECK_DEADLOCK FALSE
