CONSTANT N = 23
CONSTANT Steps = {1, 2, 11, 20}
CONSTANT Gen = TRUE
SPECIFICATION Spec
VIEW GView
INVARIANT Refines
CHECK_DEADLOCK FALSE
