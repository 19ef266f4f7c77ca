CONSTANT Depth = 5
CONSTANT Gen = FALSE
CONSTANT Kind = "bb"
CONSTANT Step = 64
CONSTANT Scale = 1
CONSTANT Strict = TRUE
SPECIFICATION Spec
VIEW GView
INVARIANT Correct
CHECK_DEADLOCK FALSE
