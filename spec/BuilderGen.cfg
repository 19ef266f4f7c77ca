CONSTANT Depth = 4
CONSTANT Gen = TRUE
CONSTANT Kind = "bb"
CONSTANT Step = 64
CONSTANT Scale = 1
CONSTANT Strict = TRUE
SPECIFICATION Spec
INVARIANT Correct
INVARIANT Emit
CHECK_DEADLOCK FALSE
