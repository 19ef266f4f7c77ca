CONSTANT Depth = 4
CONSTANT Gen = TRUE
CONSTANT Own = TRUE
SPECIFICATION Spec
INVARIANT Correct
INVARIANT Emit
CHECK_DEADLOCK FALSE
