CONSTANT MaxLen = 3
CONSTANT Alpha = "text"
CONSTANT Mode = "range"
CONSTANT Type = "sq"
CONSTANT Depth = 0
CONSTANT Alloc = TRUE
CONSTANT Gen = TRUE
SPECIFICATION Spec
INVARIANT Correct
INVARIANT Emit
CHECK_DEADLOCK FALSE
