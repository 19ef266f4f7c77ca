CONSTANT MaxLen = 2
CONSTANT Alpha = "text"
CONSTANT Mode = "iter"
CONSTANT Type = "sq"
CONSTANT Depth = 2
CONSTANT Alloc = TRUE
CONSTANT Gen = TRUE
SPECIFICATION Spec
INVARIANT Correct
INVARIANT Emit
CHECK_DEADLOCK FALSE
