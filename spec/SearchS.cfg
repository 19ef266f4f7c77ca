CONSTANT MaxLen = 3
CONSTANT Alpha = "text2"
CONSTANT Mode = "search"
CONSTANT Type = "sq"
CONSTANT Depth = 0
CONSTANT Alloc = TRUE
CONSTANT Gen = TRUE
SPECIFICATION Spec
INVARIANT Correct
INVARIANT Emit
CHECK_DEADLOCK FALSE
