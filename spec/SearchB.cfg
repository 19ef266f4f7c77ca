CONSTANT MaxLen = 4
CONSTANT Alpha = "two"
CONSTANT Mode = "search"
CONSTANT Type = "bq"
CONSTANT Depth = 0
CONSTANT Alloc = TRUE
CONSTANT Gen = TRUE
SPECIFICATION Spec
INVARIANT Correct
INVARIANT Emit
CHECK_DEADLOCK FALSE
