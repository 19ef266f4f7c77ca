CONSTANT MaxLen = 4
CONSTANT Alpha = "distinct"
CONSTANT Mode = "iter"
CONSTANT Type = "bq"
CONSTANT Depth = 2
CONSTANT Alloc = TRUE
CONSTANT Gen = TRUE
SPECIFICATION Spec
INVARIANT Correct
INVARIANT Emit
CHECK_DEADLOCK FALSE
