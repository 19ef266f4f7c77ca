CONSTANT MaxLen = 5
CONSTANT Alpha = "distinct"
CONSTANT Mode = "range"
CONSTANT Type = "bq"
CONSTANT Depth = 0
CONSTANT Alloc = TRUE
CONSTANT Gen = TRUE
SPECIFICATION Spec
INVARIANT Correct
INVARIANT Emit
CHECK_DEADLOCK FALSE
