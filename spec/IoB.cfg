CONSTANT MaxLen = 4
CONSTANT Alpha = "lines"
CONSTANT Mode = "io"
CONSTANT Type = "bq"
CONSTANT Depth = 0
CONSTANT Alloc = TRUE
CONSTANT Gen = TRUE
SPECIFICATION Spec
INVARIANT Correct
INVARIANT Emit
CHECK_DEADLOCK FALSE
