CONSTANT Mode = "find"
CONSTANT MaxLen = 4
CONSTANT Gen = TRUE
SPECIFICATION Spec
INVARIANT Laws
INVARIANT Emit
CHECK_DEADLOCK FALSE
