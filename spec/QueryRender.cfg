CONSTANT Mode = "render"
CONSTANT MaxLen = 2
CONSTANT Gen = TRUE
SPECIFICATION Spec
INVARIANT Laws
INVARIANT Emit
CHECK_DEADLOCK FALSE
