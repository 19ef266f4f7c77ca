CONSTANT Mode = "arb"
CONSTANT MaxLen = 3
CONSTANT Gen = TRUE
SPECIFICATION Spec
INVARIANT Laws
INVARIANT Emit
CHECK_DEADLOCK FALSE
