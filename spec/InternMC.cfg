CONSTANT Cas = TRUE
CONSTANT Recheck = TRUE
CONSTANT Share = TRUE
CONSTANT MaxOps = 2
CONSTANT NKeys = 2
CONSTANT Gen = TRUE
SPECIFICATION Spec
INVARIANT Correct
INVARIANT Emit
CHECK_DEADLOCK FALSE
