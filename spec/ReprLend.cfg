CONSTANT Depth = 5
CONSTANT NS = 2
CONSTANT Gen = TRUE
CONSTANT First = {"borrowed"}
CONSTANT Later = {}
CONSTANT Closing = {"expire"}
SPECIFICATION Spec

INVARIANT Correct
INVARIANT Emit
CHECK_DEADLOCK FALSE
