CONSTANT N = 15
CONSTANT MaxNodes = 3
CONSTANT MaxItems = 40
CONSTANT Steps = {1, 2, 13}
CONSTANT Gen = TRUE
SPECIFICATION Spec
VIEW GView
INVARIANT Refines
INVARIANT NoSharing
INVARIANT NoLeak
CHECK_DEADLOCK FALSE
