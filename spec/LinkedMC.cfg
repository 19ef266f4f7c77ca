CONSTANT N = 2
CONSTANT MaxNodes = 4
CONSTANT MaxItems = 6
CONSTANT Steps = {1}
CONSTANT Gen = FALSE
SPECIFICATION Spec
VIEW View
INVARIANT Refines
INVARIANT NoSharing
INVARIANT NoLeak
INVARIANT IterRefines
CHECK_DEADLOCK FALSE
