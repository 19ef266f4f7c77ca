CONSTANT N = 5
CONSTANT Steps = {1}
CONSTANT Gen = FALSE
SPECIFICATION Spec
VIEW View
INVARIANT Refines
CHECK_DEADLOCK FALSE
