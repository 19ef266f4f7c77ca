CONSTANT W = 10
CONSTANT Lens = {0, 1, 2, 3, 4}
CONSTANT Checked = TRUE
CONSTANT Gen = FALSE
CONSTANT Types = {"bd", "sd"}
SPECIFICATION Spec
INVARIANT Agrees
INVARIANT Emit
CHECK_DEADLOCK FALSE
