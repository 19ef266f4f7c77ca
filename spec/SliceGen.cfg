CONSTANT W = 24
CONSTANT Lens = {0, 3, 4, 15}
CONSTANT Checked = TRUE
CONSTANT Gen = TRUE
CONSTANT Types = {"bd", "sd", "sb", "by"}
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
