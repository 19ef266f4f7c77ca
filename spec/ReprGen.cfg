CONSTANT Depth = 4
CONSTANT NS = 3
CONSTANT Gen = TRUE
CONSTANT First = {"static", "borrowed", "chunk", "own", "sb", "bb", "by", "vec16", "vec40"}
CONSTANT Later = {"static", "borrowed", "chunk", "own", "sb", "bb", "by", "vec16", "vec40"}
CONSTANT Closing = {}
SPECIFICATION Spec

INVARIANT Correct
INVARIANT Emit
CHECK_DEADLOCK FALSE
