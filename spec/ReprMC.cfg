CONSTANT Depth = 4
CONSTANT NS = 3
CONSTANT Gen = FALSE
CONSTANT First = {"static", "borrowed", "chunk", "own", "sb", "bb", "by", "vec16", "vec40"}
CONSTANT Later = {"static", "borrowed", "chunk", "own", "sb", "bb", "by", "vec16", "vec40"}
CONSTANT Closing = {}
SPECIFICATION Spec
VIEW GView
INVARIANT Correct
CHECK_DEADLOCK FALSE
