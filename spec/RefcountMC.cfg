SPECIFICATION Spec
CONSTANT CloneOrd = 0
CONSTANT DropOrd = 4
CONSTANT UniqOrd = 2
CONSTANT MaxOps = 2
CONSTANT Types = {"sb", "sba", "bds", "bde", "bdo", "sds", "sde", "by", "q"}
INVARIANT Safe
INVARIANT NoLeak
INVARIANT Emit
CHECK_DEADLOCK FALSE
