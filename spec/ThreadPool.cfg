SPECIFICATION Spec
CONSTANTS W = 2  MaxJob = 1  MaxOps = 4  PullGroupsAlways = TRUE  JoinAtDestroy = TRUE
INVARIANTS OnceQueued ReturnBarrier NoUseAfterFree ContractSafety
PROPERTY Refines
PROPERTY CallsReturn
CHECK_DEADLOCK FALSE
