SPECIFICATION SpecLong
CONSTANTS W = 2  MaxJob = 1  MaxOps = 4  PullGroupsAlways = TRUE  JoinAtDestroy = TRUE
PROPERTY WokenForWork
CHECK_DEADLOCK FALSE
