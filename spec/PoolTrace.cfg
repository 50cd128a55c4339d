SPECIFICATION TSpec
CONSTANT MaxJob = 1000
INVARIANT TypeOK
INVARIANT ExactlyOnce
CHECK_DEADLOCK TRUE
