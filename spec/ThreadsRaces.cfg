INIT Init
NEXT Next
INVARIANTS RaceFree
CHECK_DEADLOCK FALSE
