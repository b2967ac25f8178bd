INIT Init
NEXT Next
INVARIANTS Alone
CHECK_DEADLOCK FALSE
