INIT Init
NEXT Next
INVARIANTS Ignores Optional Refuses Stable
CHECK_DEADLOCK FALSE
