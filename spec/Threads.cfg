INIT Init
NEXT Next
INVARIANTS Alone RaceFree
CHECK_DEADLOCK FALSE
